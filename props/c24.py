#!/usr/bin/env python3-vt
"""C24: the description made for a C++ type, expression or callable says what the C++ type is."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

TYPES = {"pa": ("Pa", "Pa"), "in": ("int", "int"), "ul": ("unsigned long", "unsigned long int"), "pp": ("Pa*", "Pa*"), "pcp": ("Pa const*", "Pa*"), "ppp": ("Pa**", "Pa**"),
         "val": ("reflect::Value", "reflect::Value"), "tp": ("Tp<Pa>", "Tp<Pa>")}
FORMS = {"v": ("%s", COPY, False), "c": ("%s const", COPY, True), "l": ("%s&", LVAL, False), "lc": ("%s const&", LVAL, True), "r": ("%s&&", RVAL, False), "rc": ("%s const&&", RVAL, True)}
P, I, V, O = "Pa", "int", "reflect::Value", "Ob"
def cp(t): return (t, COPY, False)
def lv(t): return (t, LVAL, False)
def cl(t): return (t, LVAL, True)
def rv(t): return (t, RVAL, False)
# callable -> (description of the result, descriptions of the parameters), from the declarations in the driver and the property's statement
SIGS = {"plain": ("Pa (int, Pa&, Pa const&)", cp(P), [cp(I), lv(P), cl(P)]), "none": ("void ()", cp("void"), []), "gptr": ("Pa& (*)(Pa&&, int, int const&)", lv(P), [rv(P), cp(I), cl(I)]),
        "mget": ("int (Ob::*)(int, int const&) const", cp(I), [cl(O), cp(I), cl(I)]), "mset": ("void (Ob::*)(Pa&, Pa const&)", cp("void"), [lv(O), lv(P), cl(P)]), "mmake": ("Pa (Ob::*)(Pa&&) const", cp(P), [cl(O), rv(P)]),
        "mref": ("Pa const& (Ob::*)(Pa*, Pa const&)", cl(P), [lv(O), cp("Pa*"), cl(P)]), "fa": ("Fa", cp("void"), [lv(P), cl(P), rv(P)]), "fb": ("Fb", cl(P), [cp(I), cp(V), cl(V), cp("Pa*")]), "fn": ("Fn", cp(P), []),
        "long": ("void (int, Pa, Ob, int&, Pa&, Ob&, int const&)", cp("void"), [cp(I), cp(P), cp(O), lv(I), lv(P), lv(O), cl(I)]), "mlast": ("void (Ob::*)(Ob&)", cp("void"), [lv(O), lv(O)])}
CTORS = {"gptr": "gptr", "mget": "mget", "mref": "mref", "fa": "fa", "fb": "fb", "fn": "fn", "gv": None}
TYPEOF = z3.Function("RegisteredType", Str, B64)


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/argument.cpp"])

    def fresh(library=True):
        ex = c.executor(mods); read_sizes(ex, mods); ex.check_null = False
        def get(ex, st, a, cx):
            n = ex.gget(st, a[0], "str"); st.log = st.log + (("get", n),); t = TYPEOF(n); st.assume(z3.And(t != 0, z3.ULT(t, 1 << 45))); return stl.R(st, t)
        ex.contract("reflect::Registry::get(std::string const&)", get)
        ex.contract("re:^reflect::Type const\\* reflect::type<.*>\\(\\)$", lambda ex, st, a, cx: None)      # executed in place here
        ex.contract("reflect::Registry::add(std::string const&, std::function<void (reflect::Type*)>)", lambda ex, st, a, cx: (setattr(st, "log", st.log + (("add", ex.gget(st, a[0], "str"), ex.gget(st, a[1], "fun")),)), stl.R(st))[1])
        ex.contract("reflect::Registry::alias(std::string const&, std::string const&)", lambda ex, st, a, cx: (setattr(st, "log", st.log + (("alias", ex.gget(st, a[0], "str"), ex.gget(st, a[1], "str")),)), stl.R(st))[1])
        ex.contract("loads(char const*)", lambda ex, st, a, cx: (setattr(st, "log", st.log + (("loads", ex.cstr(st, a[0])),)), stl.R(st))[1])
        ex.contract("malloc", lambda ex, st, a, cx: stl.R(st, ex.new_region(st, num(simp(a[0])) if isnum(simp(a[0])) else None, "malloc", None, "callable memory").addr), True)
        ex.contract("free", lambda ex, st, a, cx: stl.R(st), True)
        for C in ("Fa", "Fb", "Fn", "Pa"): ex.contract("re:^%s::~?%s\\(" % (C, C), lambda ex, st, a, cx: stl.R(st))
        return ex

    def describes(ex, st, a, want, what):
        if isinstance(want, tuple):
            t, ref, const = want; st.assume(slen(ex.lit("")) == 0)
            ex.oblige(st, a.ty == TYPEOF(ex.lit(t)), what + ": the type named is %s" % t)
            ex.oblige(st, a.ref == ref, what + ": it is %s" % ["a copy", "an l-value reference", "an r-value reference"][ref])
            ex.oblige(st, a.const == z3.BoolVal(const), what + ": it is %sconst" % ("" if const else "not "))
        else:
            w = arg_at(ex, st, observe(ex, st, "reflect::Value::argument() const", want), False); ex.oblige(st, z3.And(a.ty == w.ty, a.ref == w.ref, a.const == w.const), what + ": a value is described by what it holds")

    def fn(name): return re.compile(r"(^|[ *])%s\(.*" % name)
    def one(name, label, post_, nargs=0, sret=None):
        ex = fresh(); names = ex.find(re.compile(r"^(.* )?%s\(" % name))
        if not names: raise Unsupported("driver function " + name)
        def setup(ex, st):
            args = []; xs = []; res = None
            if sret: res = ex.new_region(st, sret, "alloca", None, "result").addr; args = [res]
            for i in range(nargs): xs.append(ptr(ex, st, "argument%d" % i, 8))
            pre = st.fork()
            def post(o):
                if not expect_ret(ex, o): return
                post_(ex, o, res, xs, pre)
            return args + xs, post
        c.verify(ex, None, setup, label=label, mangled=names[0])

    def loaded(ex, o, t, form):
        """types that are loaded on demand are asked to before they are looked up"""
        if t not in ("Pa", "Tp<Pa>"): return
        seen = False; ok = False
        for e in o.st.log:
            if e[0] == "loads" and e[1].strip(b"\0") == t.split("<")[0].encode(): seen = True
            if e[0] == "get" and simp(e[1]).eq(ex.lit(t)): ok = seen
        ex.oblige(o.st, z3.BoolVal(ok), "the type's own loader is run before the type is looked up")

    for k, (t, i) in TYPES.items():
        for f, (sp, ref, const) in FORMS.items():
            T = sp % t
            def mk(ex, o, res, xs, pre, i=i, ref=ref, const=const, f=f): describes(ex, o.st, arg_of_coerced(o.val), (i, ref, const), "the description"); loaded(ex, o, i, f); 
            one("mk_%s_%s" % (k, f), "reflect::Argument::make<%s>()" % T, mk)
            def ty(ex, o, res, xs, pre, i=i, f=f): ex.oblige(o.st, o.val == TYPEOF(ex.lit(i)), "the type is the one registered as %s" % i); loaded(ex, o, i, f)
            one("ty_%s_%s" % (k, f), "reflect::type<%s>()" % T, ty)
            def id_(ex, o, res, xs, pre, i=i): ex.oblige(o.st, ex.gget(o.st, res, "str") == ex.lit(i), "the identifier is %s" % i)
            one("id_%s_%s" % (k, f), "reflect::typeId<%s>()" % T, id_, sret=32)
    def mkv(ex, o, res, xs, pre): describes(ex, o.st, arg_of_coerced(o.val), cp("void"), "the description")
    one("mk_vo", "reflect::Argument::make<void>()", mkv)

    for k in ("pa", "in", "pp", "tp"):
        t, i = TYPES[k]
        for f, (sp, ref, const) in FORMS.items():
            if f in ("v", "c"): continue
            def ex1(ex, o, res, xs, pre, i=i, ref=ref, const=const): describes(ex, o.st, arg_of_coerced(o.val), (i, ref, const), "the description of the expression")
            one("ex_%s_%s" % (k, f), "reflect::Argument::make(%s)" % (sp % t), ex1, nargs=1)

    # ---- callables -----------------------------------------------------------------------------------------------------------------
    def lists(ex, o, vec, want, what="parameter"):
        st = o.st; n = ex.vec_size(st, vec); ex.oblige(st, n == len(want), "there are %d %ss" % (len(want), what))
        if not ex.valid(st, n == len(want)): return
        for j, w in enumerate(want): describes(ex, st, arg_at(ex, st, simp(ex.gget(st, vec, "vec.data") + bv(16 * j)), False), w, "%s %d" % (what, j + 1))
    for k, (t, ret, pars) in SIGS.items():
        one("sr_" + k, "reflect::reflectReturn<%s>()" % t, lambda ex, o, res, xs, pre, ret=ret: describes(ex, o.st, arg_of_coerced(o.val), ret, "the result"))
        one("sa_" + k, "reflect::reflectArguments<%s>()" % t, lambda ex, o, res, xs, pre, pars=pars: lists(ex, o, res, pars), sret=24)
    one("pa_mixed", "reflect::reflectArguments(Pa&, Pa const&, Value&, Value const&, int&&)", lambda ex, o, res, xs, pre: lists(ex, o, res, [lv(P), cl(P), xs[2], xs[3], rv(I)], "argument"), 5, 24)
    one("pa_moved", "reflect::reflectArguments(Pa&&, Value&&, Pa const&&, Pa const&, Pa&)", lambda ex, o, res, xs, pre: lists(ex, o, res, [rv(P), xs[1], (P, RVAL, True), cl(P), lv(P)], "argument"), 3, 24)
    one("pa_none", "reflect::reflectArguments()", lambda ex, o, res, xs, pre: lists(ex, o, res, [], "argument"), 0, 24)

    FU = "reflect::Function::"
    for k in CTORS:
        t, ret, pars = SIGS[k] if k != "gv" else ("void (*)()", cp("void"), [])
        ex = fresh(); names = ex.find(re.compile(r"^reflect::Function::Function<%s>\(std::string const&, " % re.escape(t)))
        if not names: raise Unsupported("no constructor of a function for " + t)
        def setup(ex, st, t=t, ret=ret, pars=pars):
            this = ex.new_region(st, ex.sizes["reflect::Function"], "alloca", None, "this").addr; r = ex.new_region(st, 32, "alloca", None, "name"); n = z3.Const("name", Str); ex.gset(st, r.addr, "str", n)
            args = [this, r.addr]
            if k[0] == "m": args.append(ex.new_region(st, 16, "alloca", None, "member pointer").addr)
            elif k[0] == "g": args.append(ptr(ex, st, "callable"))
            else: args.append(ex.new_region(st, 8, "alloca", None, "callable").addr)
            sg = mods_sig(ex, names[0])
            if sg is not None and len(sg) != len(args):
                args = args[:2] + [z3.BitVec("callable%d" % j, 64) for j in range(len(sg) - 2)]
            def post(o):
                if not expect_ret(ex, o): return
                st = o.st; ex.oblige(st, ex.gget(st, observe(ex, st, FU + "name() const", this), "str") == n, "the function carries the name given")
                describes(ex, st, arg_at(ex, st, observe(ex, st, FU + "returnType() const", this), False), ret, "the result")
                cnt = observe(ex, st, FU + "arguments() const", this); ex.oblige(st, cnt == len(pars), "there are %d parameters" % len(pars))
                for j, w in enumerate(pars): describes(ex, st, arg_at(ex, st, observe(ex, st, FU + "argument(unsigned long) const", this, bv(j)), False), w, "parameter %d" % (j + 1))
            return args, post
        c.verify(ex, None, setup, label=demangle(names[0]), mangled=names[0])

    # ---- typed registration ---------------------------------------------------------------------------------------------------------
    for T, i in (("Pa", "Pa"), ("Ob const&", "Ob"), ("Tp<Pa>", "Tp<Pa>")):
        def add(ex, st, i=i):
            def post(o):
                if not expect_ret(ex, o): return
                ev = [e for e in o.st.log if e[0] in ("add", "alias")]; ok = len(ev) == 1 and ev[0][0] == "add"
                ex.oblige(o.st, z3.And(ev[0][1] == ex.lit(i), ev[0][2] != 0) if ok else z3.BoolVal(False), "a loader is added once, for the identifier %s" % i)
            return [], post
        ex = fresh(); c.verify(ex, re.compile(r"^void reflect::Registry::add<%s ?>\(\)$" % re.escape(T)), add)
    for T, i in (("Pa", "Pa"), ("Ob const&", "Ob")):
        def al(ex, st, i=i):
            r = ex.new_region(st, 32, "alloca", None, "alias"); n = z3.Const("alias", Str); ex.gset(st, r.addr, "str", n)
            def post(o):
                if not expect_ret(ex, o): return
                ev = [e for e in o.st.log if e[0] in ("add", "alias")]; ok = len(ev) == 1 and ev[0][0] == "alias"
                ex.oblige(o.st, z3.And(ev[0][1] == ex.lit(i), ev[0][2] == n) if ok else z3.BoolVal(False), "the alias is added once, for the identifier %s" % i)
            return [r.addr], post
        ex = fresh(); c.verify(ex, "void reflect::Registry::alias<%s>(std::string const&)" % T, al)

    c.assumptions += COMMON_ASSUMPTIONS + ["the C++ compiler's instantiation of the templates at the driver's types stands for every type (templates are checked at %d type forms and %d callables)" % (len(TYPES) * len(FORMS) + 1, len(SIGS)),
        "a pointer type is named by its pointee stripped of constness (the library's own convention)", "the registry answers as C12 proves; a value's description of itself is C08's"]
    c.finish(witness=lambda c: std_witness(c, "c24.cpp"))


def mods_sig(ex, mangled):
    mod, nm = ex.find_def(mangled); return mod.func(nm).params


if __name__ == "__main__": main(run, "C24")
