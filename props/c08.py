#!/usr/bin/env python3-vt
"""C08: casting a dynamic value checks ancestry, constness and converters before it gives access."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

MOV, COP = z3.Function("isMovable", B64, z3.BoolSort()), z3.Function("isCopiable", B64, z3.BoolSort())


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp", VERIF + "/drivers/value.cpp"])

    def fresh_ex():
        ex = c.executor(mods); read_sizes(ex, mods); type_predicates(ex); conv_contract(ex)
        ex.contract("reflect::Type::isCopiable() const", lambda ex, s, a, cx: stl.R(s, simp(COP(a[0]))))
        ex.contract("reflect::Type::isMovable() const", lambda ex, s, a, cx: stl.R(s, simp(MOV(a[0]))))
        return ex

    def events(ex):
        """construction and conversion: an event, which may fail"""
        def cons(ex, s, a, cx):
            s.log = s.log + (("construct", a[1], Val(ex, s, a[2]), a[0]),); return stl.R(s) + stl.ERR(s.fork(), "constructor")
        ex.contract("re:^reflect::Value reflect::Type::construct<reflect::Value( const)?&>\\(", cons)
        def conv(ex, s, a, cx):
            s.log = s.log + (("convert", a[2], Val(ex, s, a[1]), a[0]),); return stl.R(s) + stl.ERR(s.fork(), "converter")
        ex.contract("re:^reflect::Value reflect::Value::convert<reflect::Value>\\(", conv)

    def target_obj(ex, st):
        p = obj(ex, st, "wanted", 16); t = arg_at(ex, st, p); st.assume(z3.ULT(t.ty, 1 << 45)); return p, t

    # ---- cast ------------------------------------------------------------------------------------------------------------------
    def cast(ex, st):
        src, v = value_obj(ex, st, "value"); tp, t = target_obj(ex, st); res = ex.new_region(st, ex.sizes["reflect::Value"], "alloca", None, "result").addr; pre = st.fork()
        sub, conv = PARENT(t.ty, v.arg.ty), CONV(v.arg.ty, t.ty)
        lok = z3.And(sub, z3.Or(t.const, z3.And(z3.Not(v.arg.const), v.arg.ref == m(LVAL))))
        same = z3.Or(z3.And(t.ref == m(LVAL), lok), z3.And(t.ref == m(RVAL), MOV(t.ty), sub))
        mk = z3.And(t.ref == m(COPY), COP(t.ty), sub)
        cv = z3.And(conv, z3.Not(sub), z3.Or(z3.And(t.ref == m(COPY), COP(t.ty)), z3.And(t.ref == m(RVAL), MOV(t.ty))))
        def post(o):
            k = [e for e in o.st.log if e[0] in ("construct", "convert")]
            if o.kind == "error":
                if not k: ex.oblige(o.st, z3.Not(z3.Or(same, mk, cv)), "a cast is refused only if ancestry, constness, copiability or converters forbid it")
                else: ex.oblige(o.st, z3.If(z3.BoolVal(k[0][0] == "construct"), mk, cv), "a constructor or converter is only tried for an allowed cast")
                ex.oblige(o.st, Val(ex, o.st, src).same(v), "a refused cast has no effect on the value"); heap_frame(ex, pre, o); return
            if not expect_ret(ex, o): return
            if not k:
                r = Val(ex, o.st, res)
                ex.oblige(o.st, same, "the same object is only given out when ancestry and constness allow it")
                ex.oblige(o.st, z3.And(r.shares(v), r.arg.eq(v.arg)), "a reference cast yields that same object with the same description")
            else:
                e = k[0]
                ex.oblige(o.st, z3.BoolVal(len(k) == 1), "one object is made")
                ex.oblige(o.st, z3.If(z3.BoolVal(e[0] == "construct"), mk, cv), "a copy is made for a descendant of a copiable type, a conversion otherwise")
                ex.oblige(o.st, z3.And(e[1] == t.ty, e[2].same(v), e[3] == res), "the result is the requested type made from this value")
            ex.oblige(o.st, Val(ex, o.st, src).same(v), "the value itself is unchanged"); heap_frame(ex, pre, o)
        return [res, src, tp], post
    ex = fresh_ex(); events(ex); c.verify(ex, "reflect::cast(reflect::Value&, reflect::Argument const&)", cast)

    # ---- castability ------------------------------------------------------------------------------------------------------------
    def castable(ex, st):
        src, v = value_obj(ex, st, "value"); tp, t = target_obj(ex, st); pre = st.fork()
        def post(o):
            if not expect_ret(ex, o): return
            ex.oblige(o.st, tobool(o.val) == (spec_convertible(ex, v.arg, t) != m(NONE)), "castable iff the value's description converts to the requested one"); heap_frame(ex, pre, o)
        return [src, tp], post
    ex = fresh_ex(); c.verify(ex, "reflect::isCastable(reflect::Value const&, reflect::Argument const&)", castable)

    def spec_of(ex, t):
        cls = re.sub(r"( const)?(&&|&)?$", "", t)
        return cls, Arg(ex.type_const(cls), m(RVAL if t.endswith("&&") else LVAL if t.endswith("&") else COPY), z3.BoolVal(" const" in t))

    def castable_t(t):
        ex = fresh_ex()
        def setup(ex, st):
            src, v = value_obj(ex, st, "value"); cls, w = spec_of(ex, t)
            def post(o):
                if not expect_ret(ex, o): return
                ex.oblige(o.st, tobool(o.val) == (spec_convertible(ex, v.arg, w) != m(NONE)), "castable iff the value's description converts to the requested one")
            return [src], post
        c.verify(ex, "reflect::Cast<reflect::Value, %s>::isCastable(reflect::Value const&)" % t, setup)

    # ---- typed casts --------------------------------------------------------------------------------------------------------------
    def typed(t):
        ex = fresh_ex(); cls, w = spec_of(ex, t)
        def ev(kind):
            def h(ex, s, a, cx): s.log = s.log + ((kind, a[0], a[1] if len(a) > 1 else None),); return stl.R(s)
            return h
        for dem, kind in (("%s::%s(%s const&)" % (cls, cls, cls), "copy"), ("%s::%s(%s&&)" % (cls, cls, cls), "move"), ("%s::~%s()" % (cls, cls), "destroy")): ex.contract(dem, ev(kind))
        R = {}
        def cast(ex, s, a, cx):
            s.log = s.log + (("cast", Val(ex, s, a[1]), arg_at(ex, s, a[2], False)),)
            outs = stl.ERR(s.fork(), "cast")
            q, rv = value_obj(ex, s, "made")
            s.assume(PARENT(w.ty, rv.arg.ty))                       # what cast yields is of the requested type
            mod, nm = ex.find_def(ex.find(VAL + "Value(reflect::Value const&)")[0])
            for o in ex.run(mod.func(nm), s, [a[0], q]):
                if o.kind == "ret": R["v"] = rv; outs += stl.R(o.st)
            return outs
        ex.contract("reflect::cast(reflect::Value&, reflect::Argument const&)", cast)
        byref = t.endswith("&") and not t.endswith("&&")
        def setup(ex, st):
            src, v = value_obj(ex, st, "value")
            res = None if byref else ex.new_region(st, 24, "alloca", None, "result").addr
            def post(o):
                k = [e for e in o.st.log if e[0] == "cast"]; ev = [e for e in o.st.log if e[0] in ("copy", "move", "destroy")]
                if len(k) > 1: ex.oblige(o.st, z3.BoolVal(False), "the value is cast once"); return
                if not k:
                    ex.oblige(o.st, z3.BoolVal(o.kind == "error" and t in ("No", "Mo")), "the value is cast before it is accessed"); return
                ex.oblige(o.st, z3.And(k[0][1].shares(v), k[0][1].arg.eq(v.arg)), "what is cast is the given value"); ex.oblige(o.st, k[0][2].eq(w), "it is cast to the requested description")
                if o.kind == "error": ex.oblige(o.st, z3.BoolVal(o.info == "cast" and not ev), "only a refused cast is an error"); return
                if not expect_ret(ex, o): return
                rv = R["v"]
                if byref: ex.oblige(o.st, z3.And(o.val == rv.value, z3.BoolVal(not ev)), "the reference designates the object the cast yields")
                else:
                    want = "move" if t.endswith("&&") and cls in ("Cp", "Mo") else "copy"
                    ex.oblige(o.st, z3.And(ev[0][1] == res, ev[0][2] == rv.value) if len(ev) == 1 and ev[0][0] == want else z3.BoolVal(False), "the result is %s from the object the cast yields" % {"move": "moved", "copy": "copied"}[want])
            return ([] if byref else [res]) + [src], post
        c.verify(ex, "reflect::Cast<reflect::Value, %s>::cast(reflect::Value)" % t, setup)
    for t in ("Cp&", "Cp const&", "Cp&&", "Cp", "Mo&", "Mo const&", "Mo&&", "Co", "Co&", "No&", "No const&"): typed(t); castable_t(t)

    # ---- copiability and movability -------------------------------------------------------------------------------------------------
    def able(name, ref):
        ex = c.executor(mods); read_sizes(ex, mods)
        FOUND, LOOK = z3.Function("found_function", B64, Str, z3.BoolSort()), z3.Function("look_function", B64, Str, B64)
        ex.contract("reflect::Type::hasFunction(std::string const&) const", lambda ex, s, a, cx: stl.R(s, simp(FOUND(a[0], ex.gget(s, a[1], "str")))))
        def look(ex, s, a, cx):
            f = FOUND(a[0], ex.gget(s, a[1], "str")); s2 = s.fork(); s2.assume(f); s3 = s.fork(); s3.assume(z3.Not(f))
            return [o for o in stl.R(s2, LOOK(a[0], ex.gget(s2, a[1], "str"))) + stl.ERR(s3) if ex.feasible(o.st)]
        ex.contract("reflect::Type::function(std::string const&) const", look)
        YES = z3.Bool("accepted")
        def test(ex, s, a, cx):
            n = ex.vec_size(s, a[2]); d = ex.vec_data(s, a[2])
            s.log = s.log + (("test", a[0], arg_at(ex, s, a[1], False), n, arg_at(ex, s, d, False)),); return stl.R(s, YES)
        ex.contract("reflect::Overloads::test(reflect::Argument const&, std::vector<reflect::Argument, std::allocator<reflect::Argument> > const&) const", test)
        def setup(ex, st):
            t = ptr(ex, st, "this"); idp = observe(ex, st, "reflect::Type::id() const", t); n = ex.gget(st, idp, "str"); pre = st.fork(); f = FOUND(t, n)
            st.assume(LOOK(t, n) != 0)
            def post(o):
                if not expect_ret(ex, o): return
                k = [e for e in o.st.log if e[0] == "test"]
                if not k: ex.oblige(o.st, z3.And(z3.Not(f), z3.Not(tobool(o.val))), "a type without a constructor cannot be made"); return
                self = Arg(t, m(COPY), z3.BoolVal(False)); given = Arg(t, m(ref), z3.BoolVal(False))
                ex.oblige(o.st, z3.And(f, tobool(o.val) == YES, k[0][1] == LOOK(t, n), k[0][2].eq(self), k[0][3] == 1, k[0][4].eq(given)) if len(k) == 1 else z3.BoolVal(False), "the type's constructor is asked for the type itself, given %s of it" % ("an r-value" if ref == RVAL else "a copy"))
                heap_frame(ex, pre, o)
            return [t], post
        c.verify(ex, "reflect::Type::%s() const" % name, setup)
    able("isCopiable", COPY); able("isMovable", RVAL)
    c.assumptions += COMMON_ASSUMPTIONS + [
        "isConvertibleTo (C01), isChildOf/isParentOf (C02), hasConverter and converter (C06), overload lookup (C04) enter by their contracts; construction and conversion are events that may fail",
        "typed casts are verified at eleven opaque targets (by copy, l-value, const l-value, r-value; copiable / movable / neither); what cast yields is assumed to be of the requested type (converters return what their name says)"]
    c.finish(witness=lambda c: std_witness(c, "c08.cpp"))


if __name__ == "__main__": main(run, "C08")
