#!/usr/bin/env python3-vt
"""C06: member lookup along the parent chain; additions keep fields and functions disjoint; converter lookup."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

T = "reflect::Type::"
STR = "std::string const&"
KINDS = {"function": ("reflect::Overloads", "function"), "field": ("reflect::Field", "field")}
RANK = z3.Function("rank", B64, B64)


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp"])
    FOUND = {k: z3.Function("found_" + k, B64, Str, z3.BoolSort()) for k in KINDS}
    LOOK = {k: z3.Function("look_" + k, B64, Str, B64) for k in KINDS}
    NONCONST = lambda k: T + "%s(%s)" % (k, STR)
    CONST = lambda k: T + "%s(%s) const" % (k, STR)
    HAS = lambda k: T + "has%s(%s) const" % (k.capitalize(), STR)

    def parent(ex, st, t): return observe(ex, st, T + "parent() const", t)

    def own(ex, st, k, t, name):
        """(declared, address) of the member of kind k that the type itself declares under the name: the immediate lookup in a state where the type has no parent"""
        s = st.fork()
        ex.mute += 1
        o = [o for o in ex.call(s, ex.find(T + "parent(reflect::Type const*)")[0], [t, bv(0)]) if o.kind == "ret"]
        ex.mute -= 1
        ob = Observed(ex, o[0].st, NONCONST(k), [t, name])
        try: v = ob.val()
        except Unsupported: v = bv(0)
        return ob.ok(), v

    def namebuf(ex, st, label="name"):
        r = ex.new_region(st, 32, "alloca", None, label); n = z3.Const(label, Str); ex.gset(st, r.addr, "str", n); return r.addr, n

    def fresh_ex(recursive=True):
        ex = c.executor(mods); read_sizes(ex, mods); ex.measure = None
        if recursive:
            for k in KINDS:
                def has(ex, st, a, cx, k=k):
                    ex.oblige(st, a[0] != 0, "the parent asked exists", "pre")
                    if ex.measure is not None: ex.oblige(st, z3.ULT(RANK(a[0]), ex.measure), "recursive query is made closer to the root (termination)", "pre")
                    return stl.R(st, simp(FOUND[k](a[0], ex.gget(st, a[1], "str"))))
                def get(ex, st, a, cx, k=k):
                    ex.oblige(st, a[0] != 0, "the parent asked exists", "pre")
                    if ex.measure is not None: ex.oblige(st, z3.ULT(RANK(a[0]), ex.measure), "recursive query is made closer to the root (termination)", "pre")
                    n = ex.gget(st, a[1], "str"); f = FOUND[k](a[0], n); outs = []
                    s2 = st.fork(); s2.assume(f); s2.assume(LOOK[k](a[0], n) != 0); outs += stl.R(s2, LOOK[k](a[0], n))
                    s3 = st.fork(); s3.assume(z3.Not(f)); outs += stl.ERR(s3)
                    return [o for o in outs if ex.feasible(o.st)]
                ex.contract(HAS(k), has); ex.contract(CONST(k), get)
        return ex

    def spec(ex, st, k, t, name, n):
        """defining equations of FOUND and LOOK at (t, name)"""
        p = parent(ex, st, t); h, a = own(ex, st, k, t, name)
        return z3.Or(h, z3.And(p != 0, FOUND[k](p, n))), z3.If(h, a, LOOK[k](p, n)), p

    for k in KINDS:
        def lookup(what, k=k):
            ex = fresh_ex()
            def setup(ex, st):
                t = ptr(ex, st, "this"); name, n = namebuf(ex, st)
                f, l, p = spec(ex, st, k, t, name, n)
                st.assume(z3.Implies(p != 0, z3.ULT(RANK(p), RANK(t)))); ex.measure = RANK(t)
                pre = st.fork(); st.assume(FOUND[k](t, n) == f); st.assume(LOOK[k](t, n) == l)
                def facts(v):
                    if z3.is_false(simp(v != 0)): return [("!closer to the root", z3.BoolVal(True)), ("found from here on", z3.BoolVal(False)), ("definition found from here on", bv(0))]
                    fv, lv, pv = spec(ex, pre.fork(), k, v, name, n)
                    return [(None, z3.Implies(v != 0, z3.And(FOUND[k](v, n) == fv, LOOK[k](v, n) == lv, z3.Implies(pv != 0, z3.ULT(RANK(pv), RANK(v)))))),
                            ("!closer to the root", z3.Implies(v != 0, z3.ULE(RANK(v), RANK(t)))),
                            ("found from here on", z3.And(v != 0, FOUND[k](v, n))), ("definition found from here on", z3.If(z3.And(v != 0, FOUND[k](v, n)), LOOK[k](v, n), bv(0)))]
                chain_hint(ex, facts)
                def post(o):
                    if what == "has":
                        if expect_ret(ex, o): ex.oblige(o.st, tobool(o.val) == f, "the existence query answers whether the type or an ancestor declares the name")
                    elif o.kind == "error": ex.oblige(o.st, z3.Not(f), "lookup fails only if neither the type nor an ancestor declares the name")
                    elif expect_ret(ex, o):
                        ex.oblige(o.st, z3.And(f, o.val == l), "lookup returns the nearest declaration on the parent chain")
                    heap_frame(ex, pre, o)
                return [t, name], post
            c.verify(ex, HAS(k) if what == "has" else CONST(k), setup)
        lookup("has"); lookup("get")

        def immediate(ex, st, k=k):
            t = ptr(ex, st, "this"); name, n = namebuf(ex, st); h, a = own(ex, st, k, t, name); pre = st.fork()
            def post(o):
                if o.kind == "error": ex.oblige(o.st, z3.Not(h), "the non-const lookup fails only if the type itself does not declare the name"); return
                if not expect_ret(ex, o): return
                ex.oblige(o.st, z3.And(h, o.val == a), "the non-const lookup considers the type itself only"); heap_frame(ex, pre, o)
            return [t, name], post
        c.verify(fresh_ex(), NONCONST(k), immediate)

    # ---- additions ----------------------------------------------------------------------------------------------------------
    def others(ex, before, after, t, name, n, kinds):
        m, mn = z3.Const("othername", Str), None
        for k in KINDS:
            s0, s1 = before.fork(), after.fork()
            for s in (s0, s1):
                r = ex.new_region(s, 32, "alloca", None, "othername"); ex.gset(s, r.addr, "str", m)
                if s is s0: h0, a0 = own(ex, s, k, t, r.addr)
                else: h1, a1 = own(ex, s, k, t, r.addr)
            same = z3.And(h0 == h1, z3.Implies(h0, a0 == a1))
            ex.oblige(after, z3.Implies(m != n, same) if k in kinds else same, "every other %s of the type is as before" % k)

    def add_function(ex, st):
        t, fn = ptr(ex, st, "this"), ptr(ex, st, "fn"); name, n = namebuf(ex, st)
        hf, af = own(ex, st, "field", t, name); ho, ao = own(ex, st, "function", t, name)
        st.assume(z3.Implies(ho, ao != 0))
        src = ex.gget(st, fn, "callable")
        def move(ex, s, a, cx): ex.gset(s, a[0], "callable", ex.gget(s, a[1], "callable")); ex.gset(s, a[1], "callable", bv(0)); return stl.R(s)
        ex.contract("reflect::Function::Function(reflect::Function&&)", move)
        ex.contract("reflect::Function::~Function()", lambda ex, s, a, cx: stl.R(s))
        def add(ex, s, a, cx):
            size = observe(ex, s, "reflect::Overloads::size() const", a[0])
            bad = z3.Bool("exact_duplicate"); outs = []
            s2 = s.fork(); s2.assume(z3.And(bad, size != 0)); outs += stl.ERR(s2, "duplicate")
            s3 = s.fork(); s3.assume(z3.Not(z3.And(bad, size != 0))); s3.log = s3.log + (("add", a[0], ex.gget(s3, a[1], "callable")),); outs += stl.R(s3)
            return [o for o in outs if ex.feasible(o.st)]
        ex.contract("reflect::Overloads::add(reflect::Function)", add)
        pre = st.fork()
        def post(o):
            adds = [e for e in o.st.log if e[0] == "add"]
            if o.kind == "error":
                if o.info != "duplicate": ex.oblige(o.st, hf, "a function is refused only if the name is a field of the type (or the overload is a duplicate)")
                others(ex, pre, o.st, t, name, n, ()); return
            if not expect_ret(ex, o): return
            ex.oblige(o.st, z3.Not(hf), "a name that is a field is refused as a function")
            if len(adds) != 1: ex.oblige(o.st, z3.BoolVal(False), "exactly one overload is added (%d are)" % len(adds)); return
            h1, a1 = own(ex, o.st, "function", t, name)
            ex.oblige(o.st, z3.And(h1, a1 == adds[0][1], z3.Implies(ho, a1 == ao)), "the function is added to the overloads the type has under the name")
            ex.oblige(o.st, adds[0][2] == src, "the function added is the given one")
            others(ex, pre, o.st, t, name, n, ("function",))
            ex.oblige(o.st, z3.Not(own(ex, o.st, "field", t, name)[0]), "the name is not a field as well")
        return [t, name, fn], post
    stl.Executor.ghost_sorts["callable"] = B64
    c.verify(fresh_ex(), T + "addFunction(%s, reflect::Function&&)" % STR, add_function)

    def add_field(ex, st):
        t = ptr(ex, st, "this"); name, n = namebuf(ex, st)
        f = obj(ex, st, "field", ex.sizes["reflect::Field"])
        def desc(s, p):
            nm = observe(ex, s, "reflect::Field::name() const", p)
            a = arg_at(ex, s, observe(ex, s, "reflect::Field::argument() const", p), False)
            return ex.gget(s, nm, "str"), a, observe(ex, s, "reflect::Field::offset() const", p)
        n0, a0, o0 = desc(st, f)
        hf, af = own(ex, st, "field", t, name); ho, ao = own(ex, st, "function", t, name)
        pre = st.fork()
        def post(o):
            if o.kind == "error":
                ex.oblige(o.st, z3.Or(hf, ho), "a field is refused only if the name is already a field or a function of the type")
                others(ex, pre, o.st, t, name, n, ()); return
            if not expect_ret(ex, o): return
            ex.oblige(o.st, z3.Not(z3.Or(hf, ho)), "a name that is already a field or a function is refused as a field")
            h1, a1 = own(ex, o.st, "field", t, name)
            ex.oblige(o.st, h1, "the field is found under its name afterwards")
            n1, g1, o1 = desc(o.st, a1)
            ex.oblige(o.st, z3.And(n1 == n0, g1.eq(a0), o1 == o0), "the field found is the one declared")
            others(ex, pre, o.st, t, name, n, ("field",))
            ex.oblige(o.st, z3.Not(own(ex, o.st, "function", t, name)[0]), "the name is not a function as well")
        return [t, name, f], post
    c.verify(fresh_ex(), T + "addField(%s, reflect::Field&&)" % STR, add_field)

    # ---- converters -------------------------------------------------------------------------------------------------------
    def converter(what):
        ex = fresh_ex()
        def setup(ex, st):
            t, o = ptr(ex, st, "this"), ptr(ex, st, "target")
            idp = observe(ex, st, T + "id() const", o)
            n = stl.mk_cat(ex, st, stl.mk_cat(ex, st, ex.lit("operator "), ex.gget(st, idp, "str")), ex.lit("()"))
            f, l = FOUND["function"](t, n), LOOK["function"](t, n)
            s2 = st.fork(); s2.assume(l != 0)
            size = observe(ex, s2, "reflect::Overloads::size() const", l)
            st.assume(z3.Implies(f, z3.And(l != 0, size != 0)))
            s2.assume(size != 0); first = observe(ex, s2, "reflect::Overloads::operator[](unsigned long) const", l, bv(0))
            pre = st.fork()
            def post(out):
                if what == "has":
                    if expect_ret(ex, out): ex.oblige(out.st, tobool(out.val) == f, "a converter exists iff the conversion function is found")
                elif out.kind == "error": ex.oblige(out.st, z3.Or(z3.Not(f), z3.UGT(size, 1)), "the converter lookup fails only without a conversion function or with several")
                elif expect_ret(ex, out): ex.oblige(out.st, z3.And(f, size == 1, out.val == first), "the converter is the only conversion function to that type")
                heap_frame(ex, pre, out)
            return [t, o], post
        c.verify(ex, T + ("hasConverter" if what == "has" else "converter") + "(reflect::Type const*) const", setup)
    converter("has"); converter("get")
    c.assumptions += COMMON_ASSUMPTIONS + [
        "Overloads::add is replaced by its contract (C05): it fails only for an exact duplicate, in particular never on an empty set",
        "a registered name has at least one overload; the parent chain is acyclic (termination)",
        "what a type itself declares is read through the non-const lookups in a state without parent; additions and every lookup are proved consistent with it"]
    c.finish(witness=lambda c: std_witness(c, "c06.cpp"))


if __name__ == "__main__": main(run, "C06")
