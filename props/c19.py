#!/usr/bin/env python3-vt
"""C19: traits are a set with values: adding twice is an error and changes nothing, other traits are untouched, queries are exact."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *
from regcommon import namearg

T = "reflect::Traits::"
ADD = T + "addTrait(std::string const&, reflect::Value)"
IS = T + "is(std::string const&) const"
GETV = re.compile(r"^reflect::Value reflect::Traits::getValue<reflect::Value>\(")


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp", VERIF + "/drivers/value.cpp", VERIF + "/drivers/traits.cpp"])

    def fresh():
        ex = c.executor(mods); read_sizes(ex, mods); type_predicates(ex)
        for mo in mods:
            g = mo.gvar("drv_sizeof_Traits")
            if g and g["init"]: ex.sizes["reflect::Traits"] = g["init"][2]
        for k in ("const&", "&&"): ex.contract("Cp::Cp(Cp %s)" % k if k == "const&" else "Cp::Cp(Cp&&)", lambda ex, s, a, cx: stl.R(s))
        ex.contract("Cp::~Cp()", lambda ex, s, a, cx: stl.R(s))
        def rc(ex, s, a, cx):
            """the typed reading of a value (its contract: C08) -- which value is read is what matters here"""
            v = ex.undef(cx["I"].ty) if cx["I"] is not None and cx["I"].ty.kind != "void" else None
            src = a[1] if v is None and len(a) > 1 else a[0]
            t = re.search(r"reflect::retCast<(.*)>\(", cx["dem"]).group(1); s.log = s.log + (("read", src, t, v, a[0] if len(a) > 1 else None),); return stl.R(s, v)
        ex.contract("re:(^| )reflect::(retCast|cast)<", rc)
        return ex

    def has(ex, st, p, n): return observe(ex, st, IS, p, n) != 0
    def value(ex, st, p, n):
        """the value attached to a trait that is there: the object getValue reads"""
        q = st.fork(); ex.mute += 1
        try: outs = ex.run(ex.find_def(ex.find(GETV)[0])[0].func(ex.find_def(ex.find(GETV)[0])[1]), q, [ex.new_region(q, ex.sizes["reflect::Value"], "alloca").addr, p, n])
        finally: ex.mute -= 1
        r = [(o, [e for e in o.st.log if e[0] == "read"]) for o in outs if o.kind == "ret"]
        if len(r) != 1 or len(r[0][1]) != 1: raise Unsupported("the value of a trait is not read through one cast")
        return Val(ex, r[0][0].st, r[0][1][0][1])

    # ---- adding ------------------------------------------------------------------------------------------------------------
    def add(ex, st):
        p = ptr(ex, st, "this", 8); np, n = namearg(ex, st, "trait"); yp, y = namearg(ex, st, "other")
        st.assume(y != n)
        v, sv = value_obj(ex, st, "value")
        had, hady = has(ex, st, p, np), has(ex, st, p, yp)
        s0 = st.fork(); s0.assume(hady); oy = value(ex, s0, p, yp) if ex.feasible(s0) else None
        s1 = st.fork(); s1.assume(had); on = value(ex, s1, p, np)
        pre = st.fork()
        def post(o):
            s = o.st
            if o.kind != "ret":
                ex.oblige(s, z3.BoolVal(o.kind == "error"), "a failure is reported as an error"); ex.oblige(s, had, "adding fails only for a trait that is already there")
                ex.oblige(s, has(ex, s, p, np), "a trait added twice stays"); heap_frame(ex, pre, o, name="adding a trait twice changes nothing")
            else:
                ex.oblige(s, z3.Not(had), "adding a trait that is already there is an error")
                ex.oblige(s, has(ex, s, p, np), "the trait added is there")
                s2 = s.fork()
                if ex.feasible(s2):
                    w = value(ex, s2, p, np); ex.oblige(s2, z3.And(w.value == sv.value, w.own == sv.own, w.ptr == sv.ptr, w.arg.eq(sv.arg)), "the trait carries the value it was added with")
            ex.oblige(s, has(ex, s, p, yp) == hady, "adding a trait neither adds nor removes another")
            s3 = s.fork(); s3.assume(hady)
            if ex.feasible(s3):
                w = value(ex, s3, p, yp); ex.oblige(s3, w.same(oy), "the value of another trait is untouched")
            if o.kind == "ret":
                # the only memory written besides the table is the new entry
                heap_frame(ex, pre, o, ("map.has", "map.node", "map.size"), "entries that were there are not modified")
                m_ = z3.Const("object", B64); size = bv(ex.sizes["reflect::Traits"])
                for g in ("map.has", "map.node", "map.size"):
                    a, b = pre.g.get(g), s.g.get(g)
                    if a is not None and b is not None and not a.eq(b):
                        ex.oblige(s, z3.Implies(z3.Or(z3.ULT(m_, p), z3.UGE(m_, p + size)), z3.Select(a, m_) == z3.Select(b, m_)), "the traits of other entities are untouched (%s)" % g, "frame")
        return [p, np, v], post
    ex = fresh(); c.verify(ex, ADD, add)

    # ---- an entity starts without traits ----------------------------------------------------------------------------------------
    def ctor(ex, st):
        r = ex.new_region(st, ex.sizes["reflect::Traits"], "alloca", None, "entity"); yp, y = namearg(ex, st, "any")
        def post(o):
            if not expect_ret(ex, o): return
            ex.oblige(o.st, z3.Not(has(ex, o.st, r.addr, yp)), "a new entity has no trait")
        return [r.addr], post
    ex = fresh()
    if ex.find(T + "Traits()"): c.verify(ex, T + "Traits()", ctor)

    # ---- typed adding: the object given becomes the trait's value (Value's construction: C07) ----------------------------------
    def typed(name):
        ex = fresh()
        def wrap(ex, s, a, cx): s.log = s.log + (("wrap", cx["dem"], a[0], a[1]),); return stl.R(s)
        ex.contract("re:^reflect::Value::Value<", wrap)
        def added(ex, s, a, cx):
            s.log = s.log + (("add", a[0], ex.gget(s, a[1], "str"), a[2]),); return [Out("ret", s.fork(), None), Out("error", s, None, None)]
        ex.contract(ADD, added)
        def setup(ex, st):
            p = ptr(ex, st, "this", 8); np, n = namearg(ex, st, "trait"); x = ptr(ex, st, "object", 8); pre = st.fork()
            def post(o):
                w = [e for e in o.st.log if e[0] == "wrap"]; d = [e for e in o.st.log if e[0] == "add"]
                ok = len(w) == 1 and len(d) == 1
                ex.oblige(o.st, z3.BoolVal(ok), "the object is wrapped once and added once")
                if not ok: return
                par = split(w[0][1]); want = split(demangle(name))
                ex.oblige(o.st, z3.BoolVal(want.endswith("&") and (par.rstrip("&") == want.rstrip("&")) and par.endswith("&&") == want.endswith("&&")), "the object is wrapped with its own reference kind (%s as %s)" % (want, par))
                ex.oblige(o.st, z3.And(w[0][3] == x, d[0][1] == p, d[0][2] == n, d[0][3] == w[0][2]), "the value added is the object given, under the trait's name, to this entity")
                heap_frame(ex, pre, o)
            return [p, np, x], post
        c.verify(ex, None, setup, label=demangle(name), mangled=name)
    def split(d): return stl.split_params(stl.split_name(d)[2])[-1].strip()
    ex = fresh(); names = ex.find(re.compile(r"^void reflect::Traits::addTrait<.*>\(std::string const&, "))
    names = [n for n in names if "Cp" in demangle(n) or "int" in demangle(n)]
    for n in names: typed(n)
    if not names: ex.cur = T + "addTrait<T>"; ex.fail("function under contract exists", "no addTrait<T>", "extract"); c.obls += ex.obls

    # ---- asking for a value -------------------------------------------------------------------------------------------------------
    def getvalue(name):
        ex = fresh(); want = re.search(r"getValue<(.*)>\(", demangle(name)).group(1); sret = want in ("Cp", "reflect::Value")
        def setup(ex, st):
            p = ptr(ex, st, "this", 8); np, n = namearg(ex, st, "trait"); had = has(ex, st, p, np)
            s1 = st.fork(); s1.assume(had); on = value(ex, s1, p, np); res = ex.new_region(st, ex.sizes["reflect::Value"], "alloca", None, "result").addr; pre = st.fork()
            def post(o):
                s = o.st; rd = [e for e in s.log if e[0] == "read"]
                if o.kind == "error": ex.oblige(s, z3.And(z3.Not(had), z3.BoolVal(not rd)), "the value of a trait that is there is not refused here"); heap_frame(ex, pre, o); return
                if not expect_ret(ex, o): return
                ex.oblige(s, had, "asking for the value of a missing trait is an error")
                if want == "void" and not rd: heap_frame(ex, pre, o); return
                ok = len(rd) == 1; ex.oblige(s, z3.BoolVal(ok), "one value is read")
                if not ok: return
                w = Val(ex, s, rd[0][1]); ex.oblige(s, w.same(on), "the value read is the one attached to the trait")
                tgt = stl.targs("x<" + rd[0][2] + ">")[0]
                ex.oblige(s, z3.BoolVal(tgt == want), "the value is read as the type asked for (%s)" % tgt)
                if rd[0][3] is not None: ex.oblige(s, o.val == rd[0][3], "the value read is returned")
                elif sret: ex.oblige(s, rd[0][4] == res, "the value read is returned")
                heap_frame(ex, pre, o)
            return ([res] if sret else []) + [p, np], post
        c.verify(ex, None, setup, label=demangle(name), mangled=name)
    ex = fresh(); names = ex.find(re.compile(r"reflect::Traits::getValue<.*>\(std::string const&\) const$"))
    for n in names: getvalue(n)
    if len(names) < 5: ex.cur = T + "getValue<T>"; ex.fail("function under contract exists", "%d instances of getValue<T>" % len(names), "extract"); c.obls += ex.obls

    # ---- is: an exact, read-only query -----------------------------------------------------------------------------------------------
    def is_(ex, st):
        p = ptr(ex, st, "this", 8); np, n = namearg(ex, st, "trait"); pre = st.fork()
        g = Observed(ex, st, GETV_DEM, [ex.new_region(st, 64, "alloca").addr, p, np])
        def post(o):
            if not expect_ret(ex, o): return
            ex.oblige(o.st, z3.If(o.val, bv(1, 8), bv(0, 8)) == z3.If(g.ok(), bv(1, 8), bv(0, 8)) if z3.is_bool(o.val) else (o.val != 0) == g.ok(), "an entity has a trait exactly when the trait's value can be asked for")
            heap_frame(ex, pre, o)
        return [p, np], post
    ex = fresh(); GETV_DEM = demangle(ex.find(GETV)[0]); c.verify(ex, IS, is_)

    # ---- the list of traits ----------------------------------------------------------------------------------------------------------
    def listing(ex, st):
        p = ptr(ex, st, "this", 8); res = ex.new_region(st, 24, "alloca", None, "result").addr; pre = st.fork()
        yp, y = namearg(ex, st, "any"); had = has(ex, st, p, yp)
        # the table, found through the query itself
        tables = []
        def on_map(ex, s, m, cx, op): tables.append(m)
        q = st.fork(); ex.on_map = on_map; observe(ex, q, IS, p, yp); ex.on_map = None
        m_ = tables[0]; H_ = simp(ex.map_has(st, m_))
        def push(ex, s, vec, src, t, n):
            s2 = s.fork()
            ex.oblige(s, z3.And(vec == res, ex.gget(s, src, "str") == ex.map_nth(H_, n)), "the i-th name listed is the i-th trait of the table")
        ex.on_push = push
        def post(o):
            if not expect_ret(ex, o): return
            s = o.st; n = ex.vec_size(s, res)
            ex.oblige(s, n == z3.Function("map_card", H_.sort(), B64)(H_), "every trait is listed once"); heap_frame(ex, pre, o)
        return [res, p], post
    ex = fresh(); c.verify(ex, T + "traits() const", listing)

    c.assumptions += COMMON_ASSUMPTIONS + ["the typed reading and wrapping of values is C07's and C08's contract", "iterating over a hash table visits each of its keys once"]
    c.finish(witness=lambda c: std_witness(c, "c19.cpp"))


if __name__ == "__main__": main(run, "C19")
