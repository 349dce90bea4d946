import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

T = "reflect::Type::"
CHILDOF = T + "isChildOf(reflect::Type const*) const"
PARENTOF = T + "isParentOf(reflect::Type const*) const"
CHILD = z3.Function("child", B64, B64, z3.BoolSort())
RANK = z3.Function("rank", B64, B64)


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp"])
    ex = c.executor(mods)
    TR = traits_predicate(ex)
    isptr = lambda x: TR(x, ex.lit("pointer"))

    def parts(ex, st, x):
        """(parent, is a pointer, pointer kind, pointee) of type x, read through the accessors"""
        par = observe(ex, st, T + "parent() const", x)
        s2 = st.fork(); s2.assume(isptr(x))
        pte = observe(ex, s2, T + "pointee() const", x)
        buf = ex.new_region(s2, 32, "alloca", None, "kind")
        kind = None
        ex.mute += 1
        o = [o for o in ex.call(s2, ex.find(T + "pointer() const")[0], [buf.addr, x]) if o.kind == "ret"][0]
        ex.mute -= 1
        return par, isptr(x), ex.gget(o.st, buf.addr, "str"), pte

    def unfold(ex, st, x, o):
        """the defining equation of the relation at (x, o)"""
        px, ix, kx, tx = parts(ex, st, x); po, io, ko, to = parts(ex, st, o)
        return z3.If(x == o, z3.BoolVal(True),
               z3.If(z3.And(ix, io), z3.And(kx == ko, CHILD(tx, to)),
                     z3.And(px != 0, CHILD(px, o)))), (px, tx)

    def inv(ex, st, x):
        """type invariant: pointers have a pointee; the hierarchy is acyclic (a rank decreases towards parents and pointees)"""
        p, i, k, t = parts(ex, st, x)
        st.assume(z3.Implies(i, t != 0)); st.assume(z3.Implies(p != 0, z3.ULT(RANK(p), RANK(x)))); st.assume(z3.Implies(i, z3.ULT(RANK(t), RANK(x))))

    def child_contract(ex, st, a, cx):
        ex.oblige(st, z3.And(a[0] != 0, a[1] != 0), "recursive query is made on existing types", "pre")
        if ex.measure is not None: ex.oblige(st, z3.ULT(RANK(a[0]), ex.measure), "recursive query is made closer to the root (termination)", "pre")
        return stl.R(st, simp(CHILD(a[0], a[1])))
    ex.measure = None

    def childof(ex, st):
        t, o = ptr(ex, st, "this"), ptr(ex, st, "other")
        inv(ex, st, t); inv(ex, st, o)
        ex.measure = RANK(t)
        spec, _ = unfold(ex, st, t, o)
        pre = st.fork()
        st.assume(CHILD(t, o) == spec)        # the relation is the least solution of this equation
        ex.loop_hints.clear()
        def facts(v):
            s, _ = unfold(ex, pre.fork(), v, o)
            p, i, k, q = parts(ex, pre.fork(), v)
            rank = z3.And(z3.Implies(p != 0, z3.ULT(RANK(p), RANK(v))), z3.Implies(i, z3.ULT(RANK(q), RANK(v))))
            return [(None, z3.Implies(v != 0, z3.And(CHILD(v, o) == s, z3.Implies(i, q != 0), rank))), ("!closer to the root", z3.Implies(v != 0, z3.ULE(RANK(v), RANK(t)))), ("child of the target", z3.And(v != 0, CHILD(v, o)))]
        chain_hint(ex, facts)
        def post(out):
            if not expect_ret(ex, out): return
            ex.oblige(out.st, tobool(out.val) == spec, "isChildOf follows the definition of the subtype relation")
            heap_frame(ex, pre, out)
        return [t, o], post
    ex.contract(CHILDOF, child_contract)
    c.verify(ex, CHILDOF, childof)
    ex.measure = None

    def parentof(ex, st):
        t, o = ptr(ex, st, "this"), ptr(ex, st, "other")
        pre = st.fork()
        def post(out):
            if not expect_ret(ex, out): return
            ex.oblige(out.st, tobool(out.val) == CHILD(o, t), "isParentOf is the converse of isChildOf"); heap_frame(ex, pre, out)
        return [t, o], post
    c.verify(ex, PARENTOF, parentof)

    def tmpl(flip):
        def setup(ex, st):
            t = ptr(ex, st, "this"); D = ex.type_const("DrvObj")
            def post(out):
                if not expect_ret(ex, out): return
                ex.oblige(out.st, tobool(out.val) == (CHILD(D, t) if flip else CHILD(t, D)), "the static form answers as the dynamic one")
            return [t], post
        return setup
    c.verify(ex, "bool " + T + "isChildOf<DrvObj>() const", tmpl(False))
    c.verify(ex, "bool " + T + "isParentOf<DrvObj>() const", tmpl(True))

    # the declared facts the relation is defined from
    def set_parent(ex, st):
        t, p, x = ptr(ex, st, "this"), z3.Const("newparent", B64), ptr(ex, st, "x")
        before = observe(ex, st, T + "parent() const", x)
        def post(out):
            if not expect_ret(ex, out): return
            now = observe(ex, out.st, T + "parent() const", x)
            ex.oblige(out.st, now == z3.If(x == t, p, before), "declaring a parent sets that parent and no other")
        return [t, p], post
    c.verify(ex, T + "parent(reflect::Type const*)", set_parent)

    def set_pointer(ex, st):
        t, p, k = ptr(ex, st, "this"), ptr(ex, st, "newpointee"), ptr(ex, st, "kind")
        kind = z3.Const("kindname", Str); r = ex.new_region(st, 32, "alloca", None, "kind"); ex.gset(st, r.addr, "str", kind)
        added = []
        def add_trait(ex, s, a, cx):
            s.log = s.log + (("trait", a[0], ex.gget(s, a[1], "str")),); return stl.R(s)
        ex.contract("reflect::Traits::addTrait(std::string const&, reflect::Value)", add_trait)
        was = isptr(t)
        def post(out):
            if out.kind == "error":
                ex.oblige(out.st, was, "declaring a pointer fails only if it already is one"); return
            if not expect_ret(ex, out): return
            ex.oblige(out.st, z3.Not(was), "a pointer cannot be declared twice")
            ex.oblige(out.st, z3.BoolVal(len(out.st.log) == 1) if not out.st.log else z3.And(z3.BoolVal(len(out.st.log) == 1), out.st.log[0][1] == t, out.st.log[0][2] == ex.lit("pointer")), "the type is marked as a pointer")
            p2, i2, k2, t2 = parts(ex, out.st, t)
            # the accessors are read under the assumption that the mark is now present
            ex.oblige(out.st, z3.And(k2 == kind, t2 == p), "pointer kind and pointee are the declared ones")
        return [t, r.addr, p], post
    c.verify(ex, T + "setPointer(std::string, reflect::Type const*)", set_pointer)

    c.absorb(ex)
    c.assumptions += COMMON_ASSUMPTIONS + [
        "the parent/pointee graph is acyclic (needed for termination only); a type marked as a pointer has a pointee",
        "Traits::is is a predicate of the object and the trait name (C19 verifies it); parts of a type are read through its public accessors parent(), pointer(), pointee()"]
    c.finish(witness=lambda c: std_witness(c, "c02.cpp"))


if __name__ == "__main__": main(run, "C02")
