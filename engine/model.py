"""Specification vocabulary shared by the property checks (written from the property statements, not from the code)."""
import z3
from symex import *
import stl

COPY, LVAL, RVAL = 0, 1, 2
NONE, PARTIAL, EXACT = 0, 1, 2
CONV = z3.Function("hasConverter", B64, B64, z3.BoolSort())      # user-defined conversion from a to b
PARENT = z3.Function("isParentOf", B64, B64, z3.BoolSort())      # a is the same type as, or an ancestor of, b
tid = z3.Function("typeid", B64, B64)


class Arg:
    """An argument description: type, reference kind, constness."""
    def __init__(s, ty, ref, const): s.ty, s.ref, s.const = ty, ref, const
    def eq(s, o): return z3.And(s.ty == o.ty, s.ref == o.ref, s.const == o.const)


def arg_at(ex, st, p, inv=True):
    """the Argument stored at p (fields read from memory), with its type invariant assumed"""
    ty = ex.load_bytes(st, p, 8)
    ref = ex.load_bytes(st, simp(p + bv(8)), 4)
    c = ex.load_bytes(st, simp(p + bv(12)), 1)
    if inv: st.assume(z3.And(z3.ULE(ref, 2), z3.ULE(c, 1), ty != 0))
    return Arg(ty, ref, c != 0)


def arg_inv(a): return z3.And(z3.ULE(a.ref, 2), a.ty != 0)


def arg_of_coerced(v):
    """Argument passed in registers as {ptr, i64}"""
    return Arg(v[0], simp(z3.Extract(31, 0, v[1])), simp(z3.Extract(39, 32, v[1]) != 0))


def m(n): return z3.BitVecVal(n, 32)


def spec_convertible(ex, a, b):
    """C01: match of the offered argument a with the expected parameter b, as a 32-bit Match"""
    V = ex.type_const("reflect::Value")
    conv = CONV(a.ty, b.ty)
    sub = PARENT(b.ty, a.ty)
    dyn = z3.Xor(a.ty == V, b.ty == V)
    byref = b.ref != COPY
    bad_const = z3.And(byref, a.const, z3.Not(b.const))
    bad_lval = z3.And(b.ref == LVAL, z3.Not(b.const), a.ref != LVAL)
    bad_rval = z3.And(b.ref == RVAL, a.ref != RVAL)
    same = z3.And(a.ref == b.ref, a.const == b.const)
    moved = z3.And(a.ref == RVAL, b.ref == COPY)
    return z3.If(z3.Or(a.eq(b), dyn), m(EXACT),
           z3.If(conv, z3.If(b.ref == LVAL, m(NONE), m(PARTIAL)),
           z3.If(z3.Or(bad_const, bad_lval, bad_rval, z3.Not(sub)), m(NONE),
           z3.If(z3.Or(same, moved), m(EXACT), m(PARTIAL)))))


def spec_combine(x, y): return z3.If(z3.ULT(x, y), x, y)


def spec_return(ex, want, have):
    """C03: the return part; want = requested return, have = the function's return"""
    V, VOID = ex.type_const("reflect::Value"), ex.type_const("void")
    discard = want.ty == VOID
    isvoid = have.ty == VOID
    fresh_value = z3.And(want.ty == V, want.ref != LVAL)
    converts = spec_convertible(ex, have, want) != m(NONE)
    dangling = z3.And(have.ref != LVAL, want.const, want.ref == LVAL)
    ok = z3.Or(discard, z3.If(isvoid, fresh_value, z3.And(converts, z3.Not(dangling))))
    return z3.If(ok, m(EXACT), m(NONE))


# -- contracts of the type queries, as predicates ---------------------------------------------------------------------
def type_predicates(ex):
    """isParentOf / isChildOf / hasConverter replaced by their (separately verified) contracts."""
    def tp(d): return d.split("<")[-1].split(">")[0]
    def parent(ex, st, a, c):
        st.assume(z3.Implies(a[0] == a[1], PARENT(a[0], a[1])))
        return stl.R(st, simp(PARENT(a[0], a[1])))
    def child(ex, st, a, c):
        st.assume(z3.Implies(a[0] == a[1], PARENT(a[0], a[1])))
        return stl.R(st, simp(PARENT(a[1], a[0])))
    ex.contract("reflect::Type::isParentOf(reflect::Type const*) const", parent)
    ex.contract("reflect::Type::isChildOf(reflect::Type const*) const", child)
    ex.contract("reflect::Type::hasConverter(reflect::Type const*) const", lambda ex, st, a, c: stl.R(st, simp(CONV(a[0], a[1]))))


# -- frames -----------------------------------------------------------------------------------------------------------------
def heap_frame(ex, pre, o, allowed=(), name="nothing else is modified"):
    """every location of the shared heap keeps its value (ghost state included), except listed ghost arrays / addresses"""
    st = o.st
    conj = []
    for s in set(pre.heap) | set(st.heap):
        a, b = ex.H(pre, s), ex.H(st, s)
        if a.eq(b): continue
        for (sz, addr) in [x for x in allowed if x[0] == s]: a = z3.Store(a, addr, z3.Select(b, addr))
        conj.append(a == b)
    for n in set(pre.g) | set(st.g):
        if n in allowed: continue
        a, b = pre.g.get(n), st.g.get(n)
        if a is None or b is None:
            x = a if b is None else b
            if z3.is_const(x): continue
            srt = x.sort()
            a = z3.Const(("G_" if z3.is_array(x) else "S_") + n, srt) if a is None else a
            b = z3.Const(("G_" if z3.is_array(x) else "S_") + n, srt) if b is None else b
        if a.eq(b): continue
        for (g, addr) in [x for x in allowed if isinstance(x, tuple) and x[0] == n]: a = z3.Store(a, addr, z3.Select(b, addr))
        conj.append(a == b)
    ex.oblige(st, z3.And(conj) if conj else z3.BoolVal(True), name, "frame")


def ptr(ex, st, name, size=None):
    """an arbitrary valid object pointer"""
    p = z3.Const(name, B64)
    st.assume(z3.And(z3.UGE(p, 4096), z3.ULT(p, 1 << 45)))
    if size and size % 8 == 0: st.assume(z3.Extract(2, 0, p) == 0)
    return p


def obj(ex, st, name, size):
    """an arbitrary object owned by the caller (not aliased by the shared heap), with fixed unknown contents"""
    def init(ex, st, r, off, what):
        n = "%s.%s@%d" % (name, what, off)
        return z3.Const(n, ex.gsort(what)) if isinstance(what, str) else z3.Const(n, BV(8 * what))
    r = ex.new_region(st, size, "alloca", None, name); w = st.wregion(r.rid); w.init = init
    for o in range(0, size, 8):
        n = min(8, size - o); w.cells[o] = (n, z3.Const("%s@%d" % (name, o), BV(8 * n)))
    return r.addr


def expect_ret(ex, o, what="returns normally"):
    """obligation: the outcome is a normal return"""
    if o.kind != "ret":
        ex.oblige(o.st, z3.BoolVal(False), what + " (it ends in %s%s)" % (o.kind, " " + str(o.info) if o.info else ""), "post")
        return False
    return True


# -- observers: the abstract state is read through the code's own primary accessors ------------------------------------
class Observed:
    """outcomes of running an accessor in a given state: [(condition, kind, value, state)]"""
    def __init__(s, ex, st, dem, args, mangled=None):
        pre = set(st.pcids)
        ex.mute += 1
        try:
            names = [mangled] if mangled else ex.find(dem)
            if not names: raise Unsupported("accessor %s not found" % dem)
            mod, nm = ex.find_def(names[0])
            outs = ex.run(mod.func(nm), st.fork(), args)
        finally: ex.mute -= 1
        s.outs = []
        for o in outs:
            extra = [c for c in o.st.pc if c.get_id() not in pre and c.get_id() not in ex.libfacts]
            for c in o.st.pc:
                if c.get_id() not in pre and c.get_id() in ex.libfacts: st.assume(c)
            s.outs.append((z3.And(extra) if extra else z3.BoolVal(True), o.kind, o.val, o.st))
    def cond(s, kind): return simp(z3.Or([c for c, k, v, t in s.outs if k == kind] + [z3.BoolVal(False)]))
    def ok(s): return s.cond("ret")
    def val(s):
        r = None
        for c, k, v, t in s.outs:
            if k != "ret": continue
            if isinstance(v, z3.BoolRef) or z3.is_bool(v): v = z3.If(v, bv(1, 8), bv(0, 8))
            r = v if r is None else z3.If(c, v, r)
        if r is None: raise Unsupported("accessor never returns")
        return simp(r)


def observe(ex, st, dem, *args):
    """value of an accessor that always returns"""
    return Observed(ex, st, dem, list(args)).val()


def traits_predicate(ex):
    """Traits::is as a predicate of (object, trait) -- C19 verifies it"""
    TR = z3.Function("hasTrait", B64, Str, z3.BoolSort())
    ex.contract("reflect::Traits::is(std::string const&) const", lambda ex, st, a, c: stl.R(st, simp(TR(a[0], ex.gget(st, a[1], "str")))))
    return TR


def chain_hint(ex, facts):
    """Loop hint for walks along pointer chains. facts(v) -> list of (label, term(v)): quantities that the walk preserves, i.e.
    candidates `term(current) == term(start)` (or a predicate of the current element if the label starts with !), and unfolding axioms (label None) assumed at the current element."""
    def hint(ctx):
        out = []
        for l in ctx.locs:
            v0 = ctx.init(l)
            if not z3.is_bv(v0) or v0.size() != 64: continue
            try: F0 = [(n, t) for n, t in facts(v0) if n]
            except Exception: continue
            for n, t0 in F0:
                def cand(k, val, st, l=l, n=n, t0=t0):
                    v = val(l); g = []
                    t = None
                    for nn, tt in facts(v):
                        if nn is None: st.assume(tt)
                        elif nn == n: t = tt
                    return t if n.startswith("!") else t == t0
                out.append(("%s is preserved along %s" % (n, l[0]), cand))
        return out
    ex.loop_hints.append(hint)


# -- matching of argument lists -------------------------------------------------------------------------------------------
CM = z3.Function("match", B64, BV(32), z3.BoolSort(), B64, BV(32), z3.BoolSort(), BV(32))
def cm(a, b): return CM(a.ty, a.ref, a.const, b.ty, b.ref, b.const)


def conv_contract(ex, define=True):
    """isConvertibleTo by its contract (C01): the matrix, applied to the two descriptions"""
    def h(ex, st, a, c):
        x, y = arg_at(ex, st, a[0]), arg_at(ex, st, a[1])
        r = cm(x, y)
        st.assume(z3.ULE(r, 2))
        if define: st.assume(r == spec_convertible(ex, x, y))
        return stl.R(st, r)
    ex.contract("reflect::Argument::isConvertibleTo(reflect::Argument const&) const", h)


def fold_spec(ex, st0, va, vb, name="fold"):
    """FOLD(k): weakest match among the first k pairs of the two argument arrays (in state st0), with its recursive definition"""
    F = z3.Function(name, B64, BV(32))
    def at(k):
        s = st0.fork()
        a, b = arg_at(ex, s, simp(va + bv(16) * k)), arg_at(ex, s, simp(vb + bv(16) * k))
        return cm(a, b)
    def defs(k):
        s = st0.fork()
        a, b = arg_at(ex, s, simp(va + bv(16) * k), False), arg_at(ex, s, simp(vb + bv(16) * k), False)
        inv = z3.And(z3.ULE(a.ref, 2), z3.ULE(b.ref, 2), a.ty != 0, b.ty != 0)
        return z3.And(F(bv(0)) == m(EXACT), F(k + 1) == spec_combine(F(k), at(k)), z3.ULE(at(k), 2))
    i, j = z3.BitVecs("fi fj", 64)
    # lemma: the fold is antitone (by induction on j: base i=j trivial, step from the definition)
    lemma = z3.ForAll([i, j], z3.Implies(z3.ULE(i, j), z3.ULE(F(j), F(i))), patterns=[z3.MultiPattern(F(i), F(j))])
    x, y, c = z3.BitVecs("x y c", 32)
    mu, ex.mute = ex.mute, 0
    ex.oblige(State(), z3.Implies(z3.And(z3.ULE(y, x), z3.ULE(c, 2)), z3.ULE(spec_combine(y, c), x)), "lemma: the weakest match of a longer prefix is not stronger (induction step)", "lemma")
    ex.mute = mu
    ex.axioms.append(lemma)
    return F, defs


def fold_hint(ex, F, defs, n):
    """loop hint: the running match equals FOLD of the elements seen so far, from the first or from the last one"""
    G = z3.Function("%s_last" % F.name(), B64, BV(32))       # weakest match among the last k pairs
    ex.axioms.append(G(bv(0)) == m(EXACT))
    x, y, z = z3.BitVecs("x y z", 32); ok = z3.And([z3.ULE(v, 2) for v in (x, y, z)]); mu, ex.mute = ex.mute, 0
    ex.oblige(State(), z3.Implies(ok, spec_combine(x, spec_combine(y, z)) == spec_combine(spec_combine(x, z), y)), "lemma: the weakest match doesn't depend on the order (induction step)", "lemma")
    ex.mute = mu
    def last(k):
        """G of k+1 elements by that of k, and the lemma combine(F(n-k), G(k)) == F(n)"""
        i = n - k - 1; T = defs(i).arg(2).arg(0)             # the match of pair i
        return z3.And(G(bv(0)) == m(EXACT), z3.Implies(z3.ULT(k, n), z3.And(defs(i), G(k + 1) == spec_combine(G(k), T))), z3.Implies(z3.ULE(k, n), z3.And(z3.ULE(F(n - k), 2), z3.ULE(G(k), 2), spec_combine(F(n - k), G(k)) == F(n))))
    def hint(ctx):
        out = []
        back = any(sgn(x) < 0 for x in ctx.lin.values())
        for d in (0, -1, 1): ctx.fact((lambda k, d=d: last(simp(k + d))) if back else lambda k, d=d: defs(k + d))
        for l in ctx.locs:
            v0 = ctx.init(l)
            for nm, H in ((("last", G),) if back else (("first", F),)):
                for d in (0, 1):
                    if z3.is_bv(v0) and v0.size() == 32:
                        out.append(("match of the %s (%d) in %s" % (nm, d, l), lambda k, val, st, l=l, d=d, H=H: val(l) == H(simp(k + d))))
                    if (z3.is_bv(v0) and v0.size() <= 32) or z3.is_bool(v0):
                        for t in (EXACT, PARTIAL):
                            def flag(k, val, st, l=l, d=d, H=H, t=t):
                                v = val(l); b = H(simp(k + d)) == m(t)
                                return v == b if z3.is_bool(v) else v == z3.If(b, bv(1, v.size()), bv(0, v.size()))
                            out.append(("match of the %s is %d (%d) in %s" % (nm, t, d, l), flag))
        for d in (0, 1):
            for nm, H in ((("last", G),) if back else (("first", F),)): out.append(("none of the %s failed (%d)" % (nm, d), lambda k, val, st, d=d, H=H: H(simp(k + d)) != m(NONE)))
        for d in (0, 1):
            out.append(("prefix within bounds (%d)" % d, lambda k, val, st, d=d: z3.And(z3.ULE(k + d, n), z3.ULT(n, bv(1 << 40)))))
        return out
    ex.loop_hints.append(hint)


FUNC = "reflect::Function::"
class Fn:
    """a Function read through its accessors"""
    def __init__(s, ex, st, p):
        s.p = p
        s.ret_addr = observe(ex, st, FUNC + "returnType() const", p)
        s.n = observe(ex, st, FUNC + "arguments() const", p)
        s.args = observe(ex, st, FUNC + "argument(unsigned long) const", p, bv(0))
        s.ret = arg_at(ex, st, s.ret_addr)


# -- scans over an array of candidates ----------------------------------------------------------------------------------
class Scan:
    """Prefix summaries of a sequence of 32-bit matches T(0..n): index of the first element satisfying a predicate, whether there
    are one / two such elements. Facts are ground instances of the recursive definition and of two lemmas proved by induction."""
    M1 = bv(2**64 - 1)
    def __init__(s, ex, T, n):
        s.ex, s.T, s.n = ex, T, n
        s.firsts, s.twos, s.elem = {}, {}, None
        s.tag = next(ex.fresh_n)

    def first(s, label, pred):
        """X(k): first index i<k with pred(T(i)), else -1"""
        ex = s.ex
        X = z3.Function("first_%s%d" % (label, s.tag), B64, B64)
        s.firsts[label] = (X, pred)
        mu, ex.mute = ex.mute, 0
        x, p, q = z3.BitVecs("x p q", 64); b = z3.Bool("b"); M1 = s.M1
        ex.oblige(State(), z3.Implies(z3.And(p != M1, q == p), z3.If(q != M1, q, z3.If(b, x, M1)) == p), "lemma: the first index found in a prefix is the first of every longer prefix (induction step)", "lemma")
        ex.oblige(State(), z3.Implies(z3.And(z3.ULT(x, 1 << 62), z3.Implies(q != M1, z3.ULT(q, x)), z3.If(q != M1, q, z3.If(b, x, M1)) != M1), z3.ULT(z3.If(q != M1, q, z3.If(b, x, M1)), x + 1)), "lemma: the first index lies in the prefix (induction step)", "lemma")
        ex.mute = mu
        return X

    def several(s, label):
        """W(k): at least two elements of the prefix satisfy the predicate of first(label)"""
        W = z3.Function("several_%s%d" % (label, s.tag), B64, z3.BoolSort())
        s.twos[label] = W
        mu, s.ex.mute = s.ex.mute, 0
        a, b = z3.Bools("a b")
        s.ex.oblige(State(), z3.Implies(a, z3.Or(a, b)), "lemma: two elements in a prefix are in every longer prefix (induction step)", "lemma")
        s.ex.mute = mu
        return W

    def base(s):
        return z3.And([X(bv(0)) == s.M1 for X, _ in s.firsts.values()] + [z3.Not(W(bv(0))) for W in s.twos.values()])

    def defs(s, k):
        """definitions of the summaries of k+1 elements, and the lemmas at k, k+1 and n"""
        M1, n = s.M1, s.n; r = [z3.ULE(s.T(k), 2)]
        for lab, (X, pred) in s.firsts.items():
            r.append(X(k + 1) == z3.If(X(k) != M1, X(k), z3.If(pred(s.T(k)), k, M1)))
            for j in (k, k + 1):
                r.append(z3.Implies(z3.And(z3.ULE(j, n), X(j) != M1), z3.And(X(n) == X(j), z3.ULT(X(j), j), pred(s.T(X(j))))))
            if lab in s.twos:
                W = s.twos[lab]
                r.append(W(k + 1) == z3.Or(W(k), z3.And(X(k) != M1, pred(s.T(k)))))
                for j in (k, k + 1): r += [z3.Implies(z3.And(z3.ULE(j, n), W(j)), W(n)), z3.Implies(W(j), X(j) != M1)]
        return z3.And(r)

    def hint(s, cands):
        """cands(k, value) -> [(label, Bool)] for a location's value after k elements"""
        n = s.n
        def h(ctx):
            out = []
            q = 4 if s.elem and any(abs(sgn(x)) == 4 * s.elem for x in ctx.lin.values()) else 1     # elements per iteration (std::find_if takes four)
            if q == 1:
                for d in (0, -1, 1): ctx.fact(lambda k, d=d: s.defs(k + d))
            else:
                for d in range(-q, q + 1): ctx.fact(lambda k, d=d: s.defs(simp(q * k + d)))
            ctx.fact(lambda k: s.base())
            for l, x in ctx.lin.items() if q > 1 else ():
                t0 = ctx.init(l)
                if sgn(x) == -1 and t0.size() == 64: out.append(("iterations left", lambda k, val, st, t0=t0: z3.And(z3.ULE(k, t0), z3.ULE(t0, bv(1 << 40)), z3.ULE(4 * t0, n), z3.ULT(n, bv(1 << 40)), z3.ULE(4 * k, n))))
            for d in (0, 1):
                out.append(("prefix within bounds (%d)" % d, lambda k, val, st, d=d: z3.And(z3.ULE(q * k + d, n), z3.ULT(n, bv(1 << 40)))))
                for lab, (X, pred) in s.firsts.items():
                    out.append(("no %s element so far (%d)" % (lab, d), lambda k, val, st, d=d, X=X: X(simp(q * k + d)) == s.M1))
                for l in ctx.locs:
                    if l in ctx.lin or l in ctx.const: continue
                    v0 = ctx.init(l)
                    if not z3.is_bv(v0) and not z3.is_bool(v0): continue
                    for lab in [x[0] for x in cands(bv(0), v0)]:
                        def cand(k, val, st, l=l, lab=lab, d=d):
                            for nm, g in cands(simp(q * k + d), val(l)):
                                if nm == lab: return g
                        out.append(("%s (%d) in %s" % (lab, d, l[0]), cand))
            return out
        s.ex.loop_hints.append(h)


def read_sizes(ex, mods):
    for mo in mods:
        for nme in ("Function", "Overloads", "Field", "Value", "Argument"):
            g = mo.gvar("drv_sizeof_" + nme)
            if g and g["init"]: ex.sizes["reflect::" + nme] = g["init"][2]


def retval(ex, st, c, a):
    """an arbitrary result of the called function (written through the sret pointer if there is one)"""
    I = c["I"]
    if I is None or I.ty.kind == "void": return None
    return ex.undef(I.ty)


# -- dynamic values -----------------------------------------------------------------------------------------------------
VAL = "reflect::Value::"
class Val:
    """a dynamic value read through its accessors: object pointer, description, owner (0: owns nothing)"""
    def __init__(s, ex, st, p):
        s.p = p
        s.value = observe(ex, st, VAL + "value() const", p)
        s.arg = arg_at(ex, st, observe(ex, st, VAL + "argument() const", p), False)
        s.own, s.ptr = storage(ex, st, p)
    def same(s, o): return z3.And(s.value == o.value, s.arg.eq(o.arg), s.own == o.own, s.ptr == o.ptr)
    def shares(s, o): return z3.And(s.value == o.value, s.own == o.own, s.ptr == o.ptr)


def storage(ex, st, p):
    """owner and pointer of the value's storage, wherever the class keeps it: the ghost cell isStored() looks at"""
    if getattr(ex, "storage_off", None) is None:
        s = State(); q = obj(ex, s, "probe", ex.sizes["reflect::Value"]); names = ex.find(VAL + "isStored() const"); mod, nm = ex.find_def(names[0])
        ex.mute += 1; outs = ex.run(mod.func(nm), s, [q]); ex.mute -= 1
        rid = ex.locate(s, q)[1]
        offs = [k[0] for o in outs for k in o.st.regions[rid].ghost if k[1] == "sp.ptr"]
        if not offs: raise Unsupported("the value's storage was not found")
        ex.storage_off = offs[0]
    q = simp(p + bv(ex.storage_off))
    return ex.gget(st, q, "sp.own"), ex.gget(st, q, "sp.ptr")


def value_obj(ex, st, name):
    """an arbitrary value object of the caller"""
    p = obj(ex, st, name, ex.sizes["reflect::Value"])
    v = Val(ex, st, p)
    st.assume(z3.And(z3.ULE(v.arg.ref, 2), z3.ULE(z3.If(v.arg.const, bv(1, 8), bv(0, 8)), 1), v.arg.ty != 0, (v.own == 0) == (v.ptr == 0)))
    c = simp(observe(ex, st, VAL + "argument() const", p) + bv(12)); st.assume(z3.ULE(ex.load_bytes(st, c, 1), 1))
    for x in (v.value, v.arg.ty): st.assume(z3.ULT(x, 1 << 45))
    return p, v
