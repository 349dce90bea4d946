#!/usr/bin/env python3-vt
"""C11: scopes form a tree addressed by qualified names: registrations, existence queries and lookups, one component at a time.

Recursive operations are verified with their own contract at the recursive call (on a shorter name, or on the parent scope), so what is
proved is the recursive equation of the property; names are split by the contract of head and tail (C10)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from regcommon import *

S = "reflect::Scope::"
N = "std::string const&"
MAPS = {"reflect::Scope*": "scopes", "reflect::Type const*": "types", "reflect::Type*": "types", "reflect::Overloads": "functions"}
HS, SCC, SC, HT, TY, AT = S + "hasScope(%s) const" % N, S + "scope(%s) const" % N, S + "scope(%s)" % N, S + "hasType(%s)" % N, S + "type(%s)" % N, S + "addType(%s)" % N
HF, FN, FNC, AF, ID = S + "hasFunction(%s) const" % N, S + "function(%s)" % N, S + "function(%s) const" % N, S + "addFunction(%s, reflect::Function&&)" % N, S + "id() const"
F1, F2 = {}, {}
for k in ("head", "tail"):
    F1[k], F2[k] = z3.Function(k + "_first", Str, Str), z3.Function(k + "_rest", Str, Str)
OKS = {k: z3.Function(k + "_ok", Str, z3.BoolSort()) for k in ("head", "tail")}
REC = {"hasScope": z3.Function("HasScope", B64, Str, z3.BoolSort()), "scope": z3.Function("ScopeAt", B64, Str, B64), "hasType": z3.Function("HasType", B64, Str, z3.BoolSort()), "type": z3.Function("TypeAt", B64, Str, B64),
       "hasFunction": z3.Function("HasFunction", B64, Str, z3.BoolSort()), "function": z3.Function("FunctionAt", B64, Str, B64)}
IDOF = z3.Function("IdOf", B64, Str)
stl.Executor.ghost_sorts["fnid"] = B64
TYPEOF = z3.Function("RegisteredType", Str, B64)


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp", VERIF + "/drivers/value.cpp", VERIF + "/drivers/scope.cpp"])

    def fresh(own=None):
        ex = c.executor(mods); read_sizes(ex, mods)
        E = ex.lit("")
        def nonempty(st, s): st.assume((slen(s) == 0) == (s == E)); st.assume(z3.ULT(slen(s), bv(1 << 40)))
        ex.nonempty = nonempty
        def split(k):
            def h(ex, st, a, cx):
                n = ex.gget(st, a[1], "str"); nonempty(st, n); outs = []; a1, a2 = F1[k](n), F2[k](n)
                sep = ex.lit("::"); whole = stl.mk_cat(ex, st, a1, stl.mk_cat(ex, st, sep, a2)) if k == "head" else stl.mk_cat(ex, st, a2, stl.mk_cat(ex, st, sep, a1))
                st.assume(z3.Implies(OKS[k](n), z3.And(z3.Or(z3.And(a1 == n, a2 == E), z3.And(n == whole, slen(n) == slen(a1) + slen(a2) + 2)), OKS[k](a1), F1[k](a1) == a1, F2[k](a1) == E)))
                nonempty(st, a1); nonempty(st, a2)
                if ex.feasible(st, z3.Not(OKS[k](n))): s2 = st.fork(); s2.assume(z3.Not(OKS[k](n))); outs += stl.ERR(s2, "malformed")
                if ex.feasible(st, OKS[k](n)):
                    st.assume(OKS[k](n)); ex.gset(st, a[0], "str", a1); ex.gset(st, simp(a[0] + bv(32)), "str", a2); outs += stl.R(st)
                return outs
            ex.contract(S + k + "(%s)" % N, h)
        split("head"); split("tail")
        def event(st, *e): st.log = st.log + (e,)
        def simple(ex, st, k, n):
            """the name is a single component"""
            return ex.valid(st, z3.And(OKS[k](n), F2[k](n) == E, F1[k](n) == n), 3000)
        def query(meth, boolean, const=True):
            def h(ex, st, a, cx):
                t, n = a[0], ex.gget(st, a[1], "str"); v = REC[meth](t, n); event(st, meth, t, n, st.fork()); outs = []
                fails = z3.Function(meth + "_fails", B64, Str, z3.BoolSort())(t, n)
                if meth == "scope" and const: st.assume(z3.Implies(REC["hasScope"](t, n), z3.Not(fails)))
                if not (meth == "scope" and not const):
                    if ex.feasible(st, fails): s2 = st.fork(); s2.assume(fails); outs += stl.ERR(s2, meth)
                    if not ex.feasible(st, z3.Not(fails)): return outs
                    st.assume(z3.Not(fails))
                else: outs += stl.ERR(st.fork(), meth)
                if not boolean: st.assume(z3.And(z3.UGE(v, 4096), z3.ULT(v, 1 << 45)))
                return outs + stl.R(st, v)
            return h
        ex.contract(HS, query("hasScope", True)); ex.contract(SCC, query("scope", False))
        sc = query("scope", False, False)
        def scope_nc(ex, st, a, cx):
            if own != SC and simple(ex, st, "head", ex.gget(st, a[1], "str")): return None
            return sc(ex, st, a, cx)
        ex.contract(SC, scope_nc)
        ex.contract(HT, query("hasType", True)); ex.contract(TY, query("type", False)); ex.contract(HF, query("hasFunction", True)); ex.contract(FN, query("function", False))
        if own != FNC: ex.contract(FNC, query("function", False))
        def addt(ex, st, a, cx): event(st, "addType", a[0], ex.gget(st, a[1], "str"), st.fork()); return stl.R(st.fork()) + stl.ERR(st, "addType")
        ex.contract(AT, addt)
        def addf(ex, st, a, cx): event(st, "addFunction", a[0], ex.gget(st, a[1], "str"), st.fork(), ex.gget(st, a[2], "fnid")); return stl.R(st.fork()) + stl.ERR(st, "addFunction")
        ex.contract(AF, addf)
        def ident(ex, st, a, cx):
            event(st, "id", a[1]); ex.gset(st, a[0], "str", IDOF(a[1])); return stl.R(st)
        ex.contract(ID, ident)
        def oadd(ex, st, a, cx): event(st, "add", a[0], ex.gget(st, a[1], "fnid"), st.fork()); return stl.R(st.fork()) + stl.ERR(st, "add")
        ex.contract("re:^(void )?reflect::Overloads::add\\(", oadd)
        def load(ex, st, a, cx):
            n = ex.gget(st, a[0], "str"); event(st, "load", n); t = TYPEOF(n); st.assume(z3.And(t != 0, z3.ULT(t, 1 << 45))); return stl.R(st.fork(), t) + stl.ERR(st, "load")
        ex.contract("reflect::type(%s)" % N, load)
        ex.contract("reflect::Function::Function(reflect::Function&&)", lambda ex, s, a, cx: (ex.gset(s, a[0], "fnid", ex.gget(s, a[1], "fnid")), stl.R(s))[1])
        ex.contract("reflect::Function::~Function()", lambda ex, s, a, cx: stl.R(s))
        ex.contract("reflect::Registry::get(%s)" % N, load)
        def touch(ex, st, m, cx, op):
            mm = re.search(r"std::unordered_map<.*", stl.split_name(cx["dem"])[0] or "")
            k = MAPS.get(stl.targs(mm.group(0))[1]) if mm else None
            if k: event(st, "map", op, k, m)
        ex.on_map = touch
        return ex

    # ---- where a scope keeps its tables: read off the queries at one-component names -------------------------------------
    def offsets(ex):
        off = {}
        for dem, k, sp in ((HS, "scopes", "head"), (HT, "types", "head"), (HF, "functions", "tail")):
            st = State(); p = z3.BitVec("probe_scope", 64); r, n = namearg(ex, st, "probe"); st.assume(z3.And(OKS[sp](n), F1[sp](n) == n, F2[sp](n) == ex.lit("")))
            st.assume(z3.And(z3.UGE(p, 4096), z3.ULT(p, 1 << 45)))
            names = ex.find(dem)
            if not names: raise Unsupported("no " + dem)
            mod, nm = ex.find_def(names[0]); ex.mute += 1
            try: outs = ex.run(mod.func(nm), st, [p, r])
            finally: ex.mute -= 1
            ms = [e[3] for o in outs for e in o.st.log if e[0] == "map" and e[2] == k]
            d = simp(ms[0] - p) if ms else None
            if d is None or not isnum(d): raise Unsupported("the table of %s was not found" % k)
            off[k] = num(d)
        return off

    class Scope_:
        """the tables of a scope in one state"""
        def __init__(s, ex, st, p): s.ex, s.st, s.p = ex, st, p
        def m(s, k): return simp(s.p + bv(s.ex.off[k]))
        def has(s, k, n): return simp(z3.Select(s.ex.gget(s.st, s.m(k), "map.has"), n))
        def node(s, k, n): return s.ex.map_pick(s.st, simp(s.ex.gget(s.st, s.m(k), "map.node")), n)
        def at(s, k, n): return simp(s.node(k, n) + bv(VOFF))
        def val(s, k, n): return s.ex.load_bytes(s.st, s.at(k, n), 8)

    GH = ("map.has", "map.node", "map.size")
    def untouched(ex, pre, o, but=(), name="nothing is modified"):
        """no table of any scope changes, except the given (table address, key)"""
        heap_frame(ex, pre, o, GH, name + " (entries in place)")
        st = o.st; a_ = z3.Const("table", B64); y = z3.Const("any", Str)
        for g in ("map.has", "map.node"):
            x, z = pre.g.get(g), st.g.get(g)
            if z is None: continue
            if x is None: x = z3.Const("G_" + g, z.sort())
            if x.eq(z): continue
            ok = z3.Or([z3.And(a_ == m, y == k) for m, k in but] + [z3.BoolVal(False)])
            ex.oblige(st, z3.Or(ok, z3.Select(z3.Select(x, a_), y) == z3.Select(z3.Select(z, a_), y)), name + " (%s)" % g[4:], "frame")

    def ev(o, *kinds): return [e for e in o.st.log if e[0] in kinds]

    def verify(dem, kind, spec, own=None, fn=False, sret=False):
        ex = fresh(own or dem)
        def setup(ex, st):
            ex.off = offsets(ex)
            p = ptr(ex, st, "this", 8); r, n = namearg(ex, st, "name"); st.log = ()
            first, rest = F1[kind](n), F2[kind](n); s = Scope_(ex, st, p)
            # a registered sub-scope is a scope, whose parent is this one (established when it is made)
            st.assume(z3.Implies(s.has("scopes", first), z3.And(z3.UGE(s.val("scopes", first), 4096), z3.ULT(s.val("scopes", first), 1 << 45))))
            st.assume(z3.Implies(s.has("types", first), z3.ULT(s.val("types", first), 1 << 45)))
            args = [p, r]
            if fn: args.append(ptr(ex, st, "function", 8))
            ex.fnarg = ex.gget(st, args[-1], "fnid") if fn else None
            pre = st.fork()
            def post(o):
                if o.kind == "exc": ex.oblige(o.st, z3.BoolVal(False), "no exception other than an error (%s)" % o.info); return
                o.st.log = tuple(e for e in o.st.log if e[0] not in ("map",))
                if o.kind == "error" and o.info == "malformed" and not ev(o, *[k for k in list(REC) + ["addType", "addFunction", "add", "load"]]):
                    ex.oblige(o.st, z3.Not(OKS[kind](n)), "only a malformed name is refused as malformed"); untouched(ex, pre, o); return
                ex.oblige(o.st, OKS[kind](n), "a malformed name is reported as an error")
                spec(ex, pre, o, p, n, first, rest)
            return args, post
        c.verify(ex, dem, setup)

    def rec_event(ex, o, meth, target, name, what):
        """exactly one recursive step: the operation itself, on the scope the path leads to, for the rest of the name"""
        e = ev(o, meth); ok = len(e) == 1
        ex.oblige(o.st, z3.And(e[0][1] == target, e[0][2] == name) if ok else z3.BoolVal(False), what)
        return e[0] if ok else None

    # ---- existence and lookup of scopes ------------------------------------------------------------------------------------
    def has_scope(ex, pre, o, p, n, h, r):
        E = ex.lit(""); P = Scope_(ex, pre, p); st = o.st; child = P.val("scopes", h)
        untouched(ex, pre, o)
        if o.kind == "error":
            ex.oblige(st, z3.And(r != E, P.has("scopes", h)), "a query fails only inside a sub-scope"); rec_event(ex, o, "hasScope", child, r, "the rest of the path is asked of the sub-scope"); return
        if not expect_ret(ex, o): return
        v = tobool(o.val)
        ex.oblige(st, v == z3.And(P.has("scopes", h), z3.Or(r == E, REC["hasScope"](child, r))), "a scope exists iff its first component does and the rest exists there")
    verify(HS, "head", has_scope)

    def scope_const(ex, pre, o, p, n, h, r):
        E = ex.lit(""); P = Scope_(ex, pre, p); st = o.st; child = P.val("scopes", h); untouched(ex, pre, o)
        if o.kind == "error":
            ex.oblige(st, z3.Or(z3.Not(P.has("scopes", h)), z3.And(r != E, z3.Not(REC["hasScope"](child, r)))), "the lookup of a scope fails only if a component is missing"); return
        if not expect_ret(ex, o): return
        ex.oblige(st, z3.And(P.has("scopes", h), o.val == z3.If(r == E, child, REC["scope"](child, r))), "the scope found is the one the path leads to")
    verify(SCC, "head", scope_const)

    def ensured(ex, pre, st, p, h, s_=None):
        """-> (child, conditions): the sub-scope h of p in the later state, made if it was missing"""
        P, Q = Scope_(ex, pre, p), Scope_(ex, s_ or st, p); q = Q
        new = ex.feasible(st, z3.Not(P.has("scopes", h))); old = ex.feasible(st, P.has("scopes", h))
        child = q.val("scopes", h)
        ex.oblige(st, q.has("scopes", h), "the scope is there afterwards")
        if old: ex.oblige(st, z3.Implies(P.has("scopes", h), z3.And(q.node("scopes", h) == P.node("scopes", h), child == P.val("scopes", h))), "a scope that was there is kept")
        if new and not old:
            y = z3.Const("any", Str); w = s_ or st; K = Scope_(ex, w, child)
            ex.oblige(w, z3.Not(z3.Or([K.has(k, y) for k in ex.off])), "a new scope is empty")
            nm = observe(ex, w, S + "name() const", child)
            ex.oblige(w, z3.And(ex.gget(w, nm, "str") == h, observe(ex, w, S + "parent() const", child) == p), "a new scope carries its name and its parent")
            t = namearg(ex, w, "any_trait")[0]
            ex.oblige(w, observe(ex, w, "reflect::Traits::is(%s) const" % N, child, t) == 0, "a new scope has no trait")
        elif new and old: ex.oblige(st, z3.BoolVal(False), "whether the scope was there is decided")
        return child

    def scope_nc(ex, pre, o, p, n, h, r):
        E = ex.lit(""); P = Scope_(ex, pre, p); st = o.st
        untouched(ex, pre, o, [(P.m("scopes"), h)], "everything else is left as it was")
        child = ensured(ex, pre, st, p, h)
        e = ev(o, "scope")
        if e:
            ex.oblige(st, r != E, "the walk goes on only for a longer path"); rec_event(ex, o, "scope", child, r, "the walk goes on in the sub-scope with the rest of the path")
            ex.oblige(st, z3.And([Scope_(ex, e[0][3], p).has("scopes", h), Scope_(ex, e[0][3], p).node("scopes", h) == Scope_(ex, st, p).node("scopes", h)]), "the sub-scope is there before the walk goes on")
            if o.kind == "ret": ex.oblige(st, o.val == REC["scope"](child, r), "the scope at the end of the path is returned")
            return
        if not expect_ret(ex, o): return
        ex.oblige(st, z3.And(r == E, o.val == child), "the scope named is returned")
    verify(SC, "head", scope_nc)

    # ---- types ------------------------------------------------------------------------------------------------------------------
    def has_type(ex, pre, o, p, n, h, r):
        E = ex.lit(""); P = Scope_(ex, pre, p); st = o.st; child = P.val("scopes", h); untouched(ex, pre, o)
        e = ev(o, "hasType")
        if o.kind == "error":
            if e: rec_event(ex, o, "hasType", child, r, "the rest of the path is asked of the sub-scope"); ex.oblige(st, z3.And(r != E, P.has("scopes", h)), "a path is followed only through scopes that are there"); return
            ex.oblige(st, z3.And(r != E, P.has("types", h), z3.Not(P.has("scopes", h))), "a type query fails only for a name inside a type"); return
        if not expect_ret(ex, o): return
        ex.oblige(st, tobool(o.val) == z3.If(r == E, P.has("types", h), z3.And(P.has("scopes", h), REC["hasType"](child, r))), "a type exists iff its name was registered in the scope the path leads to")
        ex.oblige(st, z3.Not(z3.And(r != E, P.has("types", h), z3.Not(P.has("scopes", h)))), "a name inside a type is refused")
    verify(HT, "head", has_type)

    def type_(ex, pre, o, p, n, h, r):
        E = ex.lit(""); P = Scope_(ex, pre, p); st = o.st; child = P.val("scopes", h); Q = Scope_(ex, st, p)
        e, ld = ev(o, "type"), ev(o, "load")
        through = z3.And(r != E, P.has("scopes", h))
        y = z3.Const("any", Str)
        for g in ("map.has", "map.node"):
            a, b = pre.g.get(g), st.g.get(g)
            if b is not None and a is not None and not a.eq(b): ex.oblige(st, a == b, "a lookup registers nothing", "frame")
        slot = P.at("types", h)
        q = pre.fork(); full = stl.mk_cat(ex, q, IDOF(p), stl.mk_cat(ex, q, ex.lit("::"), h)); full = z3.If(IDOF(p) == E, h, full)
        st.assume((slen(IDOF(p)) == 0) == (IDOF(p) == E)); st.assume(slen(E) == 0)
        v0 = P.val("types", h)
        lazily = z3.And(P.has("types", h), v0 == 0)
        # entries: only an unloaded entry is filled in, with the type of that identifier
        if ld:
            ex.oblige(st, z3.And(lazily, z3.Not(through)), "only a type that is registered and not loaded yet is loaded"); ex.oblige(st, z3.BoolVal(len(ld) == 1) if len(ld) != 1 else ld[0][1] == full, "the type loaded has the scope's path and the type's name as its identifier")
        a, b = pre.heap.get(8), st.heap.get(8)
        if b is not None:
            a = a if a is not None else z3.Const("H64", b.sort())
            if not a.eq(b): ex.oblige(st, z3.And(lazily, b == z3.Store(a, slot, TYPEOF(full))), "only the entry of the type looked up is filled in", "frame")
        if o.kind == "error":
            if e: rec_event(ex, o, "type", child, r, "the rest of the path is asked of the sub-scope"); ex.oblige(st, through, "a path is followed only through scopes that are there"); return
            if ld and o.info == "load": return
            ex.oblige(st, z3.Or(z3.And(r == E, z3.Not(P.has("types", h))), z3.And(r != E, z3.Not(P.has("scopes", h)))), "a type lookup fails only for a name that is not registered"); return
        if not expect_ret(ex, o): return
        ex.oblige(st, z3.Or(through, z3.And(r == E, P.has("types", h))), "a type that is not registered is an error")
        ex.oblige(st, o.val == z3.If(through, REC["type"](child, r), z3.If(v0 == 0, TYPEOF(full), v0)), "the type returned is the one registered under the name")
    verify(TY, "head", type_)

    def add_type(ex, pre, o, p, n, h, r):
        E = ex.lit(""); P = Scope_(ex, pre, p); st = o.st; Q = Scope_(ex, st, p); e = ev(o, "addType")
        ex.oblige(st, z3.BoolVal(not ev(o, "scope", "addFunction", "add", "load")), "registering a type does nothing else")
        if e:
            ex.oblige(st, z3.And(r != E, z3.Not(P.has("types", h)), z3.Not(P.has("functions", h))), "a path is followed only through scopes, not through types or functions")
            untouched(ex, pre, o, [(P.m("scopes"), h)], "everything else is left as it was")
            child = ensured(ex, pre, st, p, h); rec_event(ex, o, "addType", child, r, "the rest of the name is registered in the sub-scope")
            return
        if o.kind == "error": ex.oblige(st, z3.And(r != E, z3.Or(P.has("types", h), P.has("functions", h))), "registering a type fails only for a name inside a type or a function"); untouched(ex, pre, o); return
        if not expect_ret(ex, o): return
        untouched(ex, pre, o, [(P.m("types"), h)], "everything else is left as it was")
        ex.oblige(st, z3.And(r == E, Q.has("types", h)), "the type is registered under its name")
        ex.oblige(st, z3.Implies(P.has("types", h), z3.And(Q.node("types", h) == P.node("types", h))), "a type that was registered is kept")
        s2 = st.fork(); s2.assume(z3.Not(P.has("types", h)))
        if ex.feasible(s2): ex.oblige(s2, Q.val("types", h) == 0, "a type just registered is not loaded yet")
    verify(AT, "head", add_type)

    # ---- functions --------------------------------------------------------------------------------------------------------------
    def has_function(ex, pre, o, p, n, t, q):
        E = ex.lit(""); P = Scope_(ex, pre, p); st = o.st; untouched(ex, pre, o); where = REC["scope"](p, q)
        if o.kind == "error":
            e = ev(o, "hasFunction", "hasScope", "scope"); ex.oblige(st, z3.BoolVal(bool(e)), "a query fails only inside the scope of the path")
            for x in e: ex.oblige(st, z3.And(x[1] == (where if x[0] == "hasFunction" else p), x[2] == (t if x[0] == "hasFunction" else q)), "the path is followed")
            ex.oblige(st, q != E, "a query of a plain name does not fail")
            if e: ex.oblige(st, z3.BoolVal(e[-1][0] != "scope"), "an absent scope is not an error of the query"); 
            return
        if not expect_ret(ex, o): return
        ex.oblige(st, tobool(o.val) == z3.If(q == E, P.has("functions", t), z3.And(REC["hasScope"](p, q), REC["hasFunction"](where, t))), "a function exists iff it was registered in the scope its path leads to")
    verify(HF, "tail", has_function)

    def function(ex, pre, o, p, n, t, q):
        E = ex.lit(""); P = Scope_(ex, pre, p); st = o.st; untouched(ex, pre, o)
        sc, e = ev(o, "scope"), ev(o, "function")
        for x in sc: ex.oblige(st, z3.And(q != E, x[1] == p, x[2] == q), "the path leads from this scope")
        if e: ex.oblige(st, z3.And(z3.BoolVal(len(e) == 1 and len(sc) == 1), e[0][1] == REC["scope"](p, q), e[0][2] == t), "the function is looked up in the scope its path leads to")
        if o.kind == "error":
            if e or (sc and o.info == "scope"): return
            ex.oblige(st, z3.And(q == E, z3.Not(P.has("functions", t))), "the lookup of a function fails only if it is not registered"); return
        if not expect_ret(ex, o): return
        ex.oblige(st, z3.If(q == E, z3.And(P.has("functions", t), o.val == P.at("functions", t)), z3.And(z3.BoolVal(len(e) == 1), o.val == REC["function"](REC["scope"](p, q), t))), "the functions returned are the ones registered under the name")
    verify(FN, "tail", function)

    def function_const(ex, st):
        p = ptr(ex, st, "this", 8); r, n = namearg(ex, st, "name"); pre = st.fork()
        def post(o):
            e = ev(o, "function"); ex.oblige(o.st, z3.And(e[0][1] == p, e[0][2] == n) if len(e) == 1 else z3.BoolVal(False), "the constant lookup is the lookup")
            if o.kind == "ret": ex.oblige(o.st, o.val == REC["function"](p, n), "what it finds is returned")
            ex.off = offs; untouched(ex, pre, o)
        return [p, r], post
    ex = fresh(FNC); offs = offsets(fresh()); c.verify(ex, FNC, function_const)

    def add_function(ex, pre, o, p, n, t, q):
        E = ex.lit(""); P = Scope_(ex, pre, p); st = o.st; Q = Scope_(ex, st, p)
        sc, e, ad = ev(o, "scope"), ev(o, "addFunction"), ev(o, "add")
        deep = ex.valid(st, q != E)
        if deep:
            if o.kind == "error" and o.info == "scope" and not e: ex.oblige(st, z3.BoolVal(len(sc) == 1), "the path is made once"); 
            for x in sc: ex.oblige(st, z3.And(x[1] == p, x[2] == q), "the scopes of the path are made from this scope")
            ex.oblige(st, z3.BoolVal(not ad), "a function with a path is not registered here")
            if sc: untouched(ex, pre, o)
            else:                                     # a path of one component may be made in place
                h = F1["head"](q)
                untouched(ex, pre, o, [(P.m("scopes"), h)], "everything else is left as it was")
            if e:
                where = REC["scope"](p, q) if sc else Q.val("scopes", q)
                ex.oblige(st, z3.And(z3.BoolVal(len(e) == 1), e[0][1] == where, e[0][2] == t, e[0][4] == ex.fnarg), "the function is registered in the scope its path leads to")
            elif o.kind == "ret": ex.oblige(st, z3.BoolVal(False), "the function is registered")
            return
        ex.oblige(st, z3.And(q == E, z3.BoolVal(not sc and not e)), "a function without path is registered here")
        ok = len(ad) == 1
        ex.oblige(st, z3.And(Q.has("functions", t), ad[0][1] == Q.at("functions", t), ad[0][2] == ex.fnarg) if ok else z3.BoolVal(False), "the function is added once, to the overloads of its name")
        untouched(ex, pre, o, [(P.m("functions"), t)], "everything else is left as it was")
        ex.oblige(st, z3.Implies(P.has("functions", t), Q.node("functions", t) == P.node("functions", t)), "overloads that were there are kept")
        if ok:
            s2 = ad[0][3].fork(); s2.assume(z3.Not(P.has("functions", t)))
            if ex.feasible(s2): ex.oblige(s2, observe(ex, s2, "reflect::Overloads::size() const", ad[0][1]) == 0, "a new name starts without overloads")
    verify(AF, "tail", add_function, fn=True)

    # ---- identifier, basics ------------------------------------------------------------------------------------------------------
    def id_(ex, st):
        p = ptr(ex, st, "this", 8); res = ex.new_region(st, 32, "alloca", None, "result").addr; pre = st.fork(); E = ex.lit("")
        par = observe(ex, st, S + "parent() const", p); nm = ex.gget(st, observe(ex, st, S + "name() const", p), "str"); ex.off = offs
        pid = IDOF(par); st.assume((slen(pid) == 0) == (pid == E)); st.assume(slen(E) == 0); st.assume(z3.ULT(slen(pid), bv(1 << 40)))
        def post(o):
            if not expect_ret(ex, o): return
            full = stl.mk_cat(ex, o.st, pid, stl.mk_cat(ex, o.st, ex.lit("::"), nm)); got = ex.gget(o.st, res, "str")
            ex.oblige(o.st, got == z3.If(par == 0, E, z3.If(pid == E, nm, full)), "the identifier of a scope is its parent's, a separator and its name; the root's is empty")
            ex.oblige(o.st, z3.And([e[1] == par for e in ev(o, "id")] + [z3.BoolVal(True)]), "identifiers are built from the parent's"); heap_frame(ex, pre, o)
        return [res, p], post
    ex = fresh(); c.verify(ex, ID, id_)

    def ctor(dem, named):
        ex = fresh(); ex.off = offs
        def setup(ex, st):
            r = ex.new_region(st, 512, "alloca", None, "scope"); args = [r.addr]; n = ex.lit(""); par = bv(0); y = z3.Const("any", Str)
            if named: q, n = namearg(ex, st, "name"); par = z3.BitVec("parent", 64); args += [q, par]
            pre = st.fork()
            def post(o):
                if not expect_ret(ex, o): return
                K = Scope_(ex, o.st, r.addr)
                ex.oblige(o.st, z3.Not(z3.Or([K.has(k, y) for k in ex.off])), "a new scope is empty")
                ex.oblige(o.st, z3.And(observe(ex, o.st, S + "parent() const", r.addr) == par, ex.gget(o.st, observe(ex, o.st, S + "name() const", r.addr), "str") == n), "a new scope has the name and parent given")
                g = observe(ex, o.st, S + "isGlobal() const", r.addr); ex.oblige(o.st, (g != 0) == (par == 0), "the root is the scope without parent"); heap_frame(ex, pre, o)
            return args, post
        c.verify(ex, dem, setup)
    ctor(S + "Scope()", False); ctor(S + "Scope(%s, reflect::Scope*)" % N, True)

    # ---- listings: each entry of the scope itself, once (without sub-scopes) -----------------------------------------------------
    def listing(dem, k, extra):
        ex = fresh(); ex.off = offs
        def setup(ex, st):
            p = ptr(ex, st, "this", 8); res = ex.new_region(st, 24, "alloca", None, "result").addr; pre = st.fork(); P = Scope_(ex, st, p); H_ = simp(ex.gget(st, P.m(k), "map.has"))
            def push(ex, s, vec, src, t, n): ex.oblige(s, z3.And(vec == res, ex.gget(s, src, "str") == ex.map_nth(H_, n)), "the i-th name listed is the i-th of the table")
            ex.on_push = push
            def post(o):
                if not expect_ret(ex, o): return
                ex.oblige(o.st, ex.vec_size(o.st, res) == z3.Function("map_card", H_.sort(), B64)(H_), "every entry is listed once"); untouched(ex, pre, o)
            return [res, p] + extra, post
        c.verify(ex, dem, setup)
    listing(S + "scopes() const", "scopes", []); listing(S + "types(bool) const", "types", [z3.BoolVal(False)]); listing(S + "functions(bool) const", "functions", [z3.BoolVal(False)])

    # ---- typed forms ------------------------------------------------------------------------------------------------------------------
    def typed_add(ex, st):
        p = ptr(ex, st, "this", 8); r, n = namearg(ex, st, "name"); g = ptr(ex, st, "callable", 8)
        def mk(ex, s, a, cx): i = ex.fresh(B64, "made"); ex.gset(s, a[0], "fnid", i); s.log = s.log + (("make", i, ex.gget(s, a[1], "str"), a[2]),); return stl.R(s)
        ex.contract("re:^reflect::Function::Function<", mk)
        pre = st.fork(); gv = ex.load_bytes(st, g, 8)
        def post(o):
            if o.kind == "error" and o.info == "malformed": ex.oblige(o.st, z3.Not(OKS["tail"](n)), "only a malformed name is refused"); return
            mk_, ad = ev(o, "make"), ev(o, "addFunction"); ok = len(mk_) == 1 and len(ad) == 1
            ex.oblige(o.st, z3.And(mk_[0][2] == F1["tail"](n), ad[0][1] == p, ad[0][2] == n, ad[0][4] == mk_[0][1]) if ok else z3.BoolVal(False), "the callable is wrapped under its own name and registered under the full one")
            if ok: ex.oblige(o.st, z3.Or(mk_[0][3] == g, mk_[0][3] == gv, mk_[0][3] == ex.load_bytes(o.st, g, 8)), "the callable wrapped is the one given")
        return [p, r, g], post
    ex = fresh(); names = ex.find(re.compile(r"^void reflect::Scope::addFunction<.*>\("))
    for nm in names: c.verify(fresh(), None, typed_add, label=demangle(nm), mangled=nm)

    def call(nm):
        ex = fresh(); dem = demangle(nm)
        ret = re.search(r"Scope::call<([^,>]*)", dem).group(1).strip(); pars = stl.split_params(stl.split_name(dem)[2])[1:]
        def ocall(ex, s, a, cx):
            sr = cx["I"].ty.kind == "void" and ret != "void"; v = None if cx["I"].ty.kind == "void" else ex.undef(cx["I"].ty)
            s.log = s.log + (("ocall", a[0] if sr else None, a[1:] if sr else a, cx["dem"], v),); return stl.R(s.fork(), v) + stl.ERR(s, "ocall")
        ex.contract("re:(^| )reflect::Overloads::call<", ocall)
        def setup(ex, st):
            p = ptr(ex, st, "this", 8); r, n = namearg(ex, st, "name"); xs = [ptr(ex, st, "argument%d" % i, 8) for i in range(len(pars))]
            res = [ex.new_region(st, 64, "alloca", None, "result").addr] if ret == "reflect::Value" else []
            def post(o):
                cl = ev(o, "ocall"); fn = ev(o, "function")
                ex.oblige(o.st, z3.And(fn[0][1] == p, fn[0][2] == n) if len(fn) == 1 else z3.BoolVal(False), "the function called is looked up once, here")
                if o.kind == "error" and not cl: return
                ok = len(cl) == 1 and len(cl[0][2]) == 1 + len(xs)
                ex.oblige(o.st, z3.And([cl[0][2][0] == REC["function"](p, n)] + [a == b for a, b in zip(cl[0][2][1:], xs)]) if ok else z3.BoolVal(False), "the arguments go to the function's overloads, in order")
                if ok and o.kind == "ret":
                    if res: ex.oblige(o.st, cl[0][1] == res[0], "its result is returned")
                    elif o.val is not None: ex.oblige(o.st, o.val == cl[0][4], "its result is returned")
            return res + [p, r] + xs, post
        c.verify(ex, None, setup, label=dem, mangled=nm)
    for nm in fresh().find(re.compile(r"reflect::Scope::call<.*>\(std::string const&")): call(nm)

    c.assumptions += COMMON_ASSUMPTIONS + ["names are split as C10 proves; splitting the component split off gives it back (it has no separator)", "a registered sub-scope is a scope object and scopes have finitely many ancestors (both established by construction)",
        "memory allocation succeeds", "overload sets take functions as C05 proves; types load as C12 proves", "listings that include sub-scopes are not covered by proof"]
    c.finish(witness=lambda c: std_witness(c, "c11.cpp"))


if __name__ == "__main__": main(run, "C11")
