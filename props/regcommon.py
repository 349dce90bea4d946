"""The registry's operations, specified over its three tables (shared by C12: what they answer and record; C13: under which lock).

The tables are told apart by what they map a name to (a type object, another name, a loader); where they live, which lock guards them
and in what order they are consulted is read off the run of Registry::get itself."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

R = "reflect::Registry::"
STR = "std::string const&"
GET, ADD, ALIAS = R + "get(%s)" % STR, R + "add(%s, std::function<void (reflect::Type*)>)" % STR, R + "alias(%s, %s)" % (STR, STR)
GLOBAL = R + "globalScope()"
KINDS = ("types", "aliases", "loaders")
VOFF = stl.NODE + 32
RELOCK = 1 << 20


def kind_of(dem):
    m = re.search(r"std::unordered_map<.*", stl.split_name(dem)[0] or "")
    if not m: return None
    t = stl.targs(m.group(0))[1]
    if t == "reflect::Type const*" or t == "reflect::Type*": return "types"
    if t == "std::string": return "aliases"
    if t.startswith("std::function<void (reflect::Type"): return "loaders"
    return None


class Tables:
    """the contents of the tables in one state"""
    def __init__(s, ex, st, at, fresh=()):
        s.ex, s.st, s.at, s.fresh = ex, st, at, fresh
    def _g(s, k, g):
        m = s.at[k]
        return s.ex.gget(s.st, m, g)
    def has(s, k, name): return simp(z3.Select(s._g(k, "map.has"), name))
    def node(s, k, name): return simp(z3.Select(s._g(k, "map.node"), name))
    def value(s, k, name):
        """the mapped value of a present key"""
        p = simp(s.node(k, name) + bv(VOFF))
        if k == "types": return s.ex.load_bytes(s.st, p, 8)
        return s.ex.gget(s.st, p, "str" if k == "aliases" else "fun")


def registry_ex(c, mods, lock_checks, contents):
    """executor with loaders and scopes by their contracts"""
    ex = c.executor(mods); read_sizes(ex, mods); ex.check_null = False
    ex.layouts = {"std::function<void (reflect::Type*)>": [("g", 0, "fun")]}
    ex.sizes = dict(ex.sizes); ex.sizes["std::function<void (reflect::Type*)>"] = 32
    ex.reg = dict(at=None, lock=None)
    # a static initialised on first use: either this call is the first one or an earlier one was
    def guard(ex, st, a, cx):
        s2 = st.fork(); return stl.R(st, bv(1, 32)) + stl.R(s2, bv(0, 32))
    ex.contract("__cxa_guard_acquire", guard, True)
    def touch(ex, st, m, cx, op):
        k = kind_of(cx["dem"])
        if not k: return
        st.log = st.log + (("map", op, k, m),)
        if op == "make" or not lock_checks or ex.reg["lock"] is None: return
        held = ex.gget(st, ex.lock_of(k, m), "held")
        if op != "end": ex.oblige(st, held != 0, "the registry's lock is held when its %s table is %s" % (k, "written" if op == "write" else "read"), "pre")
    ex.on_map = touch
    def lock_of(k, m):
        r = ex.reg
        if isnum(r["lock"]) and not isnum(r["at"][k]): return r["lock"]
        return simp(m + (r["lock"] - r["at"][k]))
    ex.lock_of = lock_of

    def scope_add(ex, st, a, cx):
        st.log = st.log + (("scope.add", ex.gget(st, a[1], "str")),)
        return stl.R(st.fork()) + stl.ERR(st)
    ex.contract("reflect::Scope::addType(%s)" % STR, scope_add)

    def apply(ex, st, f, args, cx):
        """a loader: may use every registry operation, so it only ever adds entries to the tables it finds"""
        t = simp(args[0]); L = ex.locate(st, t)
        at = {k: [e[3] for e in st.log if e[0] == "map" and e[2] == k] for k in KINDS}
        snap = st.fork()
        st.log = st.log + (("load", f, t, snap),)
        for lk in {e[1].get_id(): e[1] for e in st.log if e[0] == "lock" and not e[2]}.values():
            ex.oblige(st, ex.gget(st, lk, "held") == 0, "no lock that a nested lookup would block on is held while a loader runs", "pre")
        for k in KINDS:
            seen = []
            for m in at[k]:
                if any(m.eq(x) for x in seen): continue
                seen.append(m)
                h0, n0 = ex.gget(st, m, "map.has"), ex.gget(st, m, "map.node")
                h1, n1 = ex.fresh(h0.sort(), "has"), ex.fresh(n0.sort(), "node")
                if k != "loaders":
                    x = z3.Const("x", Str)
                    st.assume(z3.ForAll([x], z3.Implies(z3.Select(h0, x), z3.And(z3.Select(h1, x), z3.Select(n1, x) == z3.Select(n0, x))), patterns=[z3.Select(h1, x)]))
                ex.gset(st, m, "map.has", h1); ex.gset(st, m, "map.node", n1); ex.gset(st, m, "map.size", ex.fresh(B64, "size"))
        return stl.R(st.fork()) + stl.ERR(st, "loader")
    ex.on_apply = apply
    return ex


def discover(ex, st, c):
    """where Registry::get finds the tables and which lock it takes (the registry existing already)"""
    names = ex.find(GET); mod, nm = ex.find_def(names[0])
    s = st.fork(); r = ex.new_region(s, 32, "alloca", None, "probe"); ex.gset(s, r.addr, "str", z3.Const("probe", Str))
    keep = ex.reg; ex.reg = dict(at=None, lock=None); ex.mute += 1
    try: outs = ex.run(mod.func(nm), s, [r.addr])
    finally: ex.mute -= 1; ex.reg = keep
    at, locks = {}, []
    for o in outs:
        if any(e[0] == "map" and e[1] == "make" for e in o.st.log): continue
        for e in o.st.log:
            if e[0] == "map" and e[2] not in at: at[e[2]] = e[3]
            if e[0] == "lock" and not any(e[1].eq(x) for x in locks): locks.append(e[1])
    if set(at) != set(KINDS): raise Unsupported("the registry's tables were not found (seen: %s)" % sorted(at))
    ex.reg = dict(at=at, lock=locks[0] if locks else None)
    for m in list(at.values()):
        _, d = linear(m)
        for e in d.values():
            if e[0] == 1: st.assume(z3.And(z3.UGE(e[1], 4096), z3.ULT(e[1], 1 << 45), z3.Extract(2, 0, e[1]) == 0)) if False else None
    return at


def created(ex, o):
    """tables built during this call: {kind: address}, or {}"""
    made = {}
    for e in o.st.log:
        if e[0] == "map" and e[1] == "make": made.setdefault(e[2], []).append(e[3])
    at = ex.reg["at"]; r = {}
    for k, ms in made.items():
        if len(ms) > 1:     # other maps of the same type (the scopes' own): the one at the same distance from a table as always
            near = [m for m in ms for k2, m2 in made.items() if k2 != k and len(m2) == 1 and simp(m - m2[0]).eq(simp(at[k] - at[k2]))]
            ms = near or ms
        r[k] = ms[0]
    return r


def outcome_tables(ex, pre, o):
    """-> (tables before, tables after, created) of one outcome"""
    new = created(ex, o)
    if new:
        class Empty(Tables):
            def has(s, k, name): return z3.BoolVal(False)
            def node(s, k, name): return bv(0)
            def value(s, k, name): return bv(0)
        return Empty(ex, pre, new), Tables(ex, o.st, new), True
    return Tables(ex, pre, dict(ex.reg["at"])), Tables(ex, o.st, dict(ex.reg["at"])), False


def same_tables(ex, o):
    """every table used is the one get uses"""
    at = created(ex, o) or ex.reg["at"]
    return z3.And([e[3] == at.get(e[2], bv(0)) for e in o.st.log if e[0] == "map" and e[1] != "make"] + [z3.BoolVal(True)])


def namearg(ex, st, name):
    r = ex.new_region(st, 32, "alloca", None, name); n = z3.Const(name, Str); ex.gset(st, r.addr, "str", n)
    st.assume((slen(n) == 0) == (n == ex.lit(""))); st.assume(z3.ULT(slen(n), bv(1 << 40)))
    return r.addr, n


def inv(ex, st, name):
    """a registered type is an object; a registered loader is not empty"""
    T = Tables(ex, st, ex.reg["at"])
    A = T.value("aliases", name); t = z3.If(T.has("aliases", name), A, name)
    for n in (name, A):
        st.assume(z3.Implies(T.has("types", n), z3.And(T.value("types", n) != 0, z3.ULT(T.value("types", n), 1 << 45)))); st.assume(z3.Implies(T.has("loaders", n), T.value("loaders", n) != 0))
        st.assume((slen(n) == 0) == (n == ex.lit("")))
        for k in KINDS: st.assume(z3.Implies(T.has(k, n), T.node(k, n) != 0))
    return t
