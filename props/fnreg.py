"""The functions registered by a type's reflection: contracts on Type::addFunction and Function's constructor record them; helpers tell what a registered callable designates."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

stl.Executor.ghost_sorts["fnid"] = B64
TID = z3.Function("IdOfType", B64, Str)


def install_registration(ex):
    ex.made = {}
    def ev(st, *e): st.log = st.log + (e,)
    def mk(ex, s, a, cx):
        t = stl.targs(cx["dem"][len("reflect::Function::"):])[0]
        i = ex.fresh(B64, "made"); ex.gset(s, a[0], "fnid", i); ex.made[i.get_id()] = (t, a[2:], ex.gget(s, a[1], "str"), i); return stl.R(s)
    ex.contract("re:^reflect::Function::Function<", mk)
    ex.contract("reflect::Function::Function(reflect::Function&&)", lambda ex, s, a, cx: (ex.gset(s, a[0], "fnid", ex.gget(s, a[1], "fnid")), stl.R(s))[1])
    ex.contract("reflect::Function::~Function()", lambda ex, s, a, cx: stl.R(s))
    def add(ex, s, a, cx):
        m = ex.made.get(simp(ex.gget(s, a[2], "fnid")).get_id())
        ev(s, "fn", a[0], ex.gget(s, a[1], "str"), m); return stl.R(s)
    ex.contract("reflect::Type::addFunction(std::string const&, reflect::Function&&)", add)
    ex.contract("re:^(void )?reflect::Traits::addTrait(<.*>)?\\(", lambda ex, s, a, cx: (ev(s, "trait", a[0], ex.gget(s, a[1], "str"), (cx["dem"], a[2:])), stl.R(s))[1])
    def tid(ex, s, a, cx):
        if cx["I"] is not None and cx["I"].ty.kind == "void": ex.gset(s, a[0], "str", TID(a[1])); return stl.R(s)
        p = z3.Function("id_of_type", B64, B64)(a[0]); s.assume(z3.And(z3.UGE(p, 4096), z3.ULT(p, 1 << 45))); s.assume(ex.gget(s, p, "str") == TID(a[0])); return stl.R(s, p)
    ex.contract("reflect::Type::id() const", tid)
    ex.contract("re:^reflect::Type::setPointer\\(", lambda ex, s, a, cx: (ev(s, "pointer", a[0], ex.gget(s, a[1], "str"), a[2]), stl.R(s))[1])
    ex.contract("re:^void reflect::Type::addField<", lambda ex, s, a, cx: (ev(s, "field", a[0], ex.gget(s, a[1], "str"), a[2], stl.targs(cx["dem"])[0]), stl.R(s))[1])


def registered(o): return [e for e in o.st.log if e[0] == "fn"]

def target(ex, made):
    """what a registered callable designates: ("member"/"function", mangled name) or ("functor", mangled name of its operator())"""
    t, spec, _, _ = made
    if re.search(r"::\*\)\(", t) and spec and z3.is_expr(spec[0]):
        p = simp(spec[0])
        if isnum(p) and num(p) in ex.addrfn and len(spec) > 1 and isnum(simp(spec[1])) and num(simp(spec[1])) == 0: return "member", ex.addrfn[num(p)]
        return None
    if re.search(r"\(\*\)\(", t) and spec and isnum(simp(spec[0])) and num(simp(spec[0])) in ex.addrfn: return "function", ex.addrfn[num(simp(spec[0]))]
    names = ex.find(re.compile(r"^([^{]* )?" + re.escape(t) + r"::operator\(\)(<.*>)?\("))
    return ("functor", names[0]) if len(names) == 1 else None


def new_object(ex, before, st, p, size):
    """p is an object of that size which didn't exist before"""
    p = simp(p)
    if not isnum(p): return False
    r = st.regions.get((num(p) - REGION0) >> 32)
    return r is not None and r.kind == "new" and r.size == size and num(p) == r.base and r.rid not in before.regions


def params(nm): return stl.split_params(stl.split_name(demangle(nm))[2])

def bits(v, w):
    if z3.is_bool(v): return z3.If(v, bv(1, w), bv(0, w))
    return v

