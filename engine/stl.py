"""Assumed contracts on the C++ standard library and on the code base's terminal/diagnostic functions (trusted base).

Each handler is listed in the evidence under `trusted_base` when a run used it."""
import z3, re
from symex import *

Executor.ghost_sorts.update({
    "str": Str, "vec.data": B64, "vec.size": B64, "own": B64, "sp.ptr": B64,
    "map.has": z3.ArraySort(Str, z3.BoolSort()), "map.node": z3.ArraySort(Str, B64), "map.size": B64,
    "fun": B64, "mutex": BV(8),
})
sdata = z3.Function("sdata", Str, B64)
NODE = 8          # offset of the value inside a hash node (libstdc++), only used through the contracts below
MAPSTRIDE = 4096
mapbase = z3.Function("mapbase", z3.ArraySort(Str, z3.BoolSort()), z3.ArraySort(Str, B64), B64)


def R(st, v=None): return [Out("ret", st, v)]
def ERR(st, info=None): return [Out("error", st, None, info)]


def split_name(dem):
    """`ret ns::Cls<args>::meth(params) const` -> (cls, meth, params)"""
    s = dem
    if s.endswith(" const"): s = s[:-6]
    if not s.endswith(")"): return None, s, ""
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ")": d += 1
        elif s[i] == "(":
            d -= 1
            if d == 0: break
    head, params = s[:i], s[i + 1:-1]
    d = 0; cut = None; start = 0
    j = len(head) - 1
    # last :: at depth 0
    while j > 0:
        c = head[j]
        if c == ">" and head[j - 1] != "-" and not head[:j + 1].endswith("operator>") and not head[:j + 1].endswith("operator>>"): d += 1
        elif c == "<" and not head[:j + 1].endswith("operator<") and not head[:j + 1].endswith("operator<<"): d -= 1
        elif c == ":" and head[j - 1] == ":" and d == 0: cut = j; break
        j -= 1
    if cut is None: return None, head, params
    return head[:cut - 1], head[cut + 1:], params


def targs(cls):
    """first template argument text"""
    i = cls.index("<"); d = 0; out = []; cur = ""
    for c in cls[i + 1:]:
        if c == "<" or c == "(" : d += 1
        if c == ">" or c == ")":
            if d == 0 and c == ">": out.append(cur.strip()); break
            d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""; continue
        cur += c
    return out


# sizes / copy behaviour of element types ---------------------------------------------------------------------------
def sizeof(ex, t):
    t = t.strip()
    if t.endswith("*"): return 8
    tab = {"std::string": 32, "reflect::Argument": 16, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "bool": 1, "char": 1,
           "reflect::Value": 40}
    if t in tab: return tab[t]
    if t in ex.sizes: return ex.sizes[t]
    raise Unsupported("sizeof " + t)
Executor.sizes = {}

# type -> list of ("raw",off,size) | ("g",off,ghostname)
LAYOUT = {
    "reflect::Argument": [("raw", 0, 8), ("raw", 8, 4), ("raw", 12, 1)],
    "std::string": [("g", 0, "str")],
}


def layout(ex, t):
    t = t.strip()
    if t in LAYOUT: return LAYOUT[t]
    if t.endswith("*") or t in ("long", "unsigned long"): return [("raw", 0, 8)]
    if t in ("int", "unsigned int"): return [("raw", 0, 4)]
    if t in ("bool", "char"): return [("raw", 0, 1)]
    if t in ex.layouts: return ex.layouts[t]
    raise Unsupported("layout of " + t)
Executor.layouts = {}


def copy_obj(ex, st, dst, src, t):
    vals = []
    for e in layout(ex, t):
        p = simp(src + bv(e[1]))
        vals.append(ex.load_bytes(st, p, e[2]) if e[0] == "raw" else ex.gget(st, p, e[2]))
    for e, v in zip(layout(ex, t), vals):
        q = simp(dst + bv(e[1]))
        if e[0] == "raw": ex.store_bytes(st, q, e[2], v)
        else: ex.gset(st, q, e[2], v)


Executor.ctor_types = {"reflect::Field", "reflect::Overloads", "reflect::Function", "reflect::Value", "reflect::Type"}


def construct(ex, st, p, t, kind, args):
    """run the constructor of class t (its body in the compiled sources, or its contract): default / const& / &&"""
    last = t.split("::")[-1]
    for k in ([kind] if kind != "&&" else ["&&", "const&"]):
        dem = "%s::%s(%s)" % (t, last, "" if k == "" else ("%s&&" % t if k == "&&" else "%s const&" % t))
        names = ex.find(dem)
        if names or dem in ex.exact:
            outs = ex.call(st, names[0] if names else dem, [p] + args)
            return [o.st for o in outs if o.kind == "ret"]
    raise Unsupported("no constructor %s" % dem)


def bool_ret(b): return simp(b)


# ---- strings --------------------------------------------------------------------------------------------------------
def S(ex, st, p):
    s = ex.gget(st, p, "str")
    return s


def install_strings(ex):
    C = lambda n, h: ex.contract(n, h, True)
    SC = "std::string::basic_string"

    def cstr_val(st, p):
        b = ex.cstr(st, p)
        if b is not None: return ex.lit(b)
        c, d = linear(simp(p))
        if c == 0 and len(d) == 1:
            a = list(d.values())[0][1]
            if a.decl().name() == "sdata":       # a C string ends at the first NUL
                if a.arg(0).decl().name().startswith("lit:"): return a.arg(0)
                v = z3.Function("upToNul", Str, Str)(a.arg(0)); st.assume(z3.ULE(slen(v), slen(a.arg(0)))); return v
        return z3.Function("strof", B64, Str)(p)

    def ctor(ex, st, a, c):
        cls, m, ps = split_name(c["dem"])
        this = a[0]
        if ps == "": v = ex.lit("")
        elif ps.startswith("std::string const&, unsigned long"):
            s = S(ex, st, a[1]); raise Unsupported("string substring ctor")
        elif ps.startswith("std::string"):
            v = S(ex, st, a[1])
            if "&&" in ps and not this.eq(a[1]): ex.gset(st, a[1], "str", ex.fresh(Str, "moved"))
        elif ps.startswith("char const*, unsigned long"):
            b = ex.cstr(st, a[1]); n = simp(a[2])
            if b is not None and isnum(n) and num(n) <= len(b): v = ex.lit(b[:num(n)])
            else: v = ex.fresh(Str, "s"); st.assume(slen(v) == n)
        elif ps.startswith("char const*"): v = cstr_val(st, a[1])
        elif ps.startswith("unsigned long, char"):
            v = z3.Function("srep", B64, BV(8), Str)(a[1], a[2]); st.assume(slen(v) == a[1])
        elif ps.startswith("std::allocator"): v = ex.lit("")
        else: raise Unsupported("string ctor " + ps)
        ex.gset(st, this, "str", v)
        return R(st)
    C("re:^std::string::basic_string(<[^(]*>)?\\(", ctor)
    C("re:^std::string::~basic_string\\(\\)", lambda ex, st, a, c: R(st))

    def assign(ex, st, a, c):
        ps = split_name(c["dem"])[2]
        if ps.startswith("std::string&&"):
            v = S(ex, st, a[1])
            if not a[0].eq(a[1]): ex.gset(st, a[1], "str", ex.fresh(Str, "moved"))
        elif ps.startswith("std::string const&"): v = S(ex, st, a[1])
        elif ps.startswith("char const*"): v = cstr_val(st, a[1])
        else: raise Unsupported("string assign " + ps)
        ex.gset(st, a[0], "str", v)
        return R(st, a[0])
    C("re:^std::string::(operator=|assign)\\(", assign)

    def ln(st, s):
        n = slen(s); st.assume(z3.ULT(n, bv(1 << 40))); return n
    C("re:^std::string::(size|length)\\(\\) const$", lambda ex, st, a, c: R(st, ln(st, S(ex, st, a[0]))))
    C("std::string::empty() const", lambda ex, st, a, c: R(st, simp(ln(st, S(ex, st, a[0])) == 0)))
    C("std::string::clear()", lambda ex, st, a, c: (ex.gset(st, a[0], "str", ex.lit("")), R(st))[1])

    def data(ex, st, a, c):
        s = S(ex, st, a[0]); ln(st, s); return R(st, sdata(s))
    C("re:^std::string::(c_str|data|begin|cbegin)\\(\\)( const)?$", data)

    def end(ex, st, a, c):
        s = S(ex, st, a[0]); return R(st, simp(sdata(s) + ln(st, s)))
    C("re:^std::string::(end|cend)\\(\\)( const)?$", end)

    def idx(ex, st, a, c):
        s = S(ex, st, a[0]); n = ln(st, s)
        ex.oblige(st, z3.ULE(a[1], n), "string index within bounds", "ub"); st.assume(z3.ULE(a[1], n))
        return R(st, simp(sdata(s) + a[1]))
    C("re:^std::string::operator\\[\\]\\(unsigned long\\)( const)?$", idx)

    def at(ex, st, a, c):
        s = S(ex, st, a[0]); n = ln(st, s); outs = []
        ok = simp(z3.ULT(a[1], n))
        if ex.feasible(st, ok): s2 = st.fork(); s2.assume(ok); outs += R(s2, simp(sdata(s) + a[1]))
        if ex.feasible(st, z3.Not(ok)): s3 = st.fork(); s3.assume(z3.Not(ok)); outs.append(Out("exc", s3, None, "out_of_range"))
        return outs
    C("re:^std::string::at\\(unsigned long\\)( const)?$", at)

    def front(ex, st, a, c):
        s = S(ex, st, a[0]); ln(st, s)
        ex.oblige(st, slen(s) != 0, "front() of a non-empty string", "ub"); return R(st, sdata(s))
    C("re:^std::string::front\\(\\)( const)?$", front)

    def back(ex, st, a, c):
        s = S(ex, st, a[0]); ln(st, s)
        ex.oblige(st, slen(s) != 0, "back() of a non-empty string", "ub"); return R(st, simp(sdata(s) + slen(s) - 1))
    C("re:^std::string::back\\(\\)( const)?$", back)

    def substr(ex, st, a, c):
        # (sret, this, pos, n)
        s = S(ex, st, a[1]); n = ln(st, s); outs = []
        ok = simp(z3.ULE(a[2], n))
        if ex.feasible(st, z3.Not(ok)):
            s3 = st.fork(); s3.assume(z3.Not(ok)); outs.append(Out("exc", s3, None, "substr out_of_range"))
        if ex.feasible(st, ok):
            st.assume(ok)
            to = simp(z3.If(z3.ULT(n - a[2], a[3]), n, a[2] + a[3]))
            v = mk_sub(ex, st, s, simp(a[2]), to)
            ex.gset(st, a[0], "str", v)
            outs += R(st)
        return outs
    C("std::string::substr(unsigned long, unsigned long) const", substr)

    def plus(ex, st, a, c):
        ps = split_name(c["dem"])[2]
        L = [x.strip() for x in split_params(ps)]
        vs = []
        for t, p in zip(L, a[1:]):
            if t.startswith("std::string"):
                vs.append(S(ex, st, p))
                if t.endswith("&&"): ex.gset(st, p, "str", ex.fresh(Str, "moved"))
            elif t.startswith("char const*"): vs.append(cstr_val(st, p))
            elif t == "char": vs.append(mk_char(ex, st, p))
            else: raise Unsupported("string + " + t)
        ex.gset(st, a[0], "str", mk_cat(ex, st, vs[0], vs[1]))
        return R(st)
    C("re:^std::string std::operator\\+<", plus)

    def append(ex, st, a, c):
        ps = split_params(split_name(c["dem"])[2])
        t = ps[0].strip()
        if t.startswith("std::string") and len(ps) == 1: v = S(ex, st, a[1])
        elif t.startswith("char const*") and len(ps) == 1: v = cstr_val(st, a[1])
        elif t == "char": v = mk_char(ex, st, a[1])
        elif t == "unsigned long": v = z3.Function("srep", B64, BV(8), Str)(a[1], a[2]); st.assume(slen(v) == a[1])
        else: raise Unsupported("string append " + t)
        ex.gset(st, a[0], "str", mk_cat(ex, st, S(ex, st, a[0]), v))
        return R(st, a[0])
    C("re:^std::string::(operator\\+=|append|push_back)\\(", append)

    def compare_eq(ex, st, a, c):
        ps = split_params(split_name(c["dem"])[2])
        vs = [S(ex, st, p) if t.strip().startswith("std::string") else cstr_val(st, p) for t, p in zip(ps, a)]
        e = simp(vs[0] == vs[1])
        return R(st, simp(z3.Not(e)) if "operator!=" in c["dem"] else e)
    C("re:^bool std::operator[!=]=<char, std::char_traits<char>, std::allocator<char> >", compare_eq)
    C("re:^std::__enable_if<std::__is_char<char>::__value, bool>::__type std::operator==<char>\\(std::string const&, std::string const&\\)", compare_eq)

    def cmp(ex, st, a, c):
        ps = split_params(split_name(c["dem"])[2])
        if len(ps) != 1: raise Unsupported("string compare")
        v = S(ex, st, a[1]) if ps[0].startswith("std::string") else cstr_val(st, a[1])
        s = S(ex, st, a[0])
        r = z3.Function("scmp", Str, Str, BV(32))(s, v)
        st.assume((r == 0) == (s == v))
        return R(st, r)
    C("re:^std::string::compare\\(", cmp)

    def find(ex, st, a, c):
        r = ex.fresh(B64, "find"); return R(st, r)
    C("re:^std::string::(r?find|find_first_of|find_last_of|find_first_not_of)\\(", find)

    def swap(ex, st, a, c):
        x, y = S(ex, st, a[0]), S(ex, st, a[1]); ex.gset(st, a[0], "str", y); ex.gset(st, a[1], "str", x); return R(st)
    C("re:^std::string::swap\\(", swap)
    C("re:^std::string::(reserve|shrink_to_fit)\\(", lambda ex, st, a, c: R(st))
    C("re:^std::(__new_)?allocator<.*>::~?(__new_)?allocator", lambda ex, st, a, c: R(st))
    C("re:^__gnu_cxx::new_allocator<", lambda ex, st, a, c: R(st))
    C("re:^std::__new_allocator<", lambda ex, st, a, c: R(st))
    ex.cstr_val = cstr_val


def split_params(ps):
    out, d, cur = [], 0, ""
    for ch in ps:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


def mk_cat(ex, st, a, b):
    e = ex.lit("")
    if a.eq(e): return b
    if b.eq(e): return a
    # right-associated normal form so that (a+b)+c and a+(b+c) coincide
    if a.num_args() == 2 and a.decl().name() == "scat":
        return mk_cat(ex, st, a.arg(0), mk_cat(ex, st, a.arg(1), b))
    la, lb = a.decl().name(), b.decl().name()
    if la.startswith("lit:") and lb.startswith("lit:"): return ex.lit((la[4:] + lb[4:]).encode("latin-1"))
    if la.startswith("lit:") and lb == "scat" and b.arg(0).decl().name().startswith("lit:"):
        return mk_cat(ex, st, ex.lit((la[4:] + b.arg(0).decl().name()[4:]).encode("latin-1")), b.arg(1))
    r = scat(a, b)
    st.assume(slen(r) == slen(a) + slen(b))
    return r


def mk_sub(ex, st, s, frm, to):
    if isnum(frm) and num(frm) == 0 and simp(to == slen(s)).eq(z3.BoolVal(True)): return s
    if simp(frm).eq(simp(to)): return ex.lit("")
    r = ssub(s, frm, to)
    st.assume(slen(r) == to - frm)
    return r


def mk_char(ex, st, ch):
    if isnum(ch): return ex.lit(bytes([num(ch)]))
    r = z3.Function("schar", BV(8), Str)(ch)
    st.assume(slen(r) == 1); st.assume(sat_(r, bv(0)) == ch)
    return r


# loads through string data pointers
_orig_load = Executor.load_bytes
def _load_bytes(self, st, p, size):
    p = simp(p)
    if not isnum(p) and not has_region_num(p):
        c, d = linear(p)
        for e in d.values():
            if e[0] == 1 and e[1].decl().name() == "sdata":
                if size != 1: raise Unsupported("wide load from string data")
                s = e[1].arg(0); off = simp(p - e[1])
                self.oblige(st, z3.ULE(off, slen(s)), "string data read within bounds", "ub")
                st.assume(z3.ULE(off, slen(s)))
                if isnum(off) is False: pass
                st.assume(z3.Implies(off == slen(s), sat_(s, off) == 0))
                return sat_(s, off)
    return _orig_load(self, st, p, size)
Executor.load_bytes = _load_bytes


# ---- vectors -----------------------------------------------------------------------------------------------------------
def install_vectors(ex):
    C = lambda n, h: ex.contract(n, h, True)
    VR = "re:^std::vector<(.*)>::"

    def T(c): return targs(split_name(c["dem"])[0])[0] if c["dem"].startswith("std::vector") else targs(re.search(r"std::vector<.*", split_name(c["dem"])[0]).group(0))[0]
    def size(st, p):
        n = ex.gget(st, p, "vec.size"); st.assume(z3.ULT(n, bv(1 << 40))); return n
    def data(st, p):
        d = ex.gget(st, p, "vec.data")
        if not isnum(d) and not has_region_num(d): st.assume(z3.Implies(ex.gget(st, p, "vec.size") != 0, z3.And(z3.UGE(d, 4096), z3.ULT(d, 1 << 45))))
        return d
    ex.vec_size, ex.vec_data = size, data

    def ctor(ex, st, a, c):
        ps = split_name(c["dem"])[2]
        if ps == "" or ps.startswith("std::allocator"):
            r = ex.new_region(st, None, "heapvec", None, "vector elements")
            ex.gset(st, a[0], "vec.data", r.addr); ex.gset(st, a[0], "vec.size", bv(0))
        elif ps.startswith("std::vector") and "&&" in ps:
            d, n = data(st, a[1]), size(st, a[1])
            r = ex.new_region(st, None, "heapvec", None, "vector elements")
            ex.gset(st, a[1], "vec.data", r.addr); ex.gset(st, a[1], "vec.size", bv(0))
            ex.gset(st, a[0], "vec.data", d); ex.gset(st, a[0], "vec.size", n)
        elif ps.startswith("std::initializer_list"):
            t = T(c); sz = sizeof(ex, t)
            b, n = a[1], simp(a[2])
            if not isnum(n): raise Unsupported("initializer_list of symbolic size")
            r = ex.new_region(st, None, "heapvec", None, "vector elements")
            for i in range(num(n)): copy_obj(ex, st, simp(r.addr + bv(i * sz)), simp(b + bv(i * sz)), t)
            ex.gset(st, a[0], "vec.data", r.addr); ex.gset(st, a[0], "vec.size", n)
        elif ps.startswith("std::vector"):
            # copy: elements shared structurally when immutable afterwards is not guaranteed -> only concrete sizes
            t = T(c); sz = sizeof(ex, t); n = simp(size(st, a[1]))
            if not isnum(n): raise Unsupported("copy of a vector of symbolic size")
            r = ex.new_region(st, None, "heapvec", None, "vector elements"); d = data(st, a[1])
            for i in range(num(n)): copy_obj(ex, st, simp(r.addr + bv(i * sz)), simp(d + bv(i * sz)), t)
            ex.gset(st, a[0], "vec.data", r.addr); ex.gset(st, a[0], "vec.size", n)
        else: raise Unsupported("vector ctor " + ps)
        return R(st)
    C("re:^std::vector<.*>::vector\\(", ctor)
    C("re:^std::vector<.*>::~vector\\(\\)$", lambda ex, st, a, c: R(st))
    C("re:^std::vector<.*>::size\\(\\) const$", lambda ex, st, a, c: R(st, size(st, a[0])))
    C("re:^std::vector<.*>::empty\\(\\) const$", lambda ex, st, a, c: R(st, simp(size(st, a[0]) == 0)))
    C("re:^std::vector<.*>::(c?begin|data)\\(\\)( const)?$", lambda ex, st, a, c: R(st, data(st, a[0])))
    C("re:^std::vector<.*>::c?end\\(\\)( const)?$", lambda ex, st, a, c: R(st, simp(data(st, a[0]) + bv(sizeof(ex, T(c))) * size(st, a[0]))))
    C("re:^std::vector<.*>::(reserve|shrink_to_fit)\\(", lambda ex, st, a, c: R(st))

    def idx(ex, st, a, c):
        n = size(st, a[0])
        ex.oblige(st, z3.ULT(a[1], n), "vector index within bounds", "ub"); st.assume(z3.ULT(a[1], n))
        return R(st, simp(data(st, a[0]) + bv(sizeof(ex, T(c))) * a[1]))
    C("re:^std::vector<.*>::operator\\[\\]\\(unsigned long\\)( const)?$", idx)

    def at(ex, st, a, c):
        n = size(st, a[0]); ok = simp(z3.ULT(a[1], n)); outs = []
        if ex.feasible(st, z3.Not(ok)): s3 = st.fork(); s3.assume(z3.Not(ok)); outs.append(Out("exc", s3, None, "out_of_range"))
        if ex.feasible(st, ok): st.assume(ok); outs += R(st, simp(data(st, a[0]) + bv(sizeof(ex, T(c))) * a[1]))
        return outs
    C("re:^std::vector<.*>::at\\(unsigned long\\)( const)?$", at)

    def front(ex, st, a, c):
        ex.oblige(st, size(st, a[0]) != 0, "front() of a non-empty vector", "ub"); return R(st, data(st, a[0]))
    C("re:^std::vector<.*>::front\\(\\)( const)?$", front)

    def back(ex, st, a, c):
        n = size(st, a[0]); ex.oblige(st, n != 0, "back() of a non-empty vector", "ub")
        return R(st, simp(data(st, a[0]) + bv(sizeof(ex, T(c))) * (n - 1)))
    C("re:^std::vector<.*>::back\\(\\)( const)?$", back)

    def push(ex, st, a, c):
        t = T(c); n = size(st, a[0]); d = data(st, a[0]); sz = sizeof(ex, t)
        p = simp(d + bv(sz) * n)
        ps = split_params(split_name(c["dem"])[2])
        if len(a) != 2: raise Unsupported("emplace_back with %d arguments" % (len(a) - 1))
        L = ex.locate(st, p)
        if L[0] == "rs":
            # appended inside a loop: element contents are not tracked, only the count
            if ex.on_push: ex.on_push(ex, st, a[0], a[1], t, n)
        else:
            copy_obj(ex, st, p, a[1], t)
            if ex.on_push: ex.on_push(ex, st, a[0], a[1], t, n)
        if any(x.endswith("&&") for x in ps) and t == "std::string": ex.gset(st, a[1], "str", ex.fresh(Str, "moved"))
        ex.gset(st, a[0], "vec.size", simp(n + 1))
        return R(st, p)
    ex.on_push = None
    C("re:^(void |.*& )?std::vector<.*>::(push_back|emplace_back(<.*>)?)\\(", push)

    def massign(ex, st, a, c):
        ps = split_name(c["dem"])[2]
        if "&&" in ps:
            d, n = data(st, a[1]), size(st, a[1])
            r = ex.new_region(st, None, "heapvec", None, "vector elements")
            ex.gset(st, a[1], "vec.data", r.addr); ex.gset(st, a[1], "vec.size", bv(0))
            ex.gset(st, a[0], "vec.data", d); ex.gset(st, a[0], "vec.size", n)
            return R(st, a[0])
        raise Unsupported("vector assignment")
    C("re:^std::vector<.*>::operator=\\(", massign)

    def swap(ex, st, a, c):
        for g in ("vec.data", "vec.size"):
            x, y = ex.gget(st, a[0], g), ex.gget(st, a[1], g); ex.gset(st, a[0], g, y); ex.gset(st, a[1], g, x)
        return R(st)
    C("re:^std::vector<.*>::swap\\(", swap)
    C("re:^std::vector<.*>::clear\\(\\)$", lambda ex, st, a, c: (ex.gset(st, a[0], "vec.size", bv(0)), R(st))[1])


# ---- unordered maps (string keys) ------------------------------------------------------------------------------------
def install_maps(ex):
    C = lambda n, h: ex.contract(n, h, True)
    M = "re:^(.* )?std::unordered_(map|set)<std::string,"

    ex.on_map = None          # hook: (ex, state, map, contract context, operation) at every access of a map
    def touch(st, m, c, op):
        if ex.on_map: ex.on_map(ex, st, m, c, op)
    def has(st, m): return ex.gget(st, m, "map.has")
    def node(st, m): return ex.gget(st, m, "map.node")
    def size(st, m):
        n = ex.gget(st, m, "map.size"); st.assume(z3.ULT(n, bv(1 << 40))); return n
    ex.map_has, ex.map_node = has, node
    ex.libfacts = {}
    def lib(st, f):
        """assume an invariant of a library object (holds in every state, so it is not a condition of an observation)"""
        n0 = len(st.pc); st.assume(f)
        for x in st.pc[n0:]: ex.libfacts[x.get_id()] = x
    ex.lib = lib
    # iteration: the i-th node visited is reached through the iterator mapbase(has, node) + MAPSTRIDE * i; the end is 0 (or i = size)
    NTH = z3.Function("map_key", z3.ArraySort(Str, z3.BoolSort()), B64, Str); POS = z3.Function("map_pos", z3.ArraySort(Str, z3.BoolSort()), Str, B64)
    CARD = z3.Function("map_card", z3.ArraySort(Str, z3.BoolSort()), B64)
    ex.map_nth, ex.map_pos = NTH, POS
    def iterpos(p):
        """iterator term -> (has, node, i) if it comes from begin()"""
        c, d = linear(simp(p))
        for e in d.values():
            if e[1].decl().name() == "mapbase" and e[0] == 1:
                off = simp(p - e[1]); c2, d2 = linear(off)
                if c2 % MAPSTRIDE or any(x[0] % MAPSTRIDE for x in d2.values()): raise Unsupported("map iterator arithmetic")
                i = bv(c2 // MAPSTRIDE)
                for x in d2.values(): i = i + bv(x[0] // MAPSTRIDE) * x[1]
                return e[1].arg(0), e[1].arg(1), simp(i)
        return None
    ex.map_iterpos = iterpos
    def iternode(st, p):
        """the node an iterator designates"""
        r = iterpos(p)
        if r is None: return p
        h, nd, i = r; k = NTH(h, i); ex.oblige(st, z3.ULT(i, CARD(h)), "a map iterator designates an element when it is used", "ub")
        lib(st, z3.And(z3.ULT(CARD(h), bv(1 << 40)), z3.Implies(z3.ULT(i, CARD(h)), z3.And(z3.Select(h, k), POS(h, k) == i, z3.Select(nd, k) != 0))))
        st.assume(z3.ULT(i, CARD(h)))
        q = simp(z3.Select(nd, k)); lib(st, ex.gget(st, simp(q + bv(NODE)), "str") == k)
        return q
    def atend(ex, st, p):
        r = iterpos(p)
        if r is None: return simp(p == 0)
        lib(st, z3.ULT(CARD(r[0]), bv(1 << 40)))
        return simp(r[2] == CARD(r[0]))
    def begin(ex, st, a, c):
        touch(st, a[0], c, "read"); h, nd = simp(has(st, a[0])), simp(node(st, a[0]))
        lib(st, z3.And(size(st, a[0]) == CARD(h), z3.ULT(CARD(h), bv(1 << 40))))
        return R(st, mapbase(h, nd))
    C(M + ".*>::c?begin\\(\\)( const)?$", begin)
    def itbound(ctx):
        for l in ctx.lin:
            r = iterpos(ctx.init(l)) if z3.is_bv(ctx.init(l)) and ctx.init(l).size() == 64 else None
            if r is not None: yield ("the iteration stays within the map (%s)" % (l[0],), lambda k, val, st, l=l: z3.ULE(iterpos(val(l))[2], CARD(iterpos(val(l))[0])))
    ex.loop_hints.append(itbound)

    def getkey(st, c, p, k=0):
        ps = split_params(split_name(c["dem"])[2])
        t = ps[k]
        if t.startswith("std::string"): return S(ex, st, p)
        if t.startswith("char const"): return ex.cstr_val(st, p)
        raise Unsupported("map key " + t)

    def facts(st, m, k, h, nd):
        # a present key has a live node, holding the key; different keys have different nodes
        if not has_region_num(nd): 
            st.assume(z3.Implies(h, nd != 0))

    def pick(st, arr, k):
        """arr[k], resolving updates at keys known to be equal to or different from k"""
        while z3.is_store(arr):
            e = simp(arr.arg(1) == k)
            if z3.is_true(e) or (not z3.is_false(e) and ex.valid(st, e, 3000)): return arr.arg(2)
            if not z3.is_false(e) and ex.feasible(st, e): break
            arr = arr.arg(0)
        return simp(z3.Select(arr, k))

    def lookup(st, m, k):
        """(present, node) of key k, with the map's invariant: a present key has a node, which holds the key"""
        h = simp(z3.Select(has(st, m), k)); nd = pick(st, simp(node(st, m)), k)
        ex.lib(st, z3.Implies(h, nd != 0))
        if isnum(nd) and not has_region_num(nd): return h, nd
        try: v = ex.gget(st, simp(nd + bv(NODE)), "str")
        except NeedSplit: return h, nd
        ex.lib(st, z3.Implies(h, v == k))
        return h, nd
    ex.map_lookup = lookup; ex.map_pick = pick

    def count(ex, st, a, c):
        touch(st, a[0], c, "read")
        return R(st, simp(z3.If(lookup(st, a[0], getkey(st, c, a[1]))[0], bv(1), bv(0))))
    C(M + ".*>::count\\(", count)

    def find(ex, st, a, c):
        touch(st, a[0], c, "read")
        k = getkey(st, c, a[1]); h, nd = lookup(st, a[0], k)
        outs = []
        if ex.feasible(st, h):
            s2 = st.fork(); s2.assume(h)
            outs += R(s2, nd)
        if ex.feasible(st, z3.Not(h)):
            s3 = st.fork(); s3.assume(z3.Not(h)); outs += R(s3, bv(0))
        return outs

    C(M + ".*>::find\\(", find)
    C(M + ".*>::c?end\\(\\)( const)?$", lambda ex, st, a, c: (touch(st, a[0], c, "end"), R(st, bv(0)))[1])
    C(M + ".*>::size\\(\\) const$", lambda ex, st, a, c: (touch(st, a[0], c, "read"), R(st, size(st, a[0])))[1])
    C(M + ".*>::empty\\(\\) const$", lambda ex, st, a, c: (touch(st, a[0], c, "read"), R(st, simp(size(st, a[0]) == 0)))[1])

    def vtype(c):
        cls = re.search(r"std::unordered_map<.*", split_name(c["dem"])[0]).group(0)
        return targs(cls)[1]

    def insert(st, m, k, c):
        """new node for key k (value left to the caller) -> node region"""
        r = ex.new_region(st, None, "node", None, "map node")
        ex.gset(st, r.addr + bv(NODE), "str", k)
        ex.gset(st, m, "map.has", simp(z3.Store(has(st, m), k, True)))
        ex.gset(st, m, "map.node", simp(z3.Store(node(st, m), k, r.addr)))
        ex.gset(st, m, "map.size", simp(size(st, m) + 1))
        return r

    def voff(c): return NODE + 32

    def default_value(ex, st, p, t):
        """-> outcomes of value-initialising an element of type t at p"""
        if t.endswith("*"): ex.store_bytes(st, p, 8, bv(0)); return [st]
        h = ex.default_ctor.get(t)
        if h: h(ex, st, p); return [st]
        return construct(ex, st, p, t, "", [])
    ex.default_ctor = {"std::string": lambda ex, st, p: ex.gset(st, p, "str", ex.lit(""))}

    def index(ex, st, a, c):
        touch(st, a[0], c, "write")
        k = getkey(st, c, a[1]); h, nd = lookup(st, a[0], k); outs = []
        if ex.feasible(st, h):
            s2 = st.fork(); s2.assume(h)
            outs += R(s2, simp(nd + bv(voff(c))))
        if ex.feasible(st, z3.Not(h)):
            s3 = st.fork(); s3.assume(z3.Not(h)); r = insert(s3, a[0], k, c)
            for s4 in default_value(ex, s3, simp(r.addr + bv(voff(c))), vtype(c)): outs += R(s4, simp(r.addr + bv(voff(c))))
        return outs
    C(M + ".*>::operator\\[\\]\\(", index)

    def at(ex, st, a, c):
        touch(st, a[0], c, "read")
        k = getkey(st, c, a[1]); h, nd = lookup(st, a[0], k); outs = []
        if ex.feasible(st, h):
            s2 = st.fork(); s2.assume(h)
            outs += R(s2, simp(nd + bv(voff(c))))
        if ex.feasible(st, z3.Not(h)):
            s3 = st.fork(); s3.assume(z3.Not(h)); outs.append(Out("exc", s3, None, "out_of_range"))
        return outs
    C(M + ".*>::at\\(", at)

    def emplace(ex, st, a, c):
        touch(st, a[0], c, "write")
        ps = split_params(split_name(c["dem"])[2])
        if len(ps) == 1:      # insert(pair)
            pk = a[1]; k = S(ex, st, pk); vsrc = simp(a[1] + bv(32)); vt = vtype(c) + "&"
        else:
            k = getkey(st, c, a[1]); vsrc, vt = a[2], ps[1]
        h, nd = lookup(st, a[0], k); outs = []
        if ex.feasible(st, h):
            s2 = st.fork(); s2.assume(h)
            outs += R(s2, (nd, bv(0, 8)))
        if ex.feasible(st, z3.Not(h)):
            s3 = st.fork(); s3.assume(z3.Not(h)); r = insert(s3, a[0], k, c)
            p = simp(r.addr + bv(voff(c))); t = vtype(c)
            if "nullptr_t" in vt: ex.store_bytes(s3, p, 8, bv(0))
            elif t in ex.ctor_types:
                for s4 in construct(ex, s3, p, t, "&&" if not vt.endswith("&") else "const&", [vsrc]): outs += R(s4, (r.addr, bv(1, 8)))
                return outs
            else: copy_obj(ex, s3, p, vsrc, t)
            outs += R(s3, (r.addr, bv(1, 8)))
        return outs
    C(M + ".*>::(emplace|insert)(<.*>)?\\(", emplace)

    def erase(ex, st, a, c):
        touch(st, a[0], c, "write")
        ps = split_params(split_name(c["dem"])[2])
        if ps[0].startswith("std::__detail::_Node"):
            nd = a[1]
            k = ex.gget(st, simp(nd + bv(NODE)), "str")
        else: k = getkey(st, c, a[1])
        ex.gset(st, a[0], "map.has", simp(z3.Store(has(st, a[0]), k, False)))
        ex.gset(st, a[0], "map.size", simp(size(st, a[0]) - 1))
        return R(st, ex.fresh(B64, "it"))
    C(M + ".*>::erase\\(", erase)

    def ctor(ex, st, a, c):
        touch(st, a[0], c, "make")
        ps = split_name(c["dem"])[2]
        if ps == "":
            ex.gset(st, a[0], "map.has", z3.K(Str, z3.BoolVal(False))); ex.gset(st, a[0], "map.node", z3.K(Str, bv(0))); ex.gset(st, a[0], "map.size", bv(0))
        elif "&&" in ps or ps.endswith("const&"):
            for g in ("map.has", "map.node", "map.size"): ex.gset(st, a[0], g, ex.gget(st, a[1], g))
            if "&&" in ps:
                ex.gset(st, a[1], "map.has", z3.K(Str, z3.BoolVal(False))); ex.gset(st, a[1], "map.size", bv(0))
        else: raise Unsupported("map ctor " + ps)
        return R(st)
    C("re:^std::unordered_map<.*>::unordered_map\\(", ctor)
    C("re:^std::unordered_map<.*>::~unordered_map\\(\\)", lambda ex, st, a, c: R(st))

    # iterators: a node pointer; end() is null; iteration visits nodes mapit(m)+STRIDE*i
    IT = "re:^std::__detail::_Node(_const)?_iterator<.*>::"
    C(IT + "operator(\\*|->)\\(\\) const$", lambda ex, st, a, c: R(st, simp(iternode(st, ex.load_bytes(st, a[0], 8)) + bv(NODE))))
    def incr(ex, st, a, c):
        p = ex.load_bytes(st, a[0], 8)
        if iterpos(p) is None: raise Unsupported("increment of a map iterator that does not come from begin()")
        ex.store_bytes(st, a[0], 8, simp(p + bv(MAPSTRIDE)))
        return R(st, a[0] if split_name(c["dem"])[2] == "" else p)
    C(IT + "operator\\+\\+\\((int)?\\)$", incr)
    def itctor(ex, st, a, c):
        ps = split_name(c["dem"])[2]
        if ps.startswith("std::__detail::_Node_iterator") : ex.store_bytes(st, a[0], 8, ex.load_bytes(st, a[1], 8)); return R(st)
        return None
    C(IT + "_Node_const_iterator\\(std", itctor)
    def iteq(ex, st, a, c):
        x, y = ex.load_bytes(st, a[0], 8), ex.load_bytes(st, a[1], 8)
        ix, iy = iterpos(x), iterpos(y)
        if ix is None and iy is None: e = ex.eq(st, x, y)
        elif ix is not None and iy is not None: e = simp(ix[2] == iy[2])
        else: e = atend(ex, st, x if ix is not None else y) if (isnum(simp(y)) if ix is not None else isnum(simp(x))) else None
        if e is None: raise Unsupported("comparison of map iterators")
        return R(st, simp(z3.Not(e)) if "operator!=" in c["dem"] else e)
    C("re:^(bool )?std::__detail::operator[!=]=(<.*>)?\\(std::__detail::_Node_iterator_base", iteq)


# ---- shared_ptr -------------------------------------------------------------------------------------------------------
Executor.ghost_sorts.update({"sp.own": B64})
def install_shared(ex):
    """ownership token: sp.own (0: owns nothing; every reset/construction from a pointer makes a fresh one), pointer: sp.ptr"""
    C = lambda n, h: ex.contract(n, h, True)
    SP = "re:^(.* )?std::(__)?shared_ptr<([^()]|\\([^()]*\\))*>::"
    ex.sp_new = None
    def put(st, p, own, ptr): ex.gset(st, p, "sp.own", own); ex.gset(st, p, "sp.ptr", ptr)
    def fresh(st, this, ptr, ps):
        own = ex.fresh(B64, "owner"); st.assume(own != 0)
        st.log = st.log + (("sp.new", own, ptr, ps),)
        put(st, this, own, ptr)
    def release(st, p):
        o = ex.gget(st, p, "sp.own")
        if not (isnum(simp(o)) and num(simp(o)) == 0): st.log = st.log + (("sp.release", o),)
    def take(st, this, a, ps):
        if not ps: put(st, this, bv(0), bv(0))
        elif "nullptr_t" in ps[0]: put(st, this, bv(0), bv(0))
        elif "shared_ptr<" in ps[0] and len(ps) == 1:
            own, ptr = ex.gget(st, a[1], "sp.own"), ex.gget(st, a[1], "sp.ptr")
            if ps[0].endswith("&&"): put(st, a[1], bv(0), bv(0))
            put(st, this, own, ptr)
        elif "shared_ptr<" in ps[0] and len(ps) == 2: put(st, this, ex.gget(st, a[1], "sp.own"), a[2])       # aliasing constructor
        else: fresh(st, this, a[1], ps)
    def ctor(ex, st, a, c): take(st, a[0], a, split_params(split_name(c["dem"])[2])); return R(st)
    C(SP + "(__)?shared_ptr(<.*>)?\\(", ctor)
    def assign(ex, st, a, c):
        if not a[0].eq(a[1]): release(st, a[0]); take(st, a[0], a, split_params(split_name(c["dem"])[2]))
        return R(st, a[0])
    C(SP + "operator=(<.*>)?\\(", assign)
    def reset(ex, st, a, c): release(st, a[0]); take(st, a[0], a, split_params(split_name(c["dem"])[2])); return R(st)
    C(SP + "reset(<.*>)?\\(", reset)
    def dtor(ex, st, a, c): release(st, a[0]); return R(st)
    C(SP + "~(__)?shared_ptr\\(\\)$", dtor)
    C(SP + "operator bool\\(\\) const$", lambda ex, st, a, c: R(st, simp(ex.gget(st, a[0], "sp.ptr") != 0)))
    C(SP + "get\\(\\) const$", lambda ex, st, a, c: R(st, ex.gget(st, a[0], "sp.ptr")))
    C("re:^std::__shared_ptr_access<.*>::operator(\\*|->)\\(\\) const$", lambda ex, st, a, c: R(st, ex.gget(st, a[0], "sp.ptr")))
    def swap(ex, st, a, c):
        for g in ("sp.own", "sp.ptr"):
            x, y = ex.gget(st, a[0], g), ex.gget(st, a[1], g); ex.gset(st, a[0], g, y); ex.gset(st, a[1], g, x)
        return R(st)
    C(SP + "swap\\(", swap)


# ---- misc -------------------------------------------------------------------------------------------------------------
def install_misc(ex):
    C = lambda n, h: ex.contract(n, h, True)
    # terminal outcomes
    C("re:^void reflect::error<", lambda ex, st, a, c: ERR(st))
    C("re:^reflect::verror\\(", lambda ex, st, a, c: ERR(st))
    C("abort", lambda ex, st, a, c: ERR(st, "abort"))
    C("re:^std::__throw_", lambda ex, st, a, c: [Out("exc", st, None, c["dem"])])
    C("__cxa_throw", lambda ex, st, a, c: [Out("exc", st, None, "throw")])
    C("re:^std::terminate", lambda ex, st, a, c: ERR(st, "terminate"))
    C("__cxa_guard_acquire", lambda ex, st, a, c: R(st, bv(1, 32)))
    C("__cxa_guard_release", lambda ex, st, a, c: R(st))
    C("__cxa_guard_abort", lambda ex, st, a, c: R(st))
    # diagnostics: arbitrary text, no effect
    def text(ex, st, a, c):
        ex.gset(st, a[0], "str", ex.fresh(Str, "text")); return R(st)
    C("re:^std::string reflect::(signature|errorFormat|printArgument)[<(]", text)
    C("re:^reflect::(signature|printArgument)\\(", text)
    C("re:^reflect::\\w+::print\\(.*\\) const$", text)
    C("re:^reflect::Overloads::name\\(\\) const$", text)
    C("re:^std::string reflect::signature<", text)
    C("re:^std::string reflect::(anonymous namespace)::", lambda ex, st, a, c: None)

    def new(ex, st, a, c):
        n = simp(a[0])
        r = ex.new_region(st, num(n) if isnum(n) else None, "new", None, "new object")
        if ex.on_new: ex.on_new(ex, st, r)
        return R(st, r.addr)
    ex.on_new = None
    C("operator new(unsigned long)", new)

    def delete(ex, st, a, c):
        p = simp(a[0])
        if ex.on_delete:
            r = ex.on_delete(ex, st, p)
            if r is not None: return r
        if isnum(p) and num(p) == 0: return R(st)
        L = ex.locate(st, p)
        if L[0] == "r":
            r = ex.region(st, L[1])
            if r.kind != "new" or L[2] != 0: raise UB("delete of a non-heap object")
            st.wregion(L[1]).alive = False
            return R(st)
        raise Unsupported("delete of unknown object")
    ex.on_delete = None
    C("re:^operator delete\\(void\\*(, unsigned long)?\\)$", delete)

    # type identity
    def type_of(ex, st, a, c):
        t = re.search(r"reflect::type<(.*)>\(\)$", c["dem"]).group(1)
        return R(st, ex.type_const(t))
    ex.tconsts = {}
    def type_const(t):
        t = t.strip()
        while True:
            o = t
            t = re.sub(r"(\s*&&|\s*&)$", "", t); t = re.sub(r"\s+const$", "", t); t = re.sub(r"^const\s+", "", t)
            if o == t: break
        if t not in ex.tconsts:
            v = z3.Const("type<%s>" % t, B64)
            ex.axioms.append(v != 0); ex.axioms.append(z3.ULT(v, bv(1 << 45)))
            for o in ex.tconsts.values(): ex.axioms.append(o != v)
            ex.tconsts[t] = v
        return ex.tconsts[t]
    ex.type_const = type_const
    C("re:^reflect::Type const\\* reflect::type<.*>\\(\\)$", type_of)

    def noop(ex, st, a, c): return R(st)
    C("re:^std::pair<.*>::~pair\\(\\)$", noop)
    C("re:^std::(basic_)?(string|ostring|o|i|if|of)?stream.*::~", noop)
    C("re:^std::initializer_list<", lambda ex, st, a, c: None)


# ---- mutexes and std::function -------------------------------------------------------------------------------------
Executor.ghost_sorts.update({"held": B64})
def install_mutex(ex):
    """ghost "held": how often the calling thread holds the mutex"""
    C = lambda n, h: ex.contract(n, h, True)
    def lock(rec, tries):
        def h(ex, st, a, c):
            n = ex.gget(st, a[0], "held")
            if not rec:
                ex.oblige(st, n == 0, "a non-recursive lock is not taken by the thread that holds it", "pre"); st.assume(n == 0)
            st.assume(z3.ULT(n, bv(1 << 30))); outs = []
            if tries: outs += R(st.fork(), z3.BoolVal(False) if c["I"] is not None and c["I"].ty.kind == "int" and c["I"].ty.bits == 1 else bv(0, 8))
            ex.gset(st, a[0], "held", simp(n + 1)); st.log = st.log + (("lock", a[0], rec),)
            return outs + (R(st, z3.BoolVal(True)) if tries else R(st))
        return h
    def unlock(ex, st, a, c):
        n = ex.gget(st, a[0], "held")
        ex.oblige(st, n != 0, "the lock released is held", "pre")
        ex.gset(st, a[0], "held", simp(n - 1)); st.log = st.log + (("unlock", a[0]),)
        return R(st)
    for k, rec in (("mutex", False), ("recursive_mutex", True), ("timed_mutex", False), ("recursive_timed_mutex", True)):
        C("std::%s::lock()" % k, lock(rec, False)); C("std::%s::try_lock()" % k, lock(rec, True)); C("std::%s::unlock()" % k, unlock)
        C("re:^std::(__)?%s(_base)?::(__)?%s(_base)?\\(\\)$" % (k, k), lambda ex, st, a, c: (ex.gset(st, a[0], "held", bv(0)), R(st))[1])
        C("re:^std::(__)?%s(_base)?::~(__)?%s(_base)?\\(\\)$" % (k, k), lambda ex, st, a, c: R(st))


def install_function(ex):
    """ghost "fun": the identity of the callable held (0: empty)"""
    C = lambda n, h: ex.contract(n, h, True)
    FN = "re:^(.* )?std::function<.*>::"
    def ctor(ex, st, a, c):
        ps = split_params(split_name(c["dem"])[2])
        if not ps or "nullptr_t" in ps[0]: v = bv(0)
        elif ps[0].startswith("std::function<") and ps[0].endswith(("&&", "const&")):
            v = ex.gget(st, a[1], "fun")
            if ps[0].endswith("&&"): ex.gset(st, a[1], "fun", ex.fresh(B64, "moved"))
        else: v = ex.fresh(B64, "callable"); st.assume(v != 0)
        ex.gset(st, a[0], "fun", v); return R(st)
    C(FN + "function(<.*>)?\\(", ctor)
    def assign(ex, st, a, c):
        ps = split_params(split_name(c["dem"])[2])
        if "nullptr_t" in ps[0]: v = bv(0)
        elif ps[0].startswith("std::function<"):
            v = ex.gget(st, a[1], "fun")
            if ps[0].endswith("&&") and not a[0].eq(a[1]): ex.gset(st, a[1], "fun", ex.fresh(B64, "moved"))
        else: v = ex.fresh(B64, "callable"); st.assume(v != 0)
        ex.gset(st, a[0], "fun", v); return R(st, a[0])
    C(FN + "operator=(<.*>)?\\(", assign)
    C(FN + "operator bool\\(\\) const$", lambda ex, st, a, c: R(st, simp(ex.gget(st, a[0], "fun") != 0)))
    C(FN + "~function\\(\\)$", lambda ex, st, a, c: R(st))
    C("re:^std::_Function_base::~?_Function_base\\(\\)$", lambda ex, st, a, c: R(st))
    def swap(ex, st, a, c):
        x, y = ex.gget(st, a[0], "fun"), ex.gget(st, a[1], "fun"); ex.gset(st, a[0], "fun", y); ex.gset(st, a[1], "fun", x); return R(st)
    C(FN + "swap\\(", swap)
    ex.on_apply = None
    def apply(ex, st, a, c):
        f = ex.gget(st, a[0], "fun"); outs = []
        ex.oblige(st, f != 0, "the callable applied is not empty", "pre"); st.assume(f != 0)
        if ex.on_apply: return ex.on_apply(ex, st, f, a[1:], c)
        raise Unsupported("application of a std::function")
    C(FN + "operator\\(\\)\\(", apply)


def install_all(ex):
    install_strings(ex); install_vectors(ex); install_maps(ex); install_shared(ex); install_misc(ex); install_mutex(ex); install_function(ex)
