#!/usr/bin/env python3-vt
"""C22: reflected containers. What is registered for std::vector, std::map, std::unordered_map, std::shared_ptr, std::unique_ptr, std::string and raw pointers is applied to arbitrary containers and operands.

Containers enter by contract (engine/stl.py for vectors and shared_ptr; here for ordered and unordered maps with scalar keys): indexing has `i < size` as a precondition, iterators must designate an element when used."""
from fnreg import *

STRIDE = 64
CARD = z3.Function("cm_card", B64, B64); BASE = z3.Function("cm_begin", B64, B64); ELEM = z3.Function("cm_elem", B64, B64, B64)
def POS(w): return z3.Function("cm_pos%d" % w, B64, BV(w), B64)
def KEY(w): return z3.Function("cm_key%d" % w, B64, B64, BV(w))


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/containers.cpp", REPO + "/src/types/std/string.cpp"])

    def install_containers(ex):
        def ev(st, *e): st.log = st.log + (e,)
        C = lambda n, h: ex.contract(n, h, True, front=True)
        MAP = "re:^(.* )?std::(map|unordered_map)<(int|long), .*>::"
        def width(c): return {"int": 32, "long": 64}[re.search(r"std::(?:map|unordered_map)<(int|long), ", c["dem"]).group(1)]
        def lib(st, m, w, k=None, i=None):
            n = CARD(m); st.assume(z3.ULT(n, bv(1 << 40)))
            if k is not None:
                p = POS(w)(m, k); st.assume(z3.And(z3.ULE(p, n), z3.Implies(z3.ULT(p, n), z3.And(KEY(w)(m, p) == k, ELEM(m, p) != 0))))
            if i is not None: st.assume(z3.Implies(z3.ULT(i, n), z3.And(POS(w)(m, KEY(w)(m, i)) == i, ELEM(m, i) != 0)))
        ex.cm_lib = lib
        def keyof(st, c, p): w = width(c); return w, ex.load_bytes(st, p, w // 8)
        def at_pos(m, i): return simp(BASE(m) + bv(STRIDE) * i)
        def iterpos(p):
            cst, d = linear(simp(p))
            for e in d.values():
                if e[1].decl().name() == "cm_begin" and e[0] == 1:
                    c2, d2 = linear(simp(p - e[1])); i = bv(c2 // STRIDE)
                    if c2 % STRIDE or any(x[0] % STRIDE for x in d2.values()): raise Unsupported("map iterator arithmetic")
                    for x in d2.values(): i = i + bv(x[0] // STRIDE) * x[1]
                    return e[1].arg(0), simp(i)
            raise Unsupported("a map iterator of unknown origin")
        def find(ex, st, a, c): w, k = keyof(st, c, a[1]); lib(st, a[0], w, k); return stl.R(st, at_pos(a[0], POS(w)(a[0], k)))
        C(MAP + "find\\(", find)
        def count(ex, st, a, c): w, k = keyof(st, c, a[1]); lib(st, a[0], w, k); return stl.R(st, z3.If(z3.ULT(POS(w)(a[0], k), CARD(a[0])), bv(1), bv(0)))
        C(MAP + "count\\(", count)
        C(MAP + "c?begin\\(\\)( const)?$", lambda ex, st, a, c: (lib(st, a[0], width(c)), stl.R(st, at_pos(a[0], bv(0))))[1])
        C(MAP + "c?end\\(\\)( const)?$", lambda ex, st, a, c: (lib(st, a[0], width(c)), stl.R(st, at_pos(a[0], CARD(a[0]))))[1])
        C(MAP + "size\\(\\) const$", lambda ex, st, a, c: (lib(st, a[0], width(c)), stl.R(st, CARD(a[0])))[1])
        C(MAP + "empty\\(\\) const$", lambda ex, st, a, c: (lib(st, a[0], width(c)), stl.R(st, simp(CARD(a[0]) == 0)))[1])
        def index(ex, st, a, c):
            w, k = keyof(st, c, a[1]); lib(st, a[0], w, k); p = POS(w)(a[0], k); new = ex.fresh(B64, "inserted"); st.assume(z3.And(z3.UGE(new, 4096), z3.ULT(new, 1 << 45)))
            r = z3.If(z3.ULT(p, CARD(a[0])), ELEM(a[0], p) + 8, new); ev(st, "index", a[0], k, r); return stl.R(st, r)
        C(MAP + "operator\\[\\]\\(", index)
        def at(ex, st, a, c):
            w, k = keyof(st, c, a[1]); lib(st, a[0], w, k); p = POS(w)(a[0], k); ok = z3.ULT(p, CARD(a[0])); outs = []
            if ex.feasible(st, z3.Not(ok)): s = st.fork(); s.assume(z3.Not(ok)); outs.append(Out("exc", s, None, "out_of_range"))
            if ex.feasible(st, ok): st.assume(ok); outs += stl.R(st, simp(ELEM(a[0], p) + 8))
            return outs
        C(MAP + "at\\(", at)
        IT = "re:^std::(_Rb_tree_(const_)?iterator|__detail::_Node_(const_)?iterator(_base)?)<"
        def deref(ex, st, a, c):
            m, i = iterpos(ex.load_bytes(st, a[0], 8)); w = {"int": 32, "long": 64}[re.search(r"pair<(int|long) const", c["dem"]).group(1)]
            lib(st, m, w, None, i); ex.oblige(st, z3.ULT(i, CARD(m)), "a map iterator designates an element when it is used", "ub"); st.assume(z3.ULT(i, CARD(m)))
            e = ELEM(m, i); st.assume(z3.And(z3.UGE(e, 4096), z3.ULT(e, 1 << 45), e & 7 == 0)); st.assume(ex.load_bytes(st, e, w // 8) == KEY(w)(m, i)); return stl.R(st, e)
        C(IT + ".*>::operator(->|\\*)\\(\\) const$", deref)
        def incr(ex, st, a, c):
            v = ex.load_bytes(st, a[0], 8); m, i = iterpos(v); ex.oblige(st, z3.ULT(i, CARD(m)), "a map iterator is advanced from an element", "ub"); ex.store_bytes(st, a[0], 8, simp(v + bv(STRIDE)))
            return stl.R(st, a[0] if c["dem"].endswith("operator++()") else v)
        C(IT + ".*>::operator\\+\\+\\(", incr)
        def itbound(ctx):
            for l in ctx.lin:
                v = ctx.init(l)
                if not (z3.is_bv(v) and v.size() == 64): continue
                try: m, _ = iterpos(v)
                except Unsupported: continue
                yield ("the iteration stays within the map (%s)" % (l[0],), lambda k, val, st, l=l, m=m: z3.ULE(iterpos(val(l))[1], CARD(m)))
        ex.loop_hints.append(itbound)
        def typeof(ex, st, a, c):
            v = z3.BitVec("type_of_" + stl.targs(c["dem"][c["dem"].index("reflect::type<"):])[0], 64); st.assume(z3.And(z3.UGE(v, 4096), z3.ULT(v, 1 << 45))); return stl.R(st, v)
        ex.contract("re:^reflect::Type const\\* reflect::type<", typeof)
        # vectors: the operations that change a container are recorded
        VEC = "re:^(void |.*& )?std::vector<(int|El), .*>::"
        push = next(h for rx, h, tr, lb in ex.regex if rx.search("std::vector<int, std::allocator<int> >::push_back(int const&)"))
        for op in ("resize", "clear", "push_back", "emplace_back"):
            def mut(ex, st, a, c, op=op):
                if ex.on_push: return push(ex, st, a, c)              # filling the list of a map's keys
                ev(st, op, *a); return stl.R(st)
            C(VEC + op + "(<.*>)?\\(", mut)
        C("re:^(.* )?std::unique_ptr<El, .*>::reset\\(", lambda ex, st, a, c: (ev(st, "reset", *a), stl.R(st))[1])
        C("re:^(.* )?std::unique_ptr<El, .*>::release\\(", lambda ex, st, a, c: (ev(st, "release", *a), stl.R(st, z3.BitVec("released", 64)))[1])
        C("re:^(.* )?std::(__)?shared_ptr<El.*>::reset(<.*>)?\\(", lambda ex, st, a, c: (ev(st, "reset", *a), stl.R(st))[1])

    def fresh():
        ex = c.executor(mods); read_sizes(ex, mods); ex.sizes = dict(ex.sizes, El=24); ex.check_null = False; install_registration(ex); install_containers(ex); return ex

    def verify(drv, what, spec, names, traits, pointee=None):
        """spec(ex, pre-state, name, parameter types, operands) -> post(outcome) or None for a function the property doesn't concern"""
        ex = fresh()
        def setup(ex, st):
            t = ptr(ex, st, "type", 8)
            def post(o):
                if not expect_ret(ex, o): return
                count = dict.fromkeys(names, 0)
                for e in registered(o):
                    nm = simp(e[2]); key = next((k for k in names if nm.eq(ex.lit(k))), None)
                    if key is None:
                        ok = ex.valid(o.st, nm == TID(t)) or nm.eq(ex.lit("operator=")) or nm.eq(ex.lit("new"))
                        ex.oblige(o.st, z3.BoolVal(ok), "no other function is registered (%s)" % nm); continue
                    tg = target(ex, e[3]) if e[3] else None
                    if tg is None: ex.oblige(o.st, z3.BoolVal(False), "what is registered as %s is known" % key); continue
                    count[key] += 1
                    s = o.st.fork(); s.log = (); before = ex.cur
                    mod, nm2 = ex.find_def(tg[1]); F = mod.func(nm2) if mod else None
                    ps = params(tg[1]); ps = ([what + "&"] if tg[0] == "member" else []) + ps
                    a, ops, res = [], [], None
                    if F is not None and F.sret: res = ex.new_region(s, 64, "alloca", None, "result").addr; a.append(res)
                    if tg[0] == "functor": a.append(ex.new_region(s, 8, "alloca", None, "closure").addr)
                    for i, p in enumerate(ps):
                        if p.endswith("&") and re.search(r"(^| )(int|long)( const)?&", p) and "<" not in p:
                            w = 64 if re.search(r"long", p) else 32; r = ex.new_region(s, w // 8, "alloca", None, "operand%d" % i); v = z3.BitVec("operand%d" % i, w); ex.store_bytes(s, r.addr, w // 8, v); a.append(r.addr); ops.append((r.addr, v))
                        elif p.endswith("&") or p.endswith("*"): v = ptr(ex, s, "operand%d" % i, 64); a.append(v); ops.append((v, v))
                        else: v = z3.BitVec("operand%d" % i, {"unsigned long": 64, "long": 64, "int": 32}[p]); a.append(v); ops.append((v, v))
                    chk = spec(ex, s, key, ps, ops, res)
                    pre = s.fork()
                    for q in ex.call(s, tg[1], a, None, mod):
                        chk(q); heap_frame(ex, pre, q, name="%s modifies nothing itself" % key)
                tr = [e for e in o.st.log if e[0] == "trait"]
                for k, v in traits.items():
                    e = [x for x in tr if simp(x[2]).eq(ex.lit(k))]; ok = len(e) == 1 and (not v or "addTrait<" in e[0][3][0])
                    ex.oblige(o.st, z3.And([e[0][1] == t] + ([ex.load_bytes(o.st, e[0][3][1][0], 8) == z3.BitVec("type_of_" + v, 64)] if v else [])) if ok else z3.BoolVal(False), "the type is described as %s%s" % (k, " " + v if v else ""))
                ex.oblige(o.st, z3.BoolVal(len([x for x in tr if not simp(x[2]).eq(ex.lit("sizeof"))]) == len(traits)), "the type has no other trait")
                pe = [e for e in o.st.log if e[0] == "pointer"]
                ex.oblige(o.st, z3.BoolVal(not pe) if pointee is None else z3.And(pe[0][1] == t, pe[0][2] == ex.lit(pointee[0]), pe[0][3] == z3.BitVec("type_of_" + pointee[1], 64)) if len(pe) == 1 else z3.BoolVal(False), "the type is described as a pointer exactly if it is one, to its pointee")
                for k, n in names.items(): ex.oblige(o.st, z3.BoolVal(count[k] == n), "%s is registered (%d)" % (k, n))
            return [t], post
        c.verify(ex, re.compile(r"^(void )?reflect_%s\(" % drv), setup, label=what)

    def events(q): return [e for e in q.st.log if e[0] in ("index", "resize", "clear", "push_back", "emplace_back", "reset", "release")]
    def nothing(ex, q, what): ex.oblige(q.st, z3.BoolVal(not events(q)), "%s leaves the container as it is" % what)

    def vector(elem, sz):
        def spec(ex, s, key, ps, ops, res):
            v = ops[0][0]; n = ex.vec_size(s, v); d = ex.vec_data(s, v); x = ops[1] if len(ops) > 1 else None
            if key == "operator[]": s.assume(z3.ULT(x[1], n))                    # C++'s own precondition; `at` is the checked access
            def post(q):
                if key in ("operator[]", "at"):
                    ok = z3.ULT(x[1], n); nothing(ex, q, key)
                    if q.kind == "ret": ex.oblige(q.st, ok, "%s returns only for positions in the vector" % key); ex.oblige(q.st, q.val == d + bv(sz) * x[1], "%s returns the element at that position" % key)
                    else: ex.oblige(q.st, z3.And(z3.BoolVal(q.kind == "error"), z3.Not(ok)), "%s reports an error only for positions outside the vector (%s %s)" % (key, q.kind, q.info))
                    return
                if not expect_ret(ex, q, key + " returns"): return
                if key == "size": ex.oblige(q.st, q.val == n, "size is the number of elements"); nothing(ex, q, key); return
                e = events(q); want = {"clear": ("clear",), "resize": ("resize",), "push_back": ("push_back", "emplace_back")}[key]
                good = len(e) == 1 and e[0][0] in want and len(e[0]) == 1 + len(ops)
                ex.oblige(q.st, z3.And([y == p[0] for y, p in zip(e[0][1:], ops)]) if good else z3.BoolVal(False), "%s is std::vector's own, on the vector and its operand" % key)
            return post
        verify("V" + elem[0].lower(), "std::vector<%s>" % elem, spec, {"size": 1, "clear": 1, "resize": 1, "push_back": 2, "operator[]": 1, "at": 1}, {"list": None, "valueType": elem})
    vector("int", 4); vector("El", 24)

    def maps(drv, name, w):
        def spec(ex, s, key, ps, ops, res):
            m = ops[0][0]; x = ops[1] if len(ops) > 1 else None
            ex.cm_lib(s, m, w, x[1] if x else None); n = CARD(m); there = z3.ULT(POS(w)(m, x[1]), n) if x else None
            if key == "keys":
                def push(ex, st, vec, src, t, i):
                    ex.cm_lib(st, m, w, None, i); ex.oblige(st, z3.And(vec == res, ex.load_bytes(st, src, w // 8) == KEY(w)(m, i)), "the i-th key listed is the map's i-th key")
                ex.on_push = push
            else: ex.on_push = None
            def post(q):
                if key == "at":
                    nothing(ex, q, key)
                    if q.kind == "ret": ex.oblige(q.st, there, "at returns only for keys of the map"); ex.oblige(q.st, q.val == ELEM(m, POS(w)(m, x[1])) + 8, "at returns the value stored under the key")
                    else: ex.oblige(q.st, z3.And(z3.BoolVal(q.kind == "error"), z3.Not(there)), "at reports an error only for unknown keys (%s %s)" % (q.kind, q.info))
                    return
                if not expect_ret(ex, q, key + " returns"): return
                if key == "operator[]":
                    e = events(q); good = len(e) == 1 and e[0][0] == "index" and e[0][2].size() == x[1].size()
                    ex.oblige(q.st, z3.And(e[0][1] == m, e[0][2] == x[1], q.val == e[0][3]) if good else z3.BoolVal(False), "operator[] is the map's own, on the map and the key"); return
                nothing(ex, q, key)
                if key == "size": ex.oblige(q.st, q.val == n, "size is the number of keys")
                elif key == "count": ex.oblige(q.st, q.val == z3.If(there, bv(1), bv(0)), "count tells whether the key is in the map")
                else: ex.oblige(q.st, ex.vec_size(q.st, res) == n, "every key is listed once"); ex.on_push = None
            return post
        verify(drv, name, spec, {"size": 1, "count": 1, "operator[]": 1, "at": 1, "keys": 1}, {"map": None, "keyType": re.search(r"<(\w+)", name).group(1), "valueType": re.search(r", (\w+)", name).group(1)})
    maps("Mi", "std::map<int, El>", 32); maps("Ml", "std::map<long, int>", 64); maps("Ui", "std::unordered_map<int, El>", 32)

    def smart(drv, name, kind):
        def spec(ex, s, key, ps, ops, res):
            def stored(p): return ex.gget(s, p, "sp.ptr") if kind == "shared" else ex.load_bytes(s, p, 8)
            v = stored(ops[0][0]); u = stored(ops[1][0]) if key == "operator==" else None
            if key == "operator*": s.assume(v != 0)                              # C++'s own precondition
            def post(q):
                if not expect_ret(ex, q, key + " returns"): return
                if key in ("reset", "release"):
                    e = events(q); good = len(e) == 1 and e[0][0] == key
                    want = [p[0] for p in ops] + ([bv(0)] if good and len(e[0]) == 2 + len(ops) else [])
                    ex.oblige(q.st, z3.And([y == p for y, p in zip(e[0][1:], want)] + [z3.BoolVal(len(e[0]) == 1 + len(want))]) if good else z3.BoolVal(False), "%s is the pointer's own" % key)
                    if key == "release": ex.oblige(q.st, q.val == z3.BitVec("released", 64), "release returns the object released")
                    return
                nothing(ex, q, key); r = bits(q.val, 64) if z3.is_bool(q.val) else q.val
                if key in ("get", "operator*"): ex.oblige(q.st, r == v, "%s designates the object held" % key)
                elif key == "operator bool()": ex.oblige(q.st, r == z3.If(v != 0, bv(1, r.size()), bv(0, r.size())), "operator bool tells whether an object is held")
                else: ex.oblige(q.st, r == z3.If(v == u, bv(1, r.size()), bv(0, r.size())), "operator== compares the objects held")
            return post
        verify(drv, name, spec, dict({"get": 1, "operator bool()": 1, "operator*": 1, "operator==": 1, "reset": 2}, **({"release": 1} if kind == "unique" else {})), {"smartPtr": None}, ("std::%s_ptr" % kind, "El"))
    smart("Sp", "std::shared_ptr<El>", "shared"); smart("Up", "std::unique_ptr<El>", "unique")

    def raw(ex, s, key, ps, ops, res):
        o = ops[0][0] if not ps[0].endswith("&") else ex.load_bytes(s, ops[0][0], 8)
        if key == "operator*": s.assume(o != 0)                                  # C++'s own precondition
        def post(q):
            if not expect_ret(ex, q, key + " returns"): return
            nothing(ex, q, key); r = bits(q.val, 64) if z3.is_bool(q.val) else q.val
            if key == "operator*": ex.oblige(q.st, r == o, "operator* designates the object pointed to")
            else: ex.oblige(q.st, r == z3.If(o != 0, bv(1, r.size()), bv(0, r.size())), "operator bool tells whether the pointer is null")
        return post
    verify("Rp", "El*", raw, {"operator bool()": 1, "operator*": 2}, {"primitive": None}, ("*", "El"))

    def string(ex, s, key, ps, ops, res):
        def post(q):
            if expect_ret(ex, q): ex.oblige(q.st, q.val == stl.slen(ex.gget(s, ops[0][0], "str")), "size is the number of characters")
        return post
    verify("Str", "std::string", string, {"size": 1}, {"string": None})

    c.assumptions += COMMON_ASSUMPTIONS + ["iterating over a map visits each of its keys once", "templates are checked at the driver's instantiations (two vectors, three maps, both smart pointers, one raw pointer)",
        "dereferencing an empty smart pointer and operator[] of a vector beyond its size are excluded, as in C++", "the registered constructors and assignments are C25's", "memory allocation succeeds"]
    c.finish(witness=lambda c: std_witness(c, "c22.cpp", repo_srcs=CORE + ("src/types/std/string.cpp",)))


if __name__ == "__main__": main(run, "C22")
