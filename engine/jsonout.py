"""Contracts on output streams and the specification automaton of printed JSON structures."""
from jsonspec import *
from stl import sdata

# where the output is: nothing yet, after the opening bracket, after an entry, after a comma, after a key, after its colon, closed, malformed
(NOTHING, OPENED, ENTRY, COMMA, KEY, COLON, CLOSED, WRONG) = range(8)


SPELL = z3.Function("decimal_spelling", B64, Str)     # of an integer, as printf("%ld") gives it
SAT = z3.Function("sat", Str, B64, BV(8))            # the bytes of a text
BYTE = z3.Function("byte_of_text", Str, B64, BV(8))


def literal(ex, txt, n=None):
    """the bytes of a text term that is a literal"""
    for b, t in ex.lits.items():
        if t.eq(txt): return b
    return None


def ostreams(ex):
    C = lambda n, h: ex.contract(n, h, True, front=True)
    R = stl.R
    J = ex.J; J.out = None; J.calm = False; J.texts = []
    def me(a):
        if not simp(a).eq(simp(J.stream)): raise Unsupported("a second output stream")
    def sink(st, data):
        """the bytes are written, or the stream fails"""
        if J.out is not None: 
            for b in data: J.out.byte(ex, st, b)
        if not J.calm: st.g["J.fail"] = simp(z3.Or(st.g["J.fail"], ex.fresh(z3.BoolSort(), "writefails")))
    def put(ex, st, a, c): me(a[0]); sink(st, [simp(a[1])]); return R(st, a[0])
    C("std::ostream::put(char)", put)
    def write(ex, st, a, c):
        me(a[0]); n = simp(a[2])
        txt = next((t.arg(0) for k, t in linear(simp(a[1]))[1].values() if k == 1 and t.decl().name() == "sdata"), None)
        if txt is not None:
            if not ex.valid(st, z3.And(a[1] == stl.sdata(txt), n == slen(txt))): raise Unsupported("a part of a text is written")
            b = literal(ex, txt)
            if b is None:
                if J.out is None or not J.out.text(ex, st, txt): raise Unsupported("an arbitrary text is written")
                st.g["J.fail"] = simp(z3.Or(st.g["J.fail"], ex.fresh(z3.BoolSort(), "writefails"))); return R(st, a[0])
            sink(st, [B8(x) for x in b]); return R(st, a[0])
        if not isnum(n):
            for t, arr, at in reversed(J.texts):    # the text of a number, as it was formatted
                L = ex.locate(st, simp(a[1]))
                if not (z3.is_bv(n) and ex.valid(st, n == slen(t), 3000)) or L[0] != "r" or st.regions[L[1]].arr is None: continue
                j = ex.fresh(B64, "j"); cur = z3.Select(st.regions[L[1]].arr, bv(L[2]) + j)
                if ex.valid(st, z3.Implies(z3.And(z3.ULT(j, n), z3.Select(arr, bv(at) + j) == BYTE(t, j)), cur == BYTE(t, j)), 3000):
                    if J.out is None or not J.out.text(ex, st, t): raise Unsupported("a number is written")
                    if not J.calm: st.g["J.fail"] = simp(z3.Or(st.g["J.fail"], ex.fresh(z3.BoolSort(), "writefails")))
                    return R(st, a[0])
            for k in range(1, 17):
                if ex.valid(st, n == k, 3000): n = bv(k); break
        if not isnum(n) or num(n) > 64: raise Unsupported("a write of unknown length")
        sink(st, [simp(ex.load_bytes(st, simp(a[1] + bv(i)), 1)) for i in range(num(n))]); return R(st, a[0])
    C("std::ostream::write(char const*, long)", write)
    C("__cxa_atexit", lambda ex, st, a, c: R(st, z3.BitVecVal(0, 32)))
    def resize(ex, st, a, c):
        n, sz = simp(a[1]), ex.gget(st, a[0], "vec.size")
        if not isnum(n) or not ex.valid(st, sz == 0): raise Unsupported("resize of a buffer")
        r = ex.new_region(st, num(n), "heap", None, "buffer")
        for i in range(num(n)): st.wregion(r.rid).cells[i] = (1, B8(0))
        ex.gset(st, a[0], "vec.data", r.addr); ex.gset(st, a[0], "vec.size", n); return R(st)
    def snprintf(ex, st, a, c):
        """one conversion of an integer or a double: the text the C library gives it"""
        f = ex.cstr(st, a[2]); n = simp(a[1])
        m = re.match(rb"^([^%]*)%(0?)(\d*)(?:\.(\d+))?(l{0,2})([dxXg])$", f or b"")
        if not m or not isnum(n): raise Unsupported("snprintf(%r)" % f)
        pre, zero, width, prec, lng, conv = m.groups(); v = simp(a[3]); w = int(width or 0)
        L = ex.locate(st, simp(a[0]))
        if L[0] != "r": raise Unsupported("formatting into an unknown buffer")
        r = st.wregion(L[1]); ex.oblige(st, z3.BoolVal(r.size is None or L[2] + num(n) <= r.size), "the formatted text fits the buffer", "ub")
        if conv in b"dg":
            ex.oblige(st, z3.BoolVal(v.size() == (64 if lng or conv == b"g" else 32)), "the argument fits the conversion", "ub")
            if pre or w > 1: raise Unsupported("snprintf(%r)" % f)
            x = v if v.size() == 64 else z3.SignExt(32, v)
            t, most = (SPELL(x), 20) if conv == b"d" else (z3.Function("double_text_%s" % (prec or b"6").decode(), B64, Str)(x), (24 if int(prec or 6) <= 17 else None))
            if most is None or num(n) <= most: raise Unsupported("a small buffer")
            st.assume(z3.And(z3.UGE(slen(t), 1), z3.ULE(slen(t), most)))
            arr = z3.Const("text!%d" % next(ex.fresh_n), z3.ArraySort(B64, BV(8))); r.arr, r.cells = arr, {}
            J.texts.append((t, arr, L[2])); return R(st, z3.Extract(31, 0, slen(t)))
        v = z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
        ex.oblige(st, z3.BoolVal(simp(a[3]).size() == (64 if lng else 32)), "the argument fits the conversion", "ub")
        if w and not zero: raise Unsupported("snprintf(%r)" % f)
        k = next((k for k in range(1, 17) if ex.valid(st, z3.And(z3.ULT(v, bv(1 << 4 * k)) if k < 16 else z3.BoolVal(True), z3.BoolVal(k <= w) if k < w else z3.Or(z3.BoolVal(k <= w), z3.UGE(v, bv(1 << 4 * (k - 1))))), 3000)), None)
        if k is None: raise Unsupported("a number of unknown width")
        k = max(k, w); base = 0x61 if conv == b"x" else 0x41; out = [B8(b) for b in pre]
        for i in reversed(range(k)):
            d = z3.Extract(7, 0, z3.LShR(v, 4 * i)) & 15; out.append(simp(z3.If(z3.ULT(d, 10), d + 0x30, d + (base - 10))))
        if len(out) >= num(n): raise Unsupported("a small buffer")
        for i, b in enumerate(out + [B8(0)]): ex.store_bytes(st, simp(a[0] + bv(i)), 1, b)
        return R(st, z3.BitVecVal(len(out), 32))
    C("snprintf", snprintf)
    def to_string(ex, st, a, c):
        """the decimal spelling of a 32 or 64 bit integer"""
        v = simp(a[1]); un = "unsigned" in c["dem"]; v = v if v.size() == 64 else z3.ZeroExt(32, v) if un else z3.SignExt(32, v)
        t = z3.Function("unsigned_spelling", B64, Str)(v) if un and a[1].size() == 64 else SPELL(v)
        st.assume(z3.And(z3.UGE(slen(t), 1), z3.ULE(slen(t), 20))); ex.gset(st, a[0], "str", t); return R(st)
    C("re:^std::(__cxx11::)?to_string\\((int|long|long long|unsigned int|unsigned long|unsigned long long)\\)$", to_string)
    C("re:^std::vector<char, std::allocator<char> >::resize\\(unsigned long\\)$", resize)


def new_writer(ex, st, opts):
    """a writer made by its own constructor over an arbitrary output stream, at an arbitrary depth, usable or not"""
    J = ex.J
    vt = ex.new_region(st, 64, "const0", None, "vtable"); J.vbase = 16
    st.wregion(vt.rid).cells[0] = (8, bv(J.vbase))
    s = ex.new_region(st, 512, "alloca", None, "stream"); ex.store_bytes(st, s.addr, 8, simp(vt.addr + bv(24))); J.stream = s.addr
    r = ex.new_region(st, ex.sizes["reflect::json::Writer"], "alloca", None, "writer")
    out, J.out = J.out, None
    st.g.update({"J.eof": z3.BoolVal(False), "J.fail": z3.Const("fail0", z3.BoolSort())})
    def run(name, s_, *a):
        names = ex.find(re.compile("^%s\\(" % name)); mod, nm = ex.find_def(names[0]); ex.mute += 1
        try: outs = [o for o in ex.run(mod.func(nm), s_, list(a)) if ex.feasible(o.st)]
        finally: ex.mute -= 1
        if len(outs) != 1 or outs[0].kind != "ret": raise Unsupported("%s has %d outcomes" % (name, len(outs)))
        return outs[0]
    J.run = run
    st = run("drv_writer", st, r.addr, s.addr, opts).st
    def cell(fn, size, *a):
        """the one cell of the writer that an operation changes"""
        t = run(fn, st.fork(), r.addr, *a).st
        old, new = st.regions[r.rid].cells, t.regions[r.rid].cells
        d = [o for o in new if new[o][0] == size and (o not in old or not new[o][1].eq(old[o][1]))]
        if len(d) != 1: raise Unsupported("%s changes the cells %s" % (fn, d))
        return d[0]
    J.flag, J.depth = cell("drv_writerError", 1), cell("drv_indent", 8)
    J.writer, J.reader, J.rid, J.out = r.addr, r.addr, r.rid, out
    w = st.wregion(r.rid)
    w.cells[J.flag] = (1, z3.Const("failed0", BV(8))); st.assume(z3.ULE(z3.Const("failed0", BV(8)), 1))
    w.cells[J.depth] = (8, z3.Const("depth0", B64)); st.assume(z3.ULT(z3.Const("depth0", B64), bv(1 << 40)))
    return st


def depth(ex, st): return st.regions[ex.J.rid].cells[ex.J.depth][1]


def may_fail(ex, st, name="callee"):
    """an operation on the writer may leave it in an error or its stream failed"""
    J = ex.J; w = st.wregion(J.rid); sz, v = w.cells[J.flag]
    e = ex.fresh(z3.BoolSort(), name + "fails")
    w.cells[J.flag] = (sz, simp(z3.If(e, z3.BitVecVal(1, v.size()), v)))
    st.g["J.fail"] = simp(z3.Or(st.g["J.fail"], ex.fresh(z3.BoolSort(), "writefails")))


class Printed:
    """an array (or object) of n entries, of which those that are skipped are left out"""
    def __init__(s, ex, st, opening, closing, pretty, n, text=None):
        s.open, s.close, s.pretty, s.n, s.text_of, s.is_object = ord(opening), ord(closing), pretty, n, text, text is not None
        s.SKIP = z3.Function("skipped", Str if s.is_object else B64, z3.BoolSort()); s.R = z3.Function("first_unskipped", B64, B64)
        st.g.update({"O.q": B8(NOTHING), "O.i": bv(0)})

    def skip(s, i): return s.SKIP(s.text_of(i)) if s.is_object else s.SKIP(i)
    def defs(s, i):
        """the first entry from i on that is not skipped"""
        return z3.And(s.R(i) == z3.If(z3.UGE(i, s.n), s.n, z3.If(s.skip(i), s.R(i + 1), i)), z3.ULE(s.R(i), s.n))

    def set(s, ex, st, name, v): st.g[name] = simp(z3.If(alive(ex, st), v, st.g[name]))

    def byte(s, ex, st, b):
        q = st.g["O.q"]; ws = z3.And(s.pretty, z3.Or(b == B8(0x20), b == B8(0x0A)))
        def case(t, *alts):
            r = B8(WRONG)
            for c, v in reversed(alts): r = z3.If(c, B8(v), r)
            return r
        t = {NOTHING: case(0, (b == B8(s.open), OPENED)), OPENED: case(0, (ws, OPENED), (b == B8(s.close), CLOSED)), ENTRY: case(0, (ws, ENTRY), (b == B8(0x2C), COMMA), (b == B8(s.close), CLOSED)),
             COMMA: case(0, (ws, COMMA)), KEY: case(0, (ws, KEY), (b == B8(0x3A), COLON)), COLON: case(0, (ws, COLON))}
        r = B8(WRONG)
        for k, v in t.items(): r = z3.If(q == k, v, r)
        r = simp(r)
        if z3.is_true(simp(r == WRONG)) or ex.feasible(st, z3.And(alive(ex, st), r == WRONG)):
            ex.oblige(st, z3.Implies(alive(ex, st), r != WRONG), "every byte written is the bracket, comma, colon or (when pretty) white space that belongs there")
        s.set(ex, st, "O.q", r)

    def key(s, ex, st, txt):
        q = st.g["O.q"]; st.assume(s.defs(st.g["O.i"])); a = alive(ex, st); nx = s.R(st.g["O.i"])
        ex.oblige(st, z3.Implies(a, z3.And(z3.Or(q == OPENED, q == COMMA), z3.ULT(nx, s.n))), "a key follows the opening bracket or a comma")
        ex.oblige(st, z3.Implies(a, txt == s.text_of(nx)), "the key written is the one of the next entry that is not skipped")
        s.set(ex, st, "O.q", B8(KEY))

    def entry(s, ex, st, i=None, txt=None):
        q = st.g["O.q"]; st.assume(s.defs(st.g["O.i"])); a = alive(ex, st); nx = s.R(st.g["O.i"])
        ex.oblige(st, z3.Implies(a, q == COLON if s.is_object else z3.Or(q == OPENED, q == COMMA)), "an entry is written where one belongs")
        ex.oblige(st, z3.Implies(a, z3.And(z3.ULT(nx, s.n), txt == s.text_of(nx) if s.is_object else i == nx)), "the entry written is the next one that is not skipped")
        s.set(ex, st, "O.q", B8(ENTRY)); s.set(ex, st, "O.i", simp(nx + 1))

    def asked(s, ex, st, i):
        st.assume(s.defs(i)); st.assume(s.defs(st.g["O.i"])); return simp(s.skip(i))

    def complete(s, ex, st):
        ex.oblige(st, st.g["O.q"] == CLOSED, "the closing bracket is written last")
        st.assume(s.defs(st.g["O.i"])); ex.oblige(st, s.R(st.g["O.i"]) == s.n, "every entry that is not skipped is written")

    def text(s, ex, st, txt): return False

    def hint(s, ex):
        def h(ctx):
            out = []; A = lambda st: alive(ex, st)
            g = lambda get, n: get(("g", n))
            ctx.fact(lambda k: s.defs(k)); ctx.fact(lambda k: s.defs(k - 1))
            for l in [x for x in ctx.locs if x[0] == "g" and x[1].startswith("O.")]:
                v0 = ctx.init(l); out.append(("%s unchanged" % l[1], lambda k, get, st, l=l, v0=v0: z3.Implies(A(st), get(l) == v0)))
            d0 = depth(ex, ctx.st); f0, e0 = failed(ex, ctx.st), ctx.st.g["J.fail"]
            out.append(("an error is kept", lambda k, get, st: z3.Implies(f0, failed(ex, st)))); out.append(("a failed stream is kept", lambda k, get, st: z3.Implies(e0, st.g["J.fail"])))
            out.append(("the depth is unchanged", lambda k, get, st: z3.Implies(A(st), depth(ex, st) == d0)))
            out.append(("between entries", lambda k, get, st: z3.Implies(A(st), z3.Or(g(get, "O.q") == OPENED, g(get, "O.q") == ENTRY))))
            out.append(("nothing is written before the first entry", lambda k, get, st: z3.Implies(A(st), (g(get, "O.q") == OPENED) == (g(get, "O.i") == 0))))
            out.append(("the first entry comes first", lambda k, get, st: z3.Implies(z3.And(A(st), k == 0), g(get, "O.q") == OPENED)))
            out.append(("an entry was written", lambda k, get, st: z3.Implies(z3.And(A(st), k != 0), g(get, "O.q") == ENTRY)))
            out.append(("within the entries", lambda k, get, st: z3.ULE(k, s.n)))
            out.append(("the next entry", lambda k, get, st: z3.Implies(A(st), z3.And(s.R(k) == s.R(g(get, "O.i")), z3.ULE(g(get, "O.i"), k)))))
            for l in ctx.locs:
                if l[0] not in ("phi", "cell"): continue
                v0 = ctx.init(l)
                if z3.is_bv(v0) and v0.size() == 64:
                    def nx(k, get, st, l=l): st.assume(s.defs(get(l))); return z3.Implies(A(st), z3.And(s.R(get(l)) == s.R(g(get, "O.i")), z3.ULE(g(get, "O.i"), get(l)), z3.ULE(get(l), s.n)))
                    out.append(("the next entry from %s" % (l,), nx))
                if z3.is_bv(v0) and v0.size() >= 32:
                    out.append(("%s is zero at the first entry only" % (l,), lambda k, get, st, l=l: z3.Implies(A(st), (get(l) == 0) == (g(get, "O.q") == OPENED))))
                    out.append(("%s counts entries" % (l,), lambda k, get, st, l=l, w=v0.size(): z3.Implies(A(st), z3.ULE(z3.ZeroExt(64 - w, get(l)) if w < 64 else get(l), g(get, "O.i")))))
                if z3.is_bv(v0) and v0.size() <= 32:
                    out.append(("%s is a flag" % (l,), lambda k, get, st, l=l: z3.ULE(get(l), 1)))
                    for v in (0, 1):
                        out.append(("%s tells the first entry (%d)" % (l, v), lambda k, get, st, l=l, v=v: z3.Implies(A(st), (get(l) == v) == (g(get, "O.q") == OPENED))))
                if z3.is_bool(v0):
                    for v in (0, 1): out.append(("%s tells the first entry (%d)" % (l, v), lambda k, get, st, l=l, v=v: z3.Implies(A(st), (get(l) == z3.BoolVal(bool(v))) == (g(get, "O.q") == OPENED))))
            return out
        ex.loop_hints.append(h)


class Spelled:
    """the bytes written are one given text"""
    def __init__(s, st, same): s.same = same; st.g["O.n"] = bv(0)
    def byte(s, ex, st, b): raise Unsupported("a number is written byte by byte")
    def text(s, ex, st, t):
        a = alive(ex, st)
        ex.oblige(st, z3.Implies(a, z3.And(s.same(t), st.g["O.n"] == 0)), "the number is written once, as it is spelled")
        st.g["O.n"] = simp(z3.If(a, st.g["O.n"] + 1, st.g["O.n"])); return True


class Decoded:
    """what is printed is a JSON string: read by the specification automaton of strings it gives the bytes of a text"""
    def __init__(s, ex, st, txt, escaping, checking, wellformed, unescape, validate):
        s.txt, s.n, s.escaping, s.checking, s.wellformed = txt, slen(txt), escaping, checking, wellformed
        s.lex = Lexer(ex, z3.BoolVal(False), unescape, validate); s.lex.start(st)
        for n in ("J.saved",): st.g.pop(n)
        st.g.update({"C.p": bv(0), "C.u": B8(0)})
        s.ascii = True
    def VB(s, ex, st, i): return SAT(s.txt, simp(i))
    def bad(s, ex, st, p=None, u=None):
        """the text isn't well-formed UTF-8, as its next few bytes show"""
        p = st.g["C.p"] if p is None else p; u = st.g["C.u"] if u is None else u; r = u == 8
        for _ in range(4):
            r = z3.Or(r, z3.And(p == s.n, u != 0)); u = z3.If(z3.ULT(p, s.n), ustep(u, s.VB(ex, st, p)), u); p = z3.If(z3.ULT(p, s.n), p + 1, p); r = z3.Or(r, u == 8)
        return r
    def byte(s, ex, st, b):
        if not ex.valid(st, alive(ex, st), 3000):
            if ex.valid(st, z3.Not(alive(ex, st)), 3000): return
            raise Unsupported("a write by a writer that may be in an error")
        if s.escaping: ex.oblige(st, z3.ULT(b, 0x80), "an escaped printout is plain ASCII")
        if s.wellformed: st.assume(z3.Not(s.bad(ex, st)))
        s.lex.step(st, b, bv(0)); s.drain(ex, st)
    def drain(s, ex, st):
        s.lex.tidy(st); s.lex.settle(st); s.lex.narrow(st); pn, pend, p, u = simp(st.g["J.pn"]), st.g["J.pend"], st.g["C.p"], st.g["C.u"]
        if not isnum(pn):
            for k in range(5):
                if ex.valid(st, pn == k, 3000): pn = B8(k); break
        for k in range(num(pn) if isnum(pn) else 4):
            w = z3.BoolVal(True) if isnum(pn) else z3.ULT(B8(k), pn); e = simp(z3.Extract(8 * k + 7, 8 * k, pend))
            ex.oblige(st, z3.Implies(w, z3.And(z3.ULT(p + k, s.n), e == s.VB(ex, st, p + k))), "what is printed reads back as the bytes of the text")
            u = z3.If(w, ustep(u, s.VB(ex, st, p + k)), u)
        ex.oblige(st, z3.ULE(pn, 4), "what is printed reads back byte by byte"); st.g["C.p"] = simp(p + z3.ZeroExt(56, pn)); st.g["C.u"] = simp(u); st.g["J.pn"] = B8(0); st.g["J.pend"] = bv(0)
    def text(s, ex, st, t): return False
    def cases(s, ex, st, cands, init):
        """an iteration begins with a usable writer or with one in an error"""
        out = []
        for t, a in split(ex, st, alive(ex, st)):
            sz, v = t.regions[ex.J.rid].cells[ex.J.flag]; t.wregion(ex.J.rid).cells[ex.J.flag] = (sz, z3.BitVecVal(0 if a else 1, v.size()))
            if a:
                if "inside the string" in cands: t.g["J.q"] = B8(STR)
                if "between characters" in cands: t.g["C.u"] = B8(0)
                if "the reader checks along" in cands: t.g["J.u"] = t.g["C.u"]
            out.append(t)
        return out
    def hint(s, ex):
        ex.loop_cases = s.cases
        def h(ctx):
            out = []; A = lambda st: alive(ex, st); gl = [l for l in ctx.locs if l[0] == "g"]; g = lambda get, st, n: get(("g", n)) if ("g", n) in ctx.locs else st.g[n]
            f0 = failed(ex, ctx.st)
            out.append(("an error is kept", lambda k, get, st: z3.Implies(f0, failed(ex, st))))
            out.append(("no error", lambda k, get, st: z3.Not(failed(ex, st))))
            out.append(("errors: malformed", lambda k, get, st: z3.Implies(failed(ex, st), s.bad(ex, st))))
            out.append(("inside the string", lambda k, get, st: z3.Implies(A(st), g(get, st, "J.q") == STR)))
            out.append(("between characters", lambda k, get, st: z3.Implies(A(st), g(get, st, "C.u") == 0)))
            out.append(("the reader checks along", lambda k, get, st: z3.Implies(A(st), g(get, st, "J.u") == g(get, st, "C.u"))))
            out.append(("the reader doesn't check", lambda k, get, st: g(get, st, "J.u") == 0))
            out.append(("within the text", lambda k, get, st: z3.ULE(g(get, st, "C.p"), s.n)))
            for l in gl:
                if l[1] in ("J.fail",): continue
                v0 = ctx.init(l); out.append(("%s unchanged" % l[1], lambda k, get, st, l=l, v0=v0: get(l) == v0))
            for l in ctx.locs:
                if l[0] not in ("phi", "cell"): continue
                v0 = ctx.init(l)
                if z3.is_bv(v0) and v0.size() in (32, 64):
                    x = lambda get, l=l, w=v0.size(): z3.ZeroExt(64 - w, get(l)) if w < 64 else get(l)
                    out.append(("%s is printed up to" % (l,), lambda k, get, st, x=x: z3.Implies(A(st), g(get, st, "C.p") == x(get))))
                    out.append(("%s is in the text" % (l,), lambda k, get, st, x=x: z3.ULE(x(get), s.n)))
                    if v0.size() == 64:
                        out.append(("%s points to what is printed next" % (l,), lambda k, get, st, x=x: z3.Implies(A(st), g(get, st, "C.p") + sdata(s.txt) == x(get))))
                        out.append(("%s points into the text" % (l,), lambda k, get, st, x=x: z3.ULE(x(get) - sdata(s.txt), s.n)))
            return out
        ex.loop_hints.append(h)
