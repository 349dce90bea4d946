"""Contracts on the standard streams and number conversions, and the specification automata of the JSON checks.

The input stream is a ghost byte sequence INB(0..LEN); every byte consumed drives the specification of the JSON lexer
(`Lexer`), a finite automaton written from the grammar, independent of the code under proof; every byte the reader saves
in its token buffer is compared with what the automaton says the decoded token is."""
from common import *
from model import *
import struct

INB = z3.Function("INB", B64, BV(8))
LEN = z3.Const("LEN", B64)
DEC = z3.Function("decimal_value", Str, B64)            # the integer a decimal spelling denotes
RANGE = z3.Function("beyond_int64", Str, z3.BoolSort())  # ... does not fit 64 bits
FLT = z3.Function("float_value", Str, B64)               # the double a spelling denotes (nearest)
HUGE = z3.Function("beyond_double", Str, z3.BoolSort())
B8 = lambda n: z3.BitVecVal(n, 8)
W32 = BV(32)

NoToken, ObjectStart, ObjectEnd, ArrayStart, ArrayEnd, Separator, KeySeparator, String, Int, Float, Bool, Null, EOS = range(13)
(WS, COM, LIT, STR, ESC, HEX1, SUR1, SUR2, HEX2, INT, FRAC, EXPS, EXP, DONE, BAD) = range(15)
QNAMES = "WS COM LIT STR ESC HEX1 SUR1 SUR2 HEX2 INT FRAC EXPS EXP DONE BAD".split()
LITS = [(b"ull", Null), (b"rue", Bool), (b"alse", Bool)]
GH = ["J.q", "J.cnt", "J.acc", "J.hi", "J.u", "J.kind", "J.pn", "J.pend", "J.ok", "J.saved"]


def inr(b, lo, hi): return z3.And(z3.UGE(b, B8(lo)), z3.ULE(b, B8(hi)))
def isin(b, s): return z3.Or([b == B8(x) for x in s])
def digit(b): return inr(b, 0x30, 0x39)
def space(b): return isin(b, b" \t\n\v\f\r")
def hexd(b): return z3.Or(digit(b), inr(b, 0x61, 0x66), inr(b, 0x41, 0x46))
def hexv(b):
    z = z3.ZeroExt(24, b)
    return z3.If(digit(b), z - 0x30, z3.If(inr(b, 0x61, 0x66), z - 0x61 + 10, z - 0x41 + 10))


def ustep(u, b):
    """RFC 3629 as an automaton: 0 between characters, 1..3 that many continuation bytes, 4 E0.., 5 ED.., 6 F0.., 7 F4.., 8 malformed"""
    r = B8(8)
    def case(cond, v):
        nonlocal r
        r = z3.If(cond, B8(v), r)
    for st, lo, hi, nx in ((1, 0x80, 0xBF, 0), (2, 0x80, 0xBF, 1), (3, 0x80, 0xBF, 2), (4, 0xA0, 0xBF, 1), (5, 0x80, 0x9F, 1), (6, 0x90, 0xBF, 2), (7, 0x80, 0x8F, 2)):
        case(z3.And(u == st, inr(b, lo, hi)), nx)
    for lo, hi, nx in ((0, 0x7F, 0), (0xC2, 0xDF, 1), (0xE0, 0xE0, 4), (0xE1, 0xEC, 2), (0xED, 0xED, 5), (0xEE, 0xEF, 2), (0xF0, 0xF0, 6), (0xF1, 0xF3, 3), (0xF4, 0xF4, 7)):
        case(z3.And(u == 0, inr(b, lo, hi)), nx)
    return r


def utf8(code):
    """-> (count, bytes packed little endian in 64 bits) of the UTF-8 encoding of a code point (32 bit term)"""
    c = z3.ZeroExt(32, code)
    def cont(sh): return ((z3.LShR(c, sh)) & 0x3F) | 0x80
    b1 = c
    b2 = (z3.LShR(c, 6) | 0xC0) | (cont(0) << 8)
    b3 = (z3.LShR(c, 12) | 0xE0) | (cont(6) << 8) | (cont(0) << 16)
    b4 = (z3.LShR(c, 18) | 0xF0) | (cont(12) << 8) | (cont(6) << 16) | (cont(0) << 24)
    n = z3.If(z3.ULE(code, 0x7F), B8(1), z3.If(z3.ULE(code, 0x7FF), B8(2), z3.If(z3.ULE(code, 0xFFFF), B8(3), B8(4))))
    return n, z3.If(z3.ULE(code, 0x7F), b1, z3.If(z3.ULE(code, 0x7FF), b2, z3.If(z3.ULE(code, 0xFFFF), b3, b4)))


class Lexer:
    """the specification automaton: pure functions on a state's ghost scalars (no case distinction on the paths)"""
    def __init__(s, ex, comments, unescape, validate): s.ex, s.comments, s.unescape, s.validate = ex, comments, unescape, validate; s.only = None

    def start(s, st):
        st.g.update({"J.q": B8(WS), "J.cnt": B8(0), "J.acc": z3.BitVecVal(0, 32), "J.hi": z3.BitVecVal(0, 32), "J.u": B8(0), "J.kind": B8(EOS), "J.pn": B8(0), "J.pend": bv(0),
                     "J.ok": z3.BoolVal(True), "J.saved": z3.BoolVal(False)})

    def narrow(s, st):
        """the state as a numeral, if the path determines it"""
        ex, v = s.ex, simp(st.g["J.q"])
        if not isnum(v):
            res, sol = ex._check(st.pc, 4000)
            if res == z3.sat:
                m = sol.model().eval(v, model_completion=True)
                if ex.valid(st, v == m, 3000): v = m
        st.g["J.q"] = v
        return num(v) if isnum(v) else None

    def decide(s, st, n=BAD):
        """-> [(state, q)] with the automaton's state a numeral: one per possible value"""
        s.settle(st); ex, v = s.ex, simp(st.g["J.q"])
        if isnum(v): return [(st, num(v))]
        r = []; cur = st.fork()
        for _ in range(n + 2):
            res, sol = ex._check(cur.pc, 4000)
            if res == z3.unsat: break
            if res != z3.sat: raise Unsupported("undecided specification state")
            m = num(sol.model().eval(v, model_completion=True)); st2 = cur.fork(); c = simp(v == m)
            if not ex.valid(cur, c): st2.assume(c)
            st2.g["J.q"] = B8(m); r.append((st2, m))
            if ex.valid(cur, c): break
            cur.assume(z3.Not(c))
        return r

    def emit(s, st, n, packed):
        pn, pend = st.g["J.pn"], st.g["J.pend"]
        n, packed = simp(n), simp(packed)
        if isnum(n) and num(n) == 0: return
        st.g["J.pend"] = simp(pend | (packed << (z3.ZeroExt(56, pn) * 8))); st.g["J.pn"] = simp(pn + n)
        st.g["J.ok"] = simp(z3.And(st.g["J.ok"], z3.Or(n == 0, z3.ULE(pn, B8(4)))))

    def settle(s, st):
        """a complete escape is decoded when the next byte arrives or the outcome is looked at"""
        q = simp(st.g["J.q"]); acc, hi = st.g["J.acc"], st.g["J.hi"]
        if isnum(q) and num(q) not in (HEX1, HEX2): return
        full = simp(z3.UGE(st.g["J.cnt"], 4))
        if s.ex.valid(st, z3.Not(full), 3000): return
        if s.ex.valid(st, full, 3000): full = z3.BoolVal(True)
        high, low = z3.And(z3.UGE(acc, 0xD800), z3.ULE(acc, 0xDBFF)), z3.And(z3.UGE(acc, 0xDC00), z3.ULE(acc, 0xDFFF))
        one, two = simp(z3.And(q == HEX1, full)), simp(z3.And(q == HEX2, full))
        st.g["J.q"] = simp(z3.If(one, z3.If(z3.Not(s.unescape), B8(STR), z3.If(high, B8(SUR1), z3.If(low, B8(BAD), B8(STR)))), z3.If(two, z3.If(low, B8(STR), B8(BAD)), q)))
        st.g["J.hi"] = simp(z3.If(z3.And(one, high), acc, hi))
        n1, p1 = utf8(acc); n2, p2 = utf8(0x10000 + ((hi - 0xD800) << 10) + (acc - 0xDC00))
        e1, e2 = z3.And(one, s.unescape, z3.Not(high), z3.Not(low)), z3.And(two, low)
        s.emit(st, z3.If(e1, n1, z3.If(e2, n2, B8(0))), z3.If(e1, p1, z3.If(e2, p2, bv(0))))

    def now(s, get):
        """the state, a complete escape taken into account"""
        q, acc, full = get("J.q"), get("J.acc"), z3.UGE(get("J.cnt"), 4)
        low, high = z3.And(z3.UGE(acc, 0xDC00), z3.ULE(acc, 0xDFFF)), z3.And(z3.UGE(acc, 0xD800), z3.ULE(acc, 0xDBFF))
        one = z3.If(z3.Not(s.unescape), B8(STR), z3.If(high, B8(SUR1), z3.If(low, B8(BAD), B8(STR))))
        return simp(z3.If(z3.And(q == HEX1, full), one, z3.If(z3.And(q == HEX2, full), z3.If(low, B8(STR), B8(BAD)), q)))

    def digit_ahead(s, p): return z3.And(z3.ULT(p, LEN), digit(INB(p)))

    def delta(s, q, b, p, g):
        """-> [(condition, updates)] of a state, first match; an update names the ghost scalar, `e` is the list of emitted bytes"""
        nx = simp(p + 1); T = z3.BoolVal(True); z32 = lambda n: z3.BitVecVal(n, 32)
        go = lambda c, q2, **u: (c, dict(u, q=B8(q2)))
        bad = [go(T, BAD)]
        if q == WS:
            two = z3.And(z3.ULT(nx, LEN), INB(nx) == B8(0x2F), s.comments)
            return [go(space(b), WS), go(z3.And(b == B8(0x2F), two), COM)] + \
                   [go(b == B8(c), DONE, kind=B8(k)) for c, k in ((0x7B, ObjectStart), (0x7D, ObjectEnd), (0x5B, ArrayStart), (0x5D, ArrayEnd), (0x2C, Separator), (0x3A, KeySeparator))] + \
                   [go(b == B8(0x22), STR, kind=B8(String), u=B8(0)), go(digit(b), INT, e=[b], kind=B8(Int)), go(z3.And(b == B8(0x2D), s.digit_ahead(nx)), INT, e=[b], kind=B8(Int))] + \
                   [go(b == B8(c), LIT, kind=B8(k), acc=z32(i), cnt=B8(0)) for c, k, i in ((0x6E, Null, 0), (0x74, Bool, 1), (0x66, Bool, 2))] + bad
        if q == COM: return [go(b == B8(0x0A), WS), go(T, COM)]
        if q == LIT:
            r = []
            for i, (w, k) in enumerate(LITS):
                for n in range(len(w)): r.append(go(z3.And(g["J.acc"] == i, g["J.cnt"] == n, b == B8(w[n])), DONE if n + 1 == len(w) else LIT, cnt=B8(n + 1)))
            return r + bad
        if q == STR:
            u = g["J.u"]; u2 = ustep(u, b); first = u == 0; w = z3.Or(z3.Not(s.validate), u2 != 8)
            return [go(z3.And(first, b == B8(0x0A)), BAD), go(z3.And(first, b == B8(0x22)), DONE), go(z3.And(first, b == B8(0x5C)), ESC),
                    go(w, STR, e=[b], u=z3.If(s.validate, u2, B8(0)))] + bad
        if q == ESC:
            return [go(b == B8(ord(c)), STR, e=[B8(v)]) for c, v in (('"', 0x22), ("/", 0x2F), ("\\", 0x5C), ("b", 8), ("f", 12), ("n", 10), ("r", 13), ("t", 9))] + \
                   [go(z3.And(b == B8(ord("u")), s.unescape), HEX1, cnt=B8(0), acc=z32(0)), go(b == B8(ord("u")), HEX1, e=[B8(0x5C), B8(ord("u"))], cnt=B8(0), acc=z32(0))] + bad
        if q in (HEX1, HEX2):
            acc, cnt = (g["J.acc"] << 4) | hexv(b), g["J.cnt"] + 1
            return [go(z3.And(hexd(b), s.unescape), q, acc=acc, cnt=cnt), go(hexd(b), q, e=[b], acc=acc, cnt=cnt)] + bad
        if q == SUR1: return [go(b == B8(0x5C), SUR2)] + bad
        if q == SUR2: return [go(b == B8(ord("u")), HEX2, cnt=B8(0), acc=z32(0))] + bad
        e = isin(b, b"eE"); sign = z3.And(z3.ULT(nx, LEN), isin(INB(nx), b"+-")); f = dict(kind=B8(Float))
        if q == INT: return [go(digit(b), INT, e=[b]), go(b == B8(0x2E), FRAC, e=[b], **f), go(z3.And(e, sign), EXPS, e=[b], **f), go(e, EXP, e=[b], **f)] + bad
        if q == FRAC: return [go(digit(b), FRAC, e=[b]), go(z3.And(e, sign), EXPS, e=[b]), go(e, EXP, e=[b])] + bad
        if q == EXPS: return [go(isin(b, b"+-"), EXP, e=[b])] + bad
        if q == EXP: return [go(digit(b), EXP, e=[b])] + bad
        return bad

    def step(s, st, b, p, when=z3.BoolVal(True)):
        """the byte b at position p is consumed (if `when` holds; otherwise nothing happens to the automaton)"""
        ex = s.ex; s.tidy(st); s.narrow(st); s.settle(st); q = s.narrow(st); g = dict(st.g)
        NAMES = ("q", "cnt", "acc", "hi", "u", "kind"); cur = {n: g["J." + n] for n in NAMES}; cur["n"], cur["p"] = B8(0), bv(0)
        def row(k):
            r = None
            for c, u in reversed(s.delta(k, b, p, g)):
                v = {n: u.get(n, cur[n]) for n in NAMES}; e = u.get("e", [])
                v["n"] = B8(len(e)); v["p"] = bv(0)
                for i, x in enumerate(e): v["p"] = v["p"] | (z3.ZeroExt(56, x) << (8 * i))
                r = v if r is None else {n: (v[n] if v[n].eq(r[n]) else z3.If(c, v[n], r[n])) for n in v}
            return r
        if q is not None: r = row(q)
        else:
            r = row(BAD)
            for k in range(BAD):
                w = row(k); r = {n: (w[n] if w[n].eq(r[n]) else z3.If(g["J.q"] == k, w[n], r[n])) for n in w}
        if s.only is not None and q in (None, WS):      # this run covers the tokens that begin in one of these states
            st.assume(simp(z3.Or([z3.Not(when), g["J.q"] != WS] + [r["q"] == k for k in s.only])))
        for n in NAMES: st.g["J." + n] = simp(r[n] if r[n].eq(cur[n]) else z3.If(when, r[n], cur[n]))
        s.emit(st, z3.If(when, r["n"], B8(0)), z3.If(when, r["p"], bv(0)))
        return [st]

    def tidy(s, st):
        """what the path determines about the bytes to be saved"""
        ex = s.ex
        for n, v in (("J.pn", B8(0)), ("J.ok", z3.BoolVal(True))):
            x = simp(st.g[n])
            if not (isnum(x) or z3.is_true(x) or z3.is_false(x)) and ex.valid(st, x == v, 3000): st.g[n] = v
        if isnum(simp(st.g["J.pn"])) and num(simp(st.g["J.pn"])) == 0: st.g["J.pend"] = bv(0)

    def at_eof(s, st, when=z3.BoolVal(True)):
        """a read beyond the last byte"""
        q = st.g["J.q"]; st.g["J.q"] = simp(z3.If(z3.Or(z3.Not(when), q == WS, q == COM), q, B8(BAD)))
        return [st]

    def save(s, st, b):
        pn = simp(st.g["J.pn"])
        if not (isnum(pn) and num(pn)) and not s.ex.valid(st, pn != 0, 3000): s.narrow(st); s.settle(st); s.tidy(st)
        pn, pend = st.g["J.pn"], st.g["J.pend"]
        st.g["J.ok"] = simp(z3.And(st.g["J.ok"], pn != 0, z3.Extract(7, 0, pend) == b)); st.g["J.pn"] = simp(pn - 1); st.g["J.pend"] = simp(z3.LShR(pend, 8)); st.g["J.saved"] = z3.BoolVal(True)
        return [st]

    def extends(s, q, b):
        """whether this byte would belong to the number"""
        e = isin(b, b"eE")
        return {INT: z3.Or(digit(b), b == B8(0x2E), e), FRAC: z3.Or(digit(b), e), EXPS: isin(b, b"+-"), EXP: digit(b)}[q]


class Input:
    """a reader over an arbitrary byte stream"""
    def __init__(s, c, mods):
        s.c, s.mods = c, mods

    def executor(s):
        ex = s.c.executor(s.mods)
        for mo in s.mods:
            for n in ("Reader", "Writer", "Token"):
                g = mo.gvar("drv_sizeof_" + n)
                if g and g["init"]: ex.sizes["reflect::json::" + n] = g["init"][2]
        streams(ex); formats(ex)
        ex.try_unroll = (6, 12)
        ex.solver = lambda: z3.SolverFor("QF_AUFBV")
        ex.ghost_keep = list(GH)
        ex.merge_key, ex.merge_fact = merge_key, lambda f, st: FACTS[f](ex, st)
        return ex


def formats(ex):
    """the text of an error message: any text; its conversions have to fit their arguments"""
    WANT = {"c": ("char", "signed char", "unsigned char", "int", "bool", "unsigned int"), "d": ("int", "char", "bool", "short"), "i": ("int",), "x": ("unsigned int",), "u": ("unsigned int",), "s": ("char const*", "std::string", "char*"),
            "ld": ("long",), "lu": ("unsigned long",), "zu": ("unsigned long",), "lx": ("unsigned long",), "g": ("double",), "f": ("double",)}
    def fmt(ex, st, a, c):
        b = ex.cstr(st, a[1])
        if b is None: raise Unsupported("error message with an unknown format")
        ts = stl.split_params(stl.split_name(c["dem"])[2])[1:]
        dirs = re.findall(rb"%(?:[-+ #0]*[0-9]*(?:\.[0-9]+)?)(hh|h|ll|l|z)?([a-zA-Z%])", b)
        dirs = [(l + k).decode() for l, k in dirs if k != b"%"]
        base = lambda t: re.sub(r"(\s+const)$|^const\s+", "", re.sub(r"\s*&+$", "", t.strip())).strip()
        bt = [re.sub(r"char (const )?\[\d+\]", "char const*", re.sub(r"^char const \(?&?\)? ?\[\d+\]$", "char const*", base(t))) for t in ts]
        bt = ["char const*" if re.match(r"char const (\(&+\) ?)?\[", t) or t == "char const*const" or t == "char const* const" else t for t in bt]
        good = len(dirs) <= len(bt) and all(t in WANT.get(d, ()) for d, t in zip(dirs, bt))
        ex.oblige(st, z3.BoolVal(good), "the arguments of the message `%s` fit its conversions (%s)" % (b.decode("latin-1")[:60], ", ".join(bt)), "ub")
        ex.gset(st, a[0], "str", ex.fresh(Str, "text")); return stl.R(st)
    ex.contract("re:^std::string reflect::errorFormat<", fmt, True, label="reflect::errorFormat (the text is arbitrary)", front=True)


def streams(ex):
    C = lambda n, h: ex.contract(n, h, True, front=True)
    R = stl.R
    J = ex.J = type("J", (), {})()
    J.lex = None; J.buf = None; J.join = False
    noop = lambda ex, st, a, c: R(st)
    def me(st, a): 
        if not simp(a).eq(J.stream): raise Unsupported("a second input stream")
    # input
    def get(ex, st, a, c):
        me(st, a[0]); outs = []
        pos, eof, fail = st.g["J.pos"], st.g["J.eof"], st.g["J.fail"]
        bad = simp(z3.Or(eof, fail)); m1 = z3.BitVecVal(0xffffffff, 32)
        if J.join:
            settled(ex, st); pos, eof, fail = st.g["J.pos"], st.g["J.eof"], st.g["J.fail"]; bad = simp(z3.Or(eof, fail))
            st.assume(z3.ULE(pos, LEN)); ok = simp(z3.And(z3.Not(bad), pos != LEN)); b = INB(pos); st.g["J.okc"] = ok
            st.g["J.pos"] = simp(z3.If(ok, pos + 1, pos)); st.g["J.eof"] = simp(z3.Or(eof, z3.And(z3.Not(fail), pos == LEN))); st.g["J.fail"] = simp(z3.Or(fail, z3.Not(ok)))
            if J.lex: J.lex.step(st, b, pos, ok); J.lex.at_eof(st, z3.Not(ok))
            return R(st, simp(z3.If(ok, z3.ZeroExt(24, b), m1)))
        def end(s, e):
            s.g["J.eof"] = z3.BoolVal(True) if e else s.g["J.eof"]; s.g["J.fail"] = z3.BoolVal(True)
            for t in (J.lex.at_eof(s) if J.lex else [s]): outs.append(Out("ret", t, m1))
        s1 = st.fork(); s1.assume(bad)
        if ex.feasible(s1): end(s1, False)
        s2 = st.fork(); s2.assume(simp(z3.Not(bad))); s2.assume(z3.ULE(pos, LEN)); s3 = s2.fork()
        s2.assume(pos == LEN)
        if ex.feasible(s2): end(s2, True)
        s3.assume(pos != LEN)
        if ex.feasible(s3):
            b = INB(pos); s3.g["J.pos"] = simp(pos + 1)
            for t in (J.lex.step(s3, b, pos) if J.lex else [s3]): outs.append(Out("ret", t, simp(z3.ZeroExt(24, b))))
        return outs
    C("std::istream::get()", get)
    def peek(ex, st, a, c):
        me(st, a[0]); outs = []
        pos, eof, fail = st.g["J.pos"], st.g["J.eof"], st.g["J.fail"]
        bad = simp(z3.Or(eof, fail)); m1 = z3.BitVecVal(0xffffffff, 32)
        if J.join:
            settled(ex, st); pos, eof, fail = st.g["J.pos"], st.g["J.eof"], st.g["J.fail"]; bad = simp(z3.Or(eof, fail))
            st.assume(z3.ULE(pos, LEN))
            st.g["J.eof"] = simp(z3.Or(eof, z3.And(z3.Not(fail), pos == LEN))); st.g["J.fail"] = simp(z3.Or(fail, eof))
            return R(st, simp(z3.If(z3.And(z3.Not(bad), pos != LEN), z3.ZeroExt(24, INB(pos)), m1)))
        s1 = st.fork(); s1.assume(bad)
        if ex.feasible(s1): s1.g["J.fail"] = z3.BoolVal(True); outs.append(Out("ret", s1, m1))
        s2 = st.fork(); s2.assume(simp(z3.Not(bad))); s2.assume(z3.ULE(pos, LEN)); s3 = s2.fork()
        s2.assume(pos == LEN)
        if ex.feasible(s2): s2.g["J.eof"] = z3.BoolVal(True); outs.append(Out("ret", s2, m1))
        s3.assume(pos != LEN)
        if ex.feasible(s3): outs.append(Out("ret", s3, simp(z3.ZeroExt(24, INB(pos)))))
        return outs
    C("std::istream::peek()", peek)
    def iosme(st, a):
        if not simp(a).eq(simp(J.stream + bv(J.vbase))): raise Unsupported("state of another stream")
    def state(f):
        def h(ex, st, a, c): iosme(st, a[0]); return R(st, simp(f(st.g["J.eof"], st.g["J.fail"])))
        return h
    ios = "std::basic_ios<char, std::char_traits<char> >::"
    C(ios + "operator bool() const", state(lambda e, f: z3.Not(f))); C(ios + "operator!() const", state(lambda e, f: f))
    C(ios + "fail() const", state(lambda e, f: f)); C(ios + "eof() const", state(lambda e, f: e)); C(ios + "good() const", state(lambda e, f: z3.And(z3.Not(e), z3.Not(f))))
    C(ios + "bad() const", state(lambda e, f: z3.BoolVal(False)))
    # characters (the classic locale); the argument has to be an unsigned char value or EOF
    def ctype(pred):
        def h(ex, st, a, c):
            x = a[0]; ex.oblige(st, z3.Or(z3.ULE(x, 255), x == 0xffffffff), "characters are classified as unsigned", "ub")
            return R(st, simp(z3.If(z3.And(z3.ULE(x, 255), pred(z3.Extract(7, 0, x))), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))
        return h
    C("isspace", ctype(space)); C("isdigit", ctype(digit)); C("isxdigit", ctype(hexd))
    # messages
    C("re:^std::basic_stringstream<.*::(basic_stringstream|~basic_stringstream)\\(", noop)
    C("re:^std::basic_(o|i)stringstream<.*::(basic_(o|i)stringstream|~basic_(o|i)stringstream)\\(", noop)
    def text(ex, st, a, c): ex.gset(st, a[0], "str", ex.fresh(Str, "text")); return R(st)
    C("re:^std::basic_o?stringstream<.*::str\\(\\) const$", text)
    ret0 = lambda ex, st, a, c: R(st, a[0])
    C("re:^std::(basic_)?ostream(<.*>)?& std::operator<< <", ret0); C("re:^std::basic_ostream<char, std::char_traits<char> >& std::operator<< <", ret0)
    C("re:^std::ostream::operator<<\\(", ret0)
    C("re:^std::logic_error::~?logic_error\\(", noop)
    C("re:^std::logic_error::operator=\\(", ret0)
    C("re:^std::to_string\\(", text)
    # numbers
    def errno(ex, st, a, c): return R(st, J.errno)
    C("__errno_location", errno)
    def text_of(st, p):
        c, d = linear(simp(p))
        for k, t in d.values():
            if k == 1 and t.decl().name() == "sdata": return t.arg(0)
        raise Unsupported("number parsed from an unknown text")
    def fork(ex, st, cond):
        r = []
        for v, c in ((True, cond), (False, z3.Not(cond))):
            s = st.fork(); s.assume(simp(c))
            if ex.feasible(s): r.append((v, s))
        return r
    def strtol(ex, st, a, c):
        v = text_of(st, a[0]); outs = []
        for big, s in fork(ex, st, RANGE(v)):
            if big: ex.store_bytes(s, J.errno, 4, z3.BitVecVal(34, 32)); r = ex.fresh(B64, "saturated"); outs.append(Out("ret", s, r))
            else: outs.append(Out("ret", s, DEC(v)))
        return outs
    C("re:^(__isoc23_)?strtol?l$", strtol)
    INF = bv(0x7ff0000000000000)
    def strtod(ex, st, a, c):
        v = text_of(st, a[0]); outs = []
        for big, s in fork(ex, st, HUGE(v)):
            if big: ex.store_bytes(s, J.errno, 4, z3.BitVecVal(34, 32)); s.assume(FLT(v) & bv(0x7fffffffffffffff) == INF)
            else:
                s.assume(FLT(v) & INF != INF)
                e = ex.fresh(z3.BoolSort(), "inexact"); ex.store_bytes(s, J.errno, 4, simp(z3.If(e, z3.BitVecVal(34, 32), ex.load_bytes(s, J.errno, 4))))
            outs.append(Out("ret", s, FLT(v)))
        return outs
    C("strtod", strtod)
    def wellformed(st, v, kinds):
        """the buffer holds a complete number: a numeral with at least one digit"""
        return J.buf is not None and v.eq(ex.gget(st, J.buf, "str")) and isnum(simp(st.g["J.q"])) and num(simp(st.g["J.q"])) in kinds and ex.valid(st, z3.And(st.g["J.ok"], st.g["J.pn"] == 0))
    def stox(kinds, rng, val):
        def h(ex, st, a, c):
            v = ex.gget(st, a[0], "str"); outs = []
            if not J.number(st, v, kinds): s0 = st.fork(); outs.append(Out("exc", s0, None, "std::invalid_argument"))
            for big, s in fork(ex, st, rng(v)): outs.append(Out("exc", s, None, "std::out_of_range") if big else Out("ret", s, val(v)))
            return outs
        return h
    J.number = wellformed
    TINY = z3.Function("below_double", Str, z3.BoolSort())
    C("re:^std::stol?l\\(", stox((INT,), RANGE, DEC)); C("re:^std::stod\\(", stox((INT, FRAC, EXP, EXPS), lambda v: z3.Or(HUGE(v), TINY(v)), FLT))
    # the token buffer
    prev = {}
    def on_buffer(dem, h):
        def w(ex, st, a, c):
            if J.buf is not None and simp(a[0]).eq(simp(J.buf)): return h(ex, st, a, c)
            for rx, g, tr, lb in ex.regex:
                if g is not w and rx.search(c["dem"]): return g(ex, st, a, c)
            g = ex.exact_prev.get(c["dem"]); return g(ex, st, a, c)
        C(dem, w)
    ex.exact_prev = {"std::string::clear()": ex.exact["std::string::clear()"][0]}
    del ex.exact["std::string::clear()"]
    def push(ex, st, a, c):
        ex.gset(st, a[0], "str", ex.fresh(Str, "buffer"))
        if not J.lex: return R(st)
        return [Out("ret", t, None) for t in J.lex.save(st, a[1])]
    on_buffer("re:^std::string::push_back\\(", push)
    def clear(ex, st, a, c):
        ex.gset(st, a[0], "str", ex.lit(""))
        if J.lex: st.g["J.ok"] = simp(z3.And(st.g["J.ok"], z3.Not(st.g["J.saved"]))) ; st.g["J.cleared"] = z3.BoolVal(True)
        return R(st)
    on_buffer("re:^std::string::clear\\(\\)$", clear)


def settled(ex, st):
    """if the path tells that the last byte was read, the ghosts say so"""
    ok = st.g.get("J.okc")
    if ok is None or z3.is_true(ok) or z3.is_false(ok): return
    for v, c in ((True, ok), (False, z3.Not(ok))):
        if ex.valid(st, c, 3000):
            for n in list(st.g):
                if n.startswith("J.") and z3.is_expr(st.g[n]): st.g[n] = simp(z3.substitute(st.g[n], (ok, z3.BoolVal(v))))
            st.g["J.okc"] = z3.BoolVal(v)
            if v and not z3.is_false(simp(st.g["J.fail"])) and ex.valid(st, z3.Not(st.g["J.fail"]), 3000): st.g["J.fail"] = z3.BoolVal(False)
            if v and not z3.is_false(simp(st.g["J.eof"])) and ex.valid(st, z3.Not(st.g["J.eof"]), 3000): st.g["J.eof"] = z3.BoolVal(False)
            return


def fpclass(ex):
    orig = ex.intrinsic
    def h(F, n, st, a, I):
        if n.startswith("llvm.is.fpclass.f64"):
            m = num(simp(a[1])); x = a[0]; INF = bv(0x7ff0000000000000)
            if m == 516: return [Out("ret", st, simp(x & bv(0x7fffffffffffffff) == INF))]
            if m == 3: return [Out("ret", st, simp(z3.UGT(x & bv(0x7fffffffffffffff), INF)))]
            if m == 504: return [Out("ret", st, simp(x & INF != INF))]
        return orig(F, n, st, a, I)
    ex.intrinsic = h


def first_error(ex):
    """the reader's error is written only while there is none: the first one is kept"""
    def assign(ex, st, a, c):
        d = st.regions[getattr(ex.J, "rid", None)] if hasattr(ex.J, "flag") else None
        if d is not None and isnum(simp(a[0] - bv(d.base))) and num(simp(a[0] - bv(d.base))) < ex.sizes["reflect::json::Reader"]: ex.oblige(st, z3.Not(failed(ex, st)), "the first error is kept")
        return stl.R(st, a[0])
    ex.contract("re:^std::logic_error::operator=\\(", assign, True, label="std::logic_error::operator=", front=True)


def new_reader(ex, st, opts, fresh_pos=True):
    """a reader made by its own constructor over an arbitrary stream, then moved to an arbitrary place of it"""
    J = ex.J
    vt = ex.new_region(st, 64, "const0", None, "vtable"); J.vbase = 16
    st.wregion(vt.rid).cells[0] = (8, bv(J.vbase))
    s = ex.new_region(st, 512, "alloca", None, "stream"); ex.store_bytes(st, s.addr, 8, simp(vt.addr + bv(24))); J.stream = s.addr
    e = ex.new_region(st, 4, "alloca", None, "errno"); ex.store_bytes(st, e.addr, 4, z3.Const("errno0", W32)); J.errno = e.addr
    r = ex.new_region(st, ex.sizes["reflect::json::Reader"], "alloca", None, "reader")
    lex, J.lex = J.lex, None
    st.g.update({"J.pos": z3.Const("pos0", B64), "J.eof": z3.Const("eof0", z3.BoolSort()), "J.fail": z3.Const("fail0", z3.BoolSort()), "J.cleared": z3.BoolVal(False), "J.okc": z3.BoolVal(True)})
    st.assume(z3.ULE(st.g["J.pos"], LEN)); st.assume(z3.ULT(LEN, bv(1 << 40))); st.assume(z3.Implies(st.g["J.eof"], st.g["J.pos"] == LEN))
    def run(name, s_, *a):
        names = ex.find(re.compile("^%s\\(" % name)); mod, nm = ex.find_def(names[0]); ex.mute += 1
        try: outs = [o for o in ex.run(mod.func(nm), s_, list(a)) if ex.feasible(o.st)]
        finally: ex.mute -= 1
        if len(outs) != 1 or outs[0].kind != "ret": raise Unsupported("%s has %d outcomes" % (name, len(outs)))
        return outs[0]
    J.run = run
    st = run("drv_reader", st, r.addr, s.addr, opts).st
    # the position and the line: whatever they are
    w = st.wregion(r.rid)
    for off, (sz, v) in list(w.cells.items()):
        if sz == 8 and isnum(simp(v)) and num(simp(v)) == 1: w.cells[off] = (8, z3.Const("reader@%d" % off, B64))
    for n in ("drv_pos", "drv_line"):
        v = run(n, st.fork(), r.addr).val
        if isnum(simp(v)): raise Unsupported("the reader's place is not arbitrary")
        st.assume(z3.ULT(v, bv(1 << 62)))
    J.buf = simp(run("drv_buffer", st.fork(), r.addr).val); ex.gset(st, J.buf, "str", z3.Const("buffer0", Str))
    # the cell that says whether there is an error
    a = run("drv_readerError", st.fork(), r.addr).st
    diff = [o for o in a.regions[r.rid].cells if a.regions[r.rid].cells[o] != st.regions[r.rid].cells.get(o) and not a.regions[r.rid].cells[o][1].eq(st.regions[r.rid].cells.get(o, (0, bv(0)))[1])]
    one = [o for o in diff if a.regions[r.rid].cells[o][0] == 1]
    if len(one) != 1: raise Unsupported("the reader's error flag is not found: %s" % diff)
    J.flag = one[0]; J.reader = r.addr; J.rid = r.rid; J.lex = lex
    return st


def become(st, other):
    """the set-up state st becomes the state some set-up code ended in"""
    for n in State.__slots__: setattr(st, n, getattr(other, n))


def failed(ex, st):
    sz, v = st.regions[ex.J.rid].cells[ex.J.flag]
    return simp((v if v.size() == 8 else z3.Extract(7, 0, v)) != 0)


FACTS = {"eof at end": lambda ex, st: z3.Implies(st.g["J.eof"], st.g["J.pos"] == LEN), "fail at end": lambda ex, st: z3.Implies(st.g["J.fail"], st.g["J.eof"]), "within": lambda ex, st: z3.ULE(st.g["J.pos"], LEN),
         "failed": lambda ex, st: failed(ex, st), "end": lambda ex, st: st.g["J.fail"], "dead": lambda ex, st: z3.Not(alive(ex, st)), "rejected": lambda ex, st: st.g["J.q"] == BAD,
         "between": lambda ex, st: z3.Or(st.g["J.q"] == BAD, st.g["J.q"] == WS, st.g["J.q"] == COM)}


def merge_key(ex, st):
    if "J.q" in st.g and ex.J.lex is not None: settled(ex, st)
    return merge_key_(ex, st)


def merge_key_(ex, st):
    """paths on which the reader is usable are joined when the automaton is in the same state; those on which it is not are all alike"""
    if "J.q" not in st.g or ex.J.lex is None: return None
    if ex.valid(st, z3.Not(failed(ex, st)), 3000):
        q = ex.J.lex.narrow(st); f = st.g["J.fail"]
        f = True if ex.valid(st, f, 3000) else False if ex.valid(st, z3.Not(f), 3000) else None
        return None if q is None else (("no error", f, q), None)
    if ex.valid(st, failed(ex, st), 3000):
        q = ex.J.lex.narrow(st)
        if q is None: return None
        if q != BAD: return ("error", q), None
        return ("error",), [f for f in FACTS if ex.valid(st, FACTS[f](ex, st), 3000)]
    return None


def alive(ex, st): return simp(z3.And(z3.Not(failed(ex, st)), z3.Not(st.g["J.fail"])))


def cases(ex, st, cands, init):
    """a loop's iteration begins with a reader that is usable, or with one that is not"""
    if "J.q" not in st.g or ex.J.lex is None: return [st]
    out = []
    for s, v in split(ex, st, alive(ex, st)):
        for n in GH:
            if "%s unchanged" % n in cands or (v and "alive: %s unchanged" % n in cands): s.g[n] = init.g[n]
        if v:
            sz, old = s.regions[ex.J.rid].cells[ex.J.flag]
            s.wregion(ex.J.rid).cells[ex.J.flag] = (sz, z3.BitVecVal(0, old.size())) if sz == 1 else (sz, old)
            s.g["J.fail"] = z3.BoolVal(False)
        out.append(s)
    return out


def hints(ex):
    """candidate invariants: while the reader is usable the automaton is in the state it had when the loop was entered, or
    mirrors the code's own counters; once it is not, the automaton has rejected the input"""
    def hint(ctx):
        out = []
        gl = [l for l in ctx.locs if l[0] == "g" and l[1] in GH]
        others = [l for l in ctx.locs if l[0] in ("phi", "cell")]
        fl = [l for l in ctx.locs if l[0] == "cell" and l[1] == ex.J.rid and l[2] == ex.J.flag]
        for l in fl:
            v0 = ctx.init(l)
            out.append(("error flag is a truth value", lambda k, get, st, l=l: z3.ULE(get(l), 1)))
            out.append(("an error is kept", lambda k, get, st, l=l, v0=v0: z3.Implies(v0 != 0, get(l) != 0)))
            out.append(("no error", lambda k, get, st, l=l: get(l) == 0))
        if ("g", "J.fail") in ctx.locs: f0 = ctx.init(("g", "J.fail")); out.append(("a failed stream is kept", lambda k, get, st: z3.Implies(f0, get(("g", "J.fail")))))
        if ("g", "J.pos") in ctx.locs:
            out.append(("the end is at the end", lambda k, get, st: z3.Implies(get(("g", "J.eof")), get(("g", "J.pos")) == LEN)))
            out.append(("fails at the end only", lambda k, get, st: z3.Implies(get(("g", "J.fail")), get(("g", "J.eof")))))
            out.append(("within the input", lambda k, get, st: z3.ULE(get(("g", "J.pos")), LEN)))
        def now(get): return ex.J.lex.now(lambda n: get(("g", n)))
        out.append(("errors: rejected", lambda k, get, st: z3.Implies(failed(ex, st), now(get) == BAD)))
        out.append(("rejected: errors", lambda k, get, st: z3.Implies(now(get) == BAD, failed(ex, st))))
        out.append(("rejected: dead", lambda k, get, st: z3.Implies(now(get) == BAD, z3.Not(alive(ex, st)))))
        out.append(("dead: rejected or between tokens", lambda k, get, st: z3.Or(alive(ex, st), now(get) == BAD, get(("g", "J.q")) == WS, get(("g", "J.q")) == COM)))
        out.append(("dead: rejected", lambda k, get, st: z3.Or(alive(ex, st), now(get) == BAD)))
        for l in gl:
            v0 = ctx.init(l)
            out.append(("%s unchanged" % l[1], lambda k, get, st, l=l, v0=v0: get(l) == v0))
            out.append(("alive: %s unchanged" % l[1], lambda k, get, st, l=l, v0=v0: z3.Implies(alive(ex, st), get(l) == v0)))
            if not z3.is_bv(v0) or l[1] not in ("J.cnt", "J.acc"): continue
            for m in others:
                if m not in ctx.locs: continue
                w = ctx.init(m)
                if not z3.is_bv(w) or w.size() not in (8, 32, 64): continue
                def eq(k, get, st, l=l, m=m):
                    x, y = get(l), get(m)
                    n = max(x.size(), y.size())
                    x = z3.ZeroExt(n - x.size(), x) if n > x.size() else x; y = z3.ZeroExt(n - y.size(), y) if n > y.size() else y
                    return z3.Implies(alive(ex, st), x == y)
                out.append(("alive: %s == %s" % (l[1], m), eq))
        return out
    ex.loop_hints.append(hint)


def token_of(ex, o):
    """-> (state, address) of a returned token, put into memory"""
    t = ex.new_region(o.st, ex.sizes["reflect::json::Token"], "alloca", None, "token")
    off = 0
    for v in o.val:
        n = v.size() // 8; off = (off + n - 1) // n * n
        ex.store_bytes(o.st, simp(t.addr + bv(off)), n, v); off += n
    return t.addr


def split(ex, st, cond):
    """-> [(state, whether cond holds)]"""
    out = []
    for v, cc in ((True, cond), (False, z3.Not(cond))):
        s = st.fork(); s.assume(simp(cc))
        if ex.feasible(s): out.append((s, v))
    return out


JSON_SRCS = ("src/utils/json/json.cpp",) + CORE + ("src/types/std/string.cpp",)


def json_witness(c, src, **kw):
    """build and run a JSON witness program (the parsers are made once and never freed, by design)"""
    return std_witness(c, src, repo_srcs=JSON_SRCS, flags=["-Wl,--allow-multiple-definition"], env=dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66"), **kw)
