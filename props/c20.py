#!/usr/bin/env python3-vt
"""C20: JSON arrays and objects are visited element by element, in order; skipping consumes one complete value."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from common import *
from model import *
from jsonspec import *

RD = "reflect::json::Reader"
NEXT = "reflect::json::details::nextToken(reflect::json::Reader&)"
TEXTUAL = (String, Int, Float)
TT = z3.Function("token", B64, W32)             # the kind of the i-th token of the input
TXT = z3.Function("tokenText", B64, Str)        # ... its text (strings, numbers)
VAL = z3.Function("tokenBool", B64, z3.BoolSort())
# the grammar, by recursive definitions over the token sequence: END(i) is the index after the value that starts at i, EEND/MEND after the rest of
# an array/object whose next element/entry starts at i; OK.. whether it is well-formed
END, EEND, MEND = [z3.Function(n, B64, B64) for n in ("endOfValue", "endOfElements", "endOfEntries")]
OK, EOK, MOK = [z3.Function(n, B64, z3.BoolSort()) for n in ("valueAt", "elementsAt", "entriesAt")]


def kinds(i): return z3.And(z3.UGE(TT(i), 1), z3.ULE(TT(i), EOS))


def grammar(i):
    """the definitions at i"""
    t = lambda j: TT(simp(j)); e = END(i); m = END(i + 2)
    scalar = z3.Or([t(i) == k for k in (Null, Bool, Int, Float, String)])
    key = z3.And(t(i) == String, t(i + 1) == KeySeparator)
    return z3.And(
        END(i) == z3.If(t(i) == ArrayStart, z3.If(t(i + 1) == ArrayEnd, i + 2, EEND(i + 1)), z3.If(t(i) == ObjectStart, z3.If(t(i + 1) == ObjectEnd, i + 2, MEND(i + 1)), i + 1)),
        OK(i) == z3.If(t(i) == ArrayStart, z3.Or(t(i + 1) == ArrayEnd, EOK(i + 1)), z3.If(t(i) == ObjectStart, z3.Or(t(i + 1) == ObjectEnd, MOK(i + 1)), scalar)),
        EEND(i) == z3.If(z3.And(OK(i), t(e) == Separator), EEND(e + 1), e + 1), EOK(i) == z3.And(OK(i), z3.Or(t(e) == ArrayEnd, z3.And(t(e) == Separator, EOK(e + 1)))),
        MEND(i) == z3.If(z3.And(key, OK(i + 2), t(m) == Separator), MEND(m + 1), m + 1), MOK(i) == z3.And(key, OK(i + 2), z3.Or(t(m) == ObjectEnd, z3.And(t(m) == Separator, MOK(m + 1)))))


def run(c):
    mods = c.compile([REPO + "/src/utils/json/json.cpp", VERIF + "/drivers/json.cpp"])

    def make(ex, st, kind, boolv=None, text=False):
        """a token of the code's own making, as returned"""
        n = "drv_makeToken" + ("String" if text else "Bool" if boolv is not None else "")
        args = [kind] + ([ex.J.buf] if text else [boolv] if boolv is not None else [])
        names = ex.find(re.compile("^%s\\(" % n)); mod, nm = ex.find_def(names[0]); ex.mute += 1
        try: return [(o.st, o.val) for o in ex.run(mod.func(nm), st, args) if ex.feasible(o.st)]
        finally: ex.mute -= 1

    def trouble(ex, st, maybe=None):
        """an error is recorded or the stream fails (or neither); nothing is cleared"""
        w = st.wregion(ex.J.rid); sz, v = w.cells[ex.J.flag]
        e = ex.fresh(z3.BoolSort(), "error")
        w.cells[ex.J.flag] = (sz, simp(z3.If(e, z3.BitVecVal(1, v.size()), v)))
        f = ex.fresh(z3.BoolSort(), "fails"); st.g["J.fail"] = simp(z3.Or(st.g["J.fail"], f))
        if "T.bad" in st.g: st.g["T.bad"] = simp(z3.Or(st.g["T.bad"], e, f))

    def read(ex, st, pos="T.raw"):
        """the next token of the input: [(state, kind)]; what C16 proves of details::nextToken"""
        out = []
        for s, ok in split(ex, st, alive(ex, st)):
            if not ok: out.append((s, z3.BitVecVal(EOS, 32), None)); continue
            i = s.g[pos]; s.g[pos] = simp(i + 1); k = TT(i); trouble(ex, s); s.assume(z3.And(z3.UGE(k, 1), z3.ULE(k, EOS), z3.ULT(i + 1, bv(1 << 61))))
            s.assume(z3.Implies(k == EOS, z3.Not(alive(ex, s))))
            text = simp(z3.Or([k == t for t in TEXTUAL]))
            for s2, tx in split(ex, s, text):
                if tx: ex.gset(s2, ex.J.buf, "str", TXT(i)); out.append((s2, k, "text")); continue
                if ex.feasible(s2, failed(ex, s2)): s2.assume(z3.BoolVal(True))
                for s3, b in split(ex, s2, k == Bool): out.append((s3, k, VAL(i) if b else None))
        return out

    def executor(high):
        ex = Input(c, mods).executor(); fpclass(ex)
        ex.try_unroll, ex.merge_key, ex.solver = None, None, z3.Solver
        ex.ghost_keep = ["J.fail"] + (["T.c", "T.pk", "T.calls", "T.at", "T.bad"] if high else ["T.raw"])
        del_ = lambda s, x: [Out("ret", s2, v) for s2, v in x]
        def give(ex, st, k, what):
            if isinstance(what, str): r = make(ex, st, k, text=True)
            elif what is None: r = make(ex, st, k)
            else: r = [x for s2, b in split(ex, st, what) for x in make(ex, s2, k, z3.BoolVal(b))]
            return [Out("ret", s2, v) for s2, v in r]
        if not high:
            def nexttok(ex, st, a, c_):
                if not simp(a[0]).eq(simp(ex.J.reader)): raise Unsupported("another reader")
                return [o for s, k, w in read(ex, st) for o in give(ex, s, k, w)]
            ex.contract(NEXT, nexttok, False, label="details::nextToken gives the next token of the input, or fails (C16)")
            return ex
        # the reader, one token ahead: T.c tokens have been consumed, T.pk is the kind of the next one if it was looked at
        def ahead(ex, st, consume):
            pk, i = st.g["T.pk"], st.g["T.c"]; held = simp(pk != NoToken); r = simp(z3.And(z3.Not(held), alive(ex, st)))
            e, f = ex.fresh(z3.BoolSort(), "error"), ex.fresh(z3.BoolSort(), "fails")
            w = st.wregion(ex.J.rid); sz, v = w.cells[ex.J.flag]; w.cells[ex.J.flag] = (sz, simp(z3.If(z3.And(r, e), z3.BitVecVal(1, v.size()), v)))
            st.g["J.fail"] = simp(z3.Or(st.g["J.fail"], z3.And(r, f))); st.g["T.bad"] = simp(z3.Or(st.g["T.bad"], z3.And(r, z3.Or(e, f))))
            k = simp(z3.If(held, pk, z3.If(r, TT(i), z3.BitVecVal(EOS, 32)))); text = simp(z3.Or([k == t for t in TEXTUAL]))
            st.assume(z3.Implies(r, z3.And(kinds(i), z3.Implies(k == EOS, z3.Not(alive(ex, st)))))); st.assume(z3.ULT(i + 1, bv(1 << 61)))
            ex.gset(st, ex.J.buf, "str", simp(z3.If(z3.And(r, text), TXT(i), ex.gget(st, ex.J.buf, "str"))))
            if consume: st.g["T.pk"] = z3.BitVecVal(NoToken, 32); st.g["T.c"] = simp(z3.If(z3.Or(r, z3.And(held, pk == TT(i))), i + 1, i))
            else: st.g["T.pk"] = k
            one = lambda *a, **kw: make(ex, st.fork(), k, *a, **kw)[0][1]
            join = lambda c, x, y: tuple(p if p.eq(q) else simp(z3.If(c, p, q)) for p, q in zip(x, y))
            return [Out("ret", st, join(text, one(text=True), join(k == Bool, join(VAL(i), one(z3.BoolVal(True)), one(z3.BoolVal(False))), one())))]
        def peek(ex, st, a, c_): return ahead(ex, st, False)
        def nxt(ex, st, a, c_): return ahead(ex, st, True)
        ex.contract(RD + "::peekToken()", peek, False); ex.contract(RD + "::nextToken()", nxt, False)
        return ex
    return executor, read, make, trouble


def wellformed(ex, st):
    """the token looked at is the next one, or there is none because the reader is dead"""
    pk, i = st.g["T.pk"], st.g["T.c"]
    return z3.And(z3.ULT(i, bv(1 << 61)), z3.ULE(pk, EOS), z3.Or(pk == NoToken, pk == TT(i), z3.And(pk == EOS, z3.Not(alive(ex, st)))),
                  z3.Implies(z3.Or([pk == k for k in TEXTUAL]), ex.gget(st, ex.J.buf, "str") == TXT(i)))




def check(c):
    executor, read, make, trouble = run(c)

    # ---- the reader: one token of look-ahead --------------------------------------------------------------------------------
    def base(ex, st0):
        o = z3.Const("options", W32); st0.assume(z3.ULE(o, 7)); st0.g["T.raw"] = z3.Const("raw0", B64)
        st = new_reader(ex, st0, o)
        sz, v = st.regions[ex.J.rid].cells[ex.J.flag]
        st.wregion(ex.J.rid).cells[ex.J.flag] = (sz, z3.Const("failed0", BV(sz * 8))); st.assume(z3.ULE(z3.Const("failed0", BV(sz * 8)), 1))
        return st

    def reads(ex, pre, o, what):
        """the outcome o of an operation on the reader in state pre is that of reading the next token"""
        if not expect_ret(ex, o, "%s returns" % what): return
        s = o.st; ty = kind_of(ex, o)
        raw = pre.g["T.raw"]
        ex.oblige(s, z3.Implies(failed(ex, pre), failed(ex, s)), "%s: an error is not cleared" % what)
        for s, d in split(ex, s, simp(z3.Not(alive(ex, pre)))):
            if d: ex.oblige(s, ty == EOS, "%s: a reader in an error gives no more tokens" % what); ex.oblige(s, s.g["T.raw"] == raw, "%s: a reader in an error reads nothing" % what)
            else: ex.oblige(s, ty == TT(raw), "%s: the next token of the input is given" % what); ex.oblige(s, s.g["T.raw"] == raw + 1, "%s: one token is read" % what)

    def kind_of(ex, o):
        s = o.st.fork(); t = token_of(ex, Out("ret", s, o.val)); return ex.J.run("drv_type", s, t).val

    def again(ex, st, op):
        """the outcomes of one more operation, its obligations included"""
        names = ex.find(RD + "::" + op + "Token()"); mod, nm = ex.find_def(names[0])
        return [o for o in ex.run(mod.func(nm), st.fork(), [ex.J.reader]) if ex.feasible(o.st)]

    def given(ex, first, pre, o, what):
        """the outcome o is the token looked at before"""
        if not expect_ret(ex, o, "%s returns" % what): return
        s = o.st
        ex.oblige(s, z3.And([x == y for x, y in zip(first.val, o.val)]), "%s: the token that was looked at is given" % what)
        ex.oblige(s, z3.And(s.g["T.raw"] == pre.g["T.raw"], failed(ex, s) == failed(ex, pre), s.g["J.fail"] == pre.g["J.fail"]), "%s: nothing is read and nothing fails" % what)

    def cells(ex, st): return {o: v for o, (sz, v) in st.regions[ex.J.rid].cells.items() if o != ex.J.flag}

    for op in ("next", "peek"):
        ex = executor(False)
        def setup(ex, st0, op=op):
            st = base(ex, st0); become(st0, st); pre = st.fork(); c0 = cells(ex, pre)
            def unchanged(s, what):
                now = cells(ex, s)
                ex.oblige(s, z3.And([v == now[k] if k in now and v.size() == now[k].size() else z3.BoolVal(False) for k, v in c0.items()]), what + ": the reader looks no further ahead")
            def post(o):
                reads(ex, pre, o, op)
                if o.kind != "ret": return
                if op == "next": unchanged(o.st, op); return
                mid = o.st.fork()
                for o2 in again(ex, mid, "peek"): given(ex, o, mid, o2, "a second peek")
                for o2 in again(ex, mid, "next"):
                    given(ex, o, mid, o2, "a read after a peek")
                    if o2.kind == "ret": unchanged(o2.st, "a read after a peek")
            return [ex.J.reader], post
        c.verify(ex, RD + "::" + op + "Token()", setup)


    # ---- arrays and objects --------------------------------------------------------------------------------------------------
    def cursor(ex, st0):
        o = z3.Const("options", W32); st0.assume(z3.ULE(o, 7))
        c0 = z3.Const("cursor0", B64)
        st0.g.update({"T.c": c0, "T.pk": z3.Const("peeked0", W32), "T.calls": bv(0), "T.at": c0, "T.bad": z3.BoolVal(False)})
        st = base(ex, st0); ex.gset(st, ex.J.buf, "str", ex.fresh(Str, "buffer")); st.assume(wellformed(ex, st)); st.assume(kinds(c0)); st.assume(kinds(c0 + 1))
        return st, c0

    class Walk:
        """what a handler may be called for, and what may be returned"""
        def __init__(s, ex, c0, obj): s.ex, s.c0, s.obj = ex, c0, obj; s.START, s.END = (ObjectStart, ObjectEnd) if obj else (ArrayStart, ArrayEnd)
        def none(s): return z3.Or(TT(s.c0) == Null, z3.And(TT(s.c0) == s.START, TT(s.c0 + 1) == s.END))
        def entry(s, st):
            """the index of the element or entry the next handler call is for, and whether it may be made"""
            first = st.g["T.calls"] == 0; at = st.g["T.at"]
            e = simp(z3.If(first, s.c0 + 1, at + 1))
            return e, z3.If(first, z3.And(TT(s.c0) == s.START, TT(s.c0 + 1) != s.END), TT(at) == Separator)
        def called(s, st, i=None, txt=None):
            ex = s.ex; e, ready = s.entry(st); what = "the handler is called: "
            ex.oblige(st, alive(ex, st), what + "only without an error"); ex.oblige(st, ready, what + "after the opening bracket or a comma")
            if s.obj:
                ex.oblige(st, z3.And(TT(e) == String, TT(e + 1) == KeySeparator, st.g["T.c"] == e + 2), what + "after the key and the colon, which are consumed")
                ex.oblige(st, txt == TXT(e), what + "with the entry's key")
            else: ex.oblige(st, st.g["T.c"] == e, what + "at the element"); ex.oblige(st, i == st.g["T.calls"], what + "with the element's index")
            ex.oblige(st, z3.Or(st.g["T.pk"] == NoToken, st.g["T.pk"] == TT(st.g["T.c"])), what + "no other token than the next one was looked at")
        def missing(s, st):
            """the text breaks off the form of an array or object at the place reached"""
            e, ready = s.entry(st); at, first = st.g["T.at"], st.g["T.calls"] == 0
            b = z3.If(first, z3.And(TT(s.c0) != Null, TT(s.c0) != s.START), z3.And(TT(at) != s.END, TT(at) != Separator))
            if s.obj: b = z3.Or(b, z3.And(ready, z3.Or(TT(e) != String, TT(e + 1) != KeySeparator)))
            return b
        def returned(s, pre, o):
            ex = s.ex
            if not expect_ret(ex, o): return
            st = o.st; first = st.g["T.calls"] == 0; at, cur = st.g["T.at"], st.g["T.c"]
            ex.oblige(st, z3.Implies(failed(ex, pre), failed(ex, st)), "an error is not cleared")
            for st, a in split(ex, st, alive(ex, pre)):
                if not a: ex.oblige(st, st.g["T.calls"] == 0, "no handler is called by a reader in an error"); continue
                ok0 = z3.And(s.none(), cur == z3.If(TT(s.c0) == Null, s.c0 + 1, s.c0 + 2)); ok1 = z3.And(TT(at) == s.END, cur == at + 1)
                ex.oblige(st, z3.Implies(z3.Not(failed(ex, st)), z3.And(z3.If(first, ok0, ok1), st.g["T.pk"] == NoToken)), "without an error, the whole array or object was read: every element's handler was called, up to the closing bracket")
                ex.oblige(st, z3.Or(z3.Not(failed(ex, st)), st.g["T.bad"], s.missing(st)), "an error is reported for a reason: a token, the handler, or something missing")
                ex.oblige(st, z3.Implies(z3.And(s.missing(st), z3.Not(st.g["T.bad"])), failed(ex, st)), "a missing comma, colon, key or bracket is an error")
        def hint(s, ctx):
            ex = s.ex; out = []; A = lambda st: alive(ex, st); G = lambda st, n: st.g[n]
            f0, e0 = failed(ex, ctx.st), ctx.st.g["J.fail"]; dead0 = z3.Not(s.alive0)
            out.append(("no calls by a reader in an error", lambda k, get, st: z3.Implies(dead0, G(st, "T.calls") == 0)))
            out.append(("an error is kept", lambda k, get, st: z3.Implies(f0, failed(ex, st)))); out.append(("a failed stream is kept", lambda k, get, st: z3.Implies(e0, st.g["J.fail"])))
            out.append(("something goes wrong for a reason", lambda k, get, st: z3.Or(dead0, A(st), st.g["T.bad"], s.missing(st))))
            out.append(("what is missing was reported", lambda k, get, st: z3.Implies(z3.And(z3.Not(st.g["T.bad"]), s.missing(st)), failed(ex, st)) if not s.obj else z3.BoolVal(True)))
            out.append(("it started with a bracket", lambda k, get, st: z3.And(TT(s.c0) == s.START)))
            out.append(("it is not empty", lambda k, get, st: TT(s.c0 + 1) != s.END))
            out.append(("errors have reasons", lambda k, get, st: z3.Implies(z3.Not(A(st)), z3.Or(dead0, st.g["T.bad"], z3.And(G(st, "T.calls") != 0, TT(G(st, "T.at")) != Separator, TT(G(st, "T.at")) != s.END)))))
            out.append(("the error flag is a flag", lambda k, get, st: z3.ULE(st.regions[ex.J.rid].cells[ex.J.flag][1], 1)))
            out.append(("wellformed", lambda k, get, st: wellformed(ex, st)))
            def ready(k, get, st): e, r = s.entry(st); return z3.Implies(A(st), z3.And(r, st.g["T.c"] == e, z3.Or(st.g["T.pk"] == NoToken, st.g["T.pk"] == TT(e))))
            out.append(("at an element", ready))
            out.append(("the calls are counted", lambda k, get, st: k == G(st, "T.calls")))
            for l in ctx.locs:
                if l[0] in ("phi", "cell") and z3.is_bv(ctx.init(l)) and ctx.init(l).size() == 64: out.append(("%s counts the calls" % (l,), lambda k, get, st, l=l: get(l) == G(st, "T.calls")))
            return out

    def handled(ex, st, a, c_):
        w = ex.J.walk; T = stl.split_params(stl.split_name(c_["dem"])[2])[0]
        if T == "unsigned long": w.called(st, i=simp(a[1]))
        else: w.called(st, txt=ex.gget(st, a[1], "str"))
        trouble(ex, st); ex.gset(st, ex.J.buf, "str", ex.fresh(Str, "buffer"))
        st.g.update({"T.c": ex.fresh(B64, "cursor"), "T.pk": ex.fresh(W32, "peeked"), "T.calls": simp(st.g["T.calls"] + 1)}); st.g["T.at"] = st.g["T.c"]
        st.assume(wellformed(ex, st)); st.assume(kinds(st.g["T.c"])); st.assume(z3.ULT(st.g["T.calls"] - 1, bv(1 << 61))); return stl.R(st)

    for dem, obj in (("void reflect::json::parseArray<OnItem>(reflect::json::Reader&, OnItem const&)", False), ("void reflect::json::parseObject<OnField>(reflect::json::Reader&, OnField const&)", True)):
        ex = executor(True)
        ex.contract("OnItem::operator()(unsigned long) const", handled, True, label="the handler does anything with the reader"); ex.contract("OnField::operator()(std::string const&) const", handled, True, label="the handler does anything with the reader")
        def setup(ex, st0, obj=obj):
            st, c0 = cursor(ex, st0); ex.J.walk = Walk(ex, c0, obj); ex.loop_hints.append(ex.J.walk.hint); h = ex.new_region(st, 1, "alloca", None, "handler")
            pre = st.fork(); ex.J.walk.alive0 = alive(ex, pre); become(st0, st)
            return [ex.J.reader, h.addr], lambda o: ex.J.walk.returned(pre, o)
        c.verify(ex, dem, setup)


    # ---- skip ----------------------------------------------------------------------------------------------------------------
    def skipped(ex, st, c0, bad0):
        """a reader that was usable and still is has consumed exactly one well-formed value; an error has a reason"""
        bad = st.g["T.bad"]
        return [("it consumed exactly one value", z3.Implies(z3.Not(failed(ex, st)), z3.And(OK(c0), st.g["T.c"] == END(c0), st.g["T.pk"] == NoToken))),
                ("what isn't a value is an error", z3.Or(bad, OK(c0), failed(ex, st))), ("an error has a reason", z3.Or(bad, z3.Not(OK(c0)), alive(ex, st)))]

    ex = executor(True); c0 = z3.Const("cursor0", B64); G = [c0, c0 + 1]
    SKIP = "reflect::json::skip(reflect::json::Reader&)"
    def recursive(ex, st, a, c_):
        out = []; at, bad0 = st.g["T.c"], st.g["T.bad"]
        for s, ok in split(ex, st, alive(ex, st)):
            if not ok: out += [Out("ret", x, None) for x, _ in [(s, None)]]; trouble(ex, s); s.g["T.pk"] = ex.fresh(W32, "peeked"); s.g["T.c"] = ex.fresh(B64, "cursor"); s.assume(wellformed(ex, s)); s.assume(z3.Not(alive(ex, s))); continue
            s.assume(grammar(at)); s.g["T.bad"] = z3.BoolVal(False); trouble(ex, s)
            s.g["T.pk"] = ex.fresh(W32, "peeked"); s.g["T.c"] = ex.fresh(B64, "cursor"); ex.gset(s, ex.J.buf, "str", ex.fresh(Str, "buffer")); s.assume(wellformed(ex, s))
            # here 'trouble' stands for an error of any kind; whether it had another reason than the text is not said
            s.g["T.bad"] = ex.fresh(z3.BoolSort(), "bad")
            for _, f in skipped(ex, s, at, bad0): s.assume(f)
            s.g["T.bad"] = simp(z3.Or(bad0, s.g["T.bad"])); s.assume(kinds(s.g["T.c"])); s.assume(kinds(s.g["T.c"] + 1)); s.assume(kinds(s.g["T.c"] + 2))
            out.append(Out("ret", s, None))
        return out
    ex.contract(SKIP, recursive, True)
    def hint(ctx):
        A = lambda st: alive(ex, st); out = []
        f0, e0 = failed(ex, ctx.st), ctx.st.g["J.fail"]
        out.append(("an error is kept", lambda k, get, st: z3.Implies(f0, failed(ex, st)))); out.append(("a failed stream is kept", lambda k, get, st: z3.Implies(e0, st.g["J.fail"])))
        out.append(("the error flag is a flag", lambda k, get, st: z3.ULE(st.regions[ex.J.rid].cells[ex.J.flag][1], 1)))
        out.append(("wellformed", lambda k, get, st: wellformed(ex, st)))
        out.append(("nothing else was looked at", lambda k, get, st: z3.Implies(A(st), z3.Or(st.g["T.pk"] == NoToken, st.g["T.pk"] == TT(st.g["T.c"])))))
        out.append(("errors have reasons", lambda k, get, st: z3.Or(z3.Not(ex.J.alive0), A(st), st.g["T.bad"], z3.Not(OK(c0)))))
        out.append(("what isn't a value is an error", lambda k, get, st: z3.Or(z3.Not(ex.J.alive0), A(st), st.g["T.bad"], failed(ex, st))))
        for n, e, o in (("elements", EEND, EOK), ("entries", MEND, MOK)):
            def inside(k, get, st, e=e, o=o): st.assume(grammar(st.g["T.c"])); return z3.Implies(A(st), z3.And(END(c0) == e(st.g["T.c"]), OK(c0) == o(st.g["T.c"])))
            out.append(("the rest are " + n, inside))
        return out
    ex.loop_hints.append(hint)
    def setup(ex, st0):
        st, _ = cursor(ex, st0); st.assume(grammar(c0)); st.assume(grammar(c0 + 1)); st.assume(kinds(c0 + 2)); pre = st.fork(); ex.J.alive0 = alive(ex, pre); become(st0, st)
        def post(o):
            if not expect_ret(ex, o): return
            s = o.st; ex.oblige(s, z3.Implies(failed(ex, pre), failed(ex, s)), "an error is not cleared")
            for s, a in split(ex, s, alive(ex, pre)):
                if not a: ex.oblige(s, z3.Not(alive(ex, s)), "an unusable reader stays so"); continue
                for n, f in skipped(ex, s, c0, None): ex.oblige(s, f, n)
        return [ex.J.reader], post
    c.verify(ex, SKIP, setup)


    c.assumptions += COMMON_ASSUMPTIONS + [
        "details::nextToken: a usable reader gets the next token of the input, recording an error or not; one in an error gets EOS and consumes nothing; the end of the input leaves the reader unusable; tokens without text leave the text of the previous one alone (proved in C16)",
        "fewer than 2^61 tokens and handler calls; handlers only use the reader through its operations",
        "the recursive definition of the grammar over the tokens of one (finite) input"]
    c.finish(witness=None if os.environ.get("NOW") else lambda c: json_witness(c, "c20.cpp"))


if __name__ == "__main__": main(check, "C20")
