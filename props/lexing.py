"""details::nextToken against the specification automaton of the JSON lexer (jsonspec.Lexer), shared by C15 (strings), C16 (malformed text)
and C17 (numbers).  One run per class of tokens; together they cover every byte a token can begin with and every reader option."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *
from jsonspec import *

NEXT = "reflect::json::details::nextToken(reflect::json::Reader&)"
NUMBER = (INT, FRAC, EXPS, EXP)


def lexer_setup(ex, st, opts=None):
    """an arbitrary usable or unusable reader at an arbitrary place of an arbitrary input, with the specification automaton at its start"""
    o = z3.Const("options", W32) if opts is None else opts
    st.assume(z3.ULE(o, 7))
    bit = lambda n: simp(z3.Extract(n, n, o) == 1)
    ex.J.lex = lex = Lexer(ex, bit(0), bit(1), bit(2))
    lex.start(st); st = new_reader(ex, st, o)
    sz, v = st.regions[ex.J.rid].cells[ex.J.flag]
    st.wregion(ex.J.rid).cells[ex.J.flag] = (sz, z3.Const("failed0", BV(8))); st.assume(z3.ULE(z3.Const("failed0", BV(8)), 1))
    return st, lex


def read_as(ex, s, tok, name, what):
    """the outcome of an accessor of the token: its value"""
    names = ex.find(re.compile("^reflect::json::Token::%s\\(" % name)); mod, nm = ex.find_def(names[0])
    outs = [o for o in ex.run(mod.func(nm), s.fork(), [tok]) if ex.feasible(o.st)]
    for o in outs: expect_ret(ex, o, "%s: %s returns" % (what, name))
    return [o for o in outs if o.kind == "ret"]


def token_content(ex, s, tok, q):
    """the text and the value of a complete token"""
    lex, k = ex.J.lex, simp(s.g["J.kind"])
    kept = z3.And(s.g["J.ok"], s.g["J.pn"] == 0)
    text = ex.gget(s, ex.J.buf, "str")
    if q in NUMBER:
        ex.oblige(s, kept, "the text of a number is its spelling (%s)" % QNAMES[q])
        for o in read_as(ex, s, tok, "asFloat", "a number"): ex.oblige(o.st, o.val == FLT(text), "a number's value is the double its text denotes (%s)" % QNAMES[q])
        if q == INT:
            for o in read_as(ex, s, tok, "asInt", "an integer"): ex.oblige(o.st, z3.And(o.val == DEC(text), z3.Not(RANGE(text))), "an integer's value is the one its text denotes, and it fits 64 bits")
        return
    for kk in (String, Bool):
        for s1, yes in split(ex, s, k == kk):
            if not yes: continue
            if kk == String:
                ex.oblige(s1, kept, "the text of a string is its content, decoded"); ex.oblige(s1, s1.g["J.cleared"], "the text of a string starts anew")
                for o in read_as(ex, s1, tok, "asString", "a string"): ex.oblige(o.st, o.val == ex.J.buf, "a string's value is its text")
            else:
                for s2, t in split(ex, s1, s1.g["J.acc"] == 1):
                    for o in read_as(ex, s2, tok, "asBool", "a boolean"): ex.oblige(o.st, z3.Extract(0, 0, o.val) == (1 if t else 0) if z3.is_bv(o.val) else o.val == z3.BoolVal(t), "a boolean's value is its literal's")


def verify_lexing(c, I, classes):
    def nexttoken(ex, st0, only, opts):
        st, lex = lexer_setup(ex, st0, opts); lex.only = only
        pre = st.fork(); become(st0, st)
        def post(o):
            if not expect_ret(ex, o, "the tokenizer returns"): return
            tok = token_of(ex, o); dead0 = simp(z3.Not(alive(ex, pre)))
            ty = ex.J.run("drv_type", o.st.fork(), tok).val
            for s, isdead in split(ex, o.st, dead0):
                if isdead:
                    ex.oblige(s, ty == EOS, "a reader that is in an error gives no more tokens")
                    ex.oblige(s, s.g["J.pos"] == pre.g["J.pos"], "a reader that is in an error consumes nothing")
                    ex.oblige(s, z3.Implies(failed(ex, pre), failed(ex, s)), "an error is not cleared")
                    continue
                for s, q in lex.decide(s):
                    for s, e in split(ex, s, failed(ex, s)):
                        if e:
                            bad = [z3.BoolVal(q == BAD)]
                            if q in (INT,): bad.append(RANGE(ex.gget(s, ex.J.buf, "str")))
                            if q in (FRAC, EXPS, EXP): bad.append(HUGE(ex.gget(s, ex.J.buf, "str")))
                            ex.oblige(s, z3.Or(bad), "an error is reported only for a malformed token or a number out of range (%s)" % QNAMES[q])
                            continue
                        for s, f in split(ex, s, ty == EOS):
                            if f:
                                if q == BAD: ex.oblige(s, z3.BoolVal(False), "a malformed token is reported as an error"); continue
                                ex.oblige(s, z3.BoolVal(q in (WS, COM)), "without an error the end is reported only between tokens (%s)" % QNAMES[q])
                                ex.oblige(s, s.g["J.fail"], "the end is reported only at the end of the input")
                                continue
                            if q == BAD: ex.oblige(s, z3.BoolVal(False), "a malformed token is reported as an error"); continue
                            ok = z3.BoolVal(q == DONE)
                            if q in NUMBER:
                                p = s.g["J.pos"]; ok = z3.Or(p == LEN, z3.Not(lex.extends(q, INB(p))))
                            ex.oblige(s, ok, "a token ends where the grammar ends it (%s)" % QNAMES[q])
                            ex.oblige(s, ty == z3.ZeroExt(24, s.g["J.kind"]), "the token has the kind of its spelling (%s)" % QNAMES[q])
                            if q in NUMBER or q == DONE: token_content(ex, s, tok, q)
        return [ex.J.reader], post
    o3 = lambda unescape, validate: z3.Concat(z3.BitVecVal(0, 29), z3.BitVecVal(validate, 1), z3.BitVecVal(unescape, 1), z3.Const("comments", BV(1)))
    runs = []
    if "other" in classes: runs.append(("punctuation, literals and unknown characters", (WS, COM, DONE, LIT, BAD), None))
    if "numbers" in classes: runs.append(("numbers", (WS, COM, INT), None))
    if "strings" in classes: runs += [("strings (%sescapes, %sUTF-8)" % ("" if u else "keeping ", "checking " if v else "any "), (WS, COM, STR), o3(u, v)) for u in (0, 1) for v in (0, 1)]
    for name, only, o in runs:
        if os.environ.get("ONLY") and os.environ["ONLY"] not in name: continue
        ex = I.executor(); J = ex.J
        J.join = True; ex.loop_cases = cases; ex.incremental = ex.lazy_frame = True; hints(ex); fpclass(ex); first_error(ex)
        ex.on_edge = lambda ex, st: ex.J.lex.settle(st) if ex.J.lex and "J.q" in st.g else None
        c.verify(ex, NEXT, lambda ex, st, only=only, o=o: nexttoken(ex, st, only, o), label=NEXT + " -- " + name)


LEX_ASSUMPTIONS = [
    "std::istream::get()/peek(): one byte at a time, end of input and failure as libstdc++ has them (a read beyond the last byte sets eofbit and failbit; peek at the end sets eofbit); ghost state pos/eof/fail",
    "std::strtol/strtod/stol: the integer or double a well-formed spelling denotes; ERANGE or infinity exactly when it is out of range (uninterpreted functions of the text); inputs shorter than 2^40 bytes",
    "the text of error messages is arbitrary; the classic locale"]


def verify_scalars(c, which):
    """the scalar parsers and the reader's expectations over an arbitrary next token (the contract of details::nextToken)"""
    import c20
    executor, read, make, trouble = c20.run(c)
    TT, TXT, VAL = c20.TT, c20.TXT, c20.VAL
    RD = "reflect::json::Reader::"
    def fresh():
        ex = executor(False); first_error(ex)
        h, tr, lb = ex.exact[NEXT]
        def nexttok(ex, st, a, c_):
            outs = h(ex, st, a, c_)
            for o in outs:
                i = o.st.g["T.raw"] - 1
                o.st.g["T.after"] = failed(ex, o.st); o.st.assume(z3.Implies(TT(i) == Int, z3.Not(RANGE(TXT(i)))))   # proved of details::nextToken
            return outs
        ex.contract(NEXT, nexttok, False, label="details::nextToken gives the next token of the input, or fails")
        ex.J.number = lambda st, v, kinds: any(ex.valid(st, z3.And(v == TXT(simp(st.g["T.raw"] - 1)), TT(simp(st.g["T.raw"] - 1)) == k)) for k in ((Int,) if len(kinds) == 1 else (Int, Float)))
        return ex
    def base(ex, st0):
        o = z3.Const("options", W32); st0.assume(z3.ULE(o, 7)); st0.g["T.raw"] = z3.Const("raw0", B64); st0.g["T.after"] = z3.BoolVal(False)
        st = new_reader(ex, st0, o)
        sz, v = st.regions[ex.J.rid].cells[ex.J.flag]
        st.wregion(ex.J.rid).cells[ex.J.flag] = (sz, z3.Const("failed0", BV(sz * 8))); st.assume(z3.ULE(z3.Const("failed0", BV(sz * 8)), 1))
        st.g["T.after"] = failed(ex, st); become(st0, st)
        return st0
    def parser(name, kinds, value, ret=True):
        ex = fresh()
        def setup(ex, st0):
            st = base(ex, st0); out = ex.new_region(st, 32, "alloca", None, "result") if name == "parseString" else None; pre = st.fork()
            def post(o):
                if not expect_ret(ex, o, name + " returns"): return
                s = o.st; i = pre.g["T.raw"]; k = TT(i)
                ex.oblige(s, z3.Implies(failed(ex, pre), failed(ex, s)), "an error is not cleared")
                for s, a in split(ex, s, alive(ex, pre)):
                    if not a:
                        ex.oblige(s, failed(ex, s), "a reader that is in an error stays so, one whose stream has failed reports it"); ex.oblige(s, s.g["T.raw"] == i, "a reader that is in an error consumes nothing"); continue
                    ex.oblige(s, s.g["T.raw"] == i + 1, "one token is consumed")
                    for s, ok in split(ex, s, z3.Or([k == x for x in kinds])):
                        if not ok: ex.oblige(s, failed(ex, s), "another token than a %s is an error" % name[5:].lower()); continue
                        ex.oblige(s, failed(ex, s) == s.g["T.after"], "the expected token is no error")
                        if value: ex.oblige(s, z3.Implies(z3.Not(s.g["T.after"]), value(ex, s, out.addr if out else o.val, i)), "the value is the token's")
            return ([out.addr] if out else []) + [ex.J.reader], post
        c.verify(ex, "reflect::json::%s(reflect::json::Reader&)" % name, setup)
    asb = lambda v: simp(z3.Extract(0, 0, v) == 1) if z3.is_bv(v) else v
    P = {"parseNull": ((Null,), None), "parseBool": ((Bool,), lambda ex, s, r, i: asb(r) == VAL(i)), "parseInt": ((Int,), lambda ex, s, r, i: r == DEC(TXT(i))),
         "parseFloat": ((Int, Float), lambda ex, s, r, i: r == FLT(TXT(i))), "parseString": ((String,), lambda ex, s, r, i: ex.gget(s, r, "str") == TXT(i))}
    for n in which:
        if n in P and not (os.environ.get("ONLY") and os.environ["ONLY"] not in n): parser(n, *P[n])
