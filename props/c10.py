#!/usr/bin/env python3-vt
"""C10: splitting and joining qualified names."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

S = "reflect::Scope::"
STR = "std::string const&"


def split_spec(ex, st, s, n, backward):
    """Specification of the scan over the characters of s (from the front, or from the back): DEPTH(k), the bracket depth after k
    characters, and the first position (counted in scan order) at which a ':' stands at depth 0."""
    tag = "b" if backward else "f"
    D = z3.Function("depth_" + tag, B64, B64)
    ch = (lambda k: sat_(s, n - 1 - k)) if backward else (lambda k: sat_(s, k))
    op, cl = (ord(">"), ord("<")) if backward else (ord("<"), ord(">"))
    delta = lambda c: z3.If(c == op, bv(1), z3.If(c == cl, bv(2**64 - 1), bv(0)))
    CUT = z3.Function("cut_" + tag, B64, BV(32))          # 1: a ':' outside brackets stands at position k
    sc = Scan(ex, lambda k: CUT(k), n)
    X = sc.first("cut", lambda t: t == 1)
    def defs(k):
        k = simp(k)
        return z3.And(D(bv(0)) == 0, D(k + 1) == D(k) + delta(ch(k)), CUT(k) == z3.If(z3.And(ch(k) == ord(":"), D(k) == 0), m(1), m(0)))
    base = sc.defs
    sc.defs = lambda k: z3.And(base(k), defs(k))
    sc.hint(lambda k, v: [("bracket depth", v == D(k))] if z3.is_bv(v) and v.size() == 64 else [])
    return sc, X, D, defs


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp"])

    def split(which):
        back = which == "tail"
        ex = c.executor(mods)
        def setup(ex, st):
            r = ex.new_region(st, 32, "alloca", None, "name"); s = z3.Const("name", Str); ex.gset(st, r.addr, "str", s)
            n = slen(s); st.assume(z3.ULT(n, 1 << 40))
            res = ex.new_region(st, 64, "alloca", None, "result")
            sc, X, D, defs = split_spec(ex, st, s, n, back)
            x = X(n); M1 = sc.M1
            st.assume(sc.base()); st.assume(D(bv(0)) == 0); st.assume(defs(x)); st.assume(sc.defs(bv(0)))
            st.assume(z3.Implies(x != M1, z3.ULT(x, n)))
            none = x == M1
            if back:
                pos = simp(n - 1 - x); lone = z3.Or(pos == 0, sat_(s, pos - 1) != ord(":"))
                first, second = ssub(s, pos + 1, n), ssub(s, bv(0), pos - 1)
            else:
                pos = x; lone = z3.Or(z3.ULE(n, pos + 1), sat_(s, pos + 1) != ord(":"))
                first, second = ssub(s, bv(0), pos), ssub(s, pos + 2, n)
            bad = z3.If(none, D(n) != 0, lone)
            pre = st.fork()
            def norm(t): return t
            def is_sub(st, t, sub):
                """t is the part [from,to) of the name (the whole name and the empty string count as parts)"""
                f, e = sub.arg(1), sub.arg(2)
                if t.decl().name() == "ssub" and t.arg(0).eq(s): return z3.And(t.arg(1) == f, t.arg(2) == e)
                if t.eq(s): return z3.And(f == 0, e == n)
                if t.eq(ex.lit("")): return f == e
                return t == sub
            def post(o):
                t = o.st
                if o.kind == "error": ex.oblige(t, bad, "an error is reported only for a lone ':' or unbalanced brackets"); return
                if not expect_ret(ex, o): return
                ex.oblige(t, z3.Not(bad), "a lone ':' or brackets left open are reported as an error")
                a, b = ex.gget(t, res.addr, "str"), ex.gget(t, simp(res.addr + bv(32)), "str")
                w, e = ssub(s, bv(0), n), ssub(s, bv(0), bv(0))
                ex.oblige(t, z3.Implies(z3.Not(none), z3.And(is_sub(t, a, first), is_sub(t, b, second))), "the name is cut at the %s separator outside brackets" % ("last" if back else "first"))
                ex.oblige(t, z3.Implies(none, z3.And(is_sub(t, a, w), is_sub(t, b, e))), "without separator the whole name is returned, with an empty rest")
                ex.oblige(t, ex.gget(t, r.addr, "str") == s, "the name itself is unchanged")
                heap_frame(ex, pre, o)
            return [res.addr, r.addr], post
        c.verify(ex, S + "%s(%s)" % (which, STR), setup)
    split("head"); split("tail")

    ex = c.executor(mods)
    def join(ex, st):
        bufs = []; vals = []
        for x in ("head", "tail"):
            r = ex.new_region(st, 32, "alloca", None, x); v = z3.Const(x, Str); ex.gset(st, r.addr, "str", v); bufs.append(r.addr); vals.append(v)
            st.assume(z3.ULT(slen(v), 1 << 40))
        res = ex.new_region(st, 32, "alloca", None, "result")
        h, t = vals
        st.assume((slen(h) == 0) == (h == ex.lit("")))
        def post(o):
            if not expect_ret(ex, o): return
            r = ex.gget(o.st, res.addr, "str")
            q = o.st.fork()
            q.assume(slen(h) != 0)
            want = stl.mk_cat(ex, q, h, stl.mk_cat(ex, q, ex.lit("::"), t))
            ex.oblige(o.st, z3.If(slen(h) == 0, r == t, r == want), "joining puts '::' between the parts, and nothing before a name without prefix")
        return [res.addr] + bufs, post
    c.verify(ex, S + "join(%s, %s)" % (STR, STR), join)

    # lemma: joining the parts of a split gives the name back (extensionality of strings: equal length, equal characters)
    ex = c.executor(mods); ex.cur = "lemma"
    st = State(); s = z3.Const("name", Str); n = slen(s); p, i = z3.BitVecs("p i", 64)
    st.assume(z3.ULT(n, 1 << 40)); st.assume(z3.ULT(p, n)); st.assume(z3.ULT(p + 1, n)); st.assume(sat_(s, p) == ord(":")); st.assume(sat_(s, p + 1) == ord(":"))
    A = lambda j: z3.If(z3.ULT(j, p), sat_(s, j), z3.If(z3.ULT(j, p + 2), bv(ord(":"), 8), sat_(s, p + 2 + (j - (p + 2)))))
    ex.oblige(st, p + 2 + (n - (p + 2)) == n, "lemma: the parts of a split at p, joined by '::', have the length of the name", "lemma")
    ex.oblige(st, z3.Implies(z3.ULT(i, n), A(i) == sat_(s, i)), "lemma: the parts of a split at p, joined by '::', have the characters of the name", "lemma")
    c.obls += ex.obls
    c.assumptions += COMMON_ASSUMPTIONS + ["bracket depth is counted modulo 2^64 (names are shorter than 2^40 characters, so it never wraps to zero by accident)"]
    c.finish(witness=lambda c: std_witness(c, "c10.cpp"))


if __name__ == "__main__": main(run, "C10")
