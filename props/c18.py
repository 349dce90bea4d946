#!/usr/bin/env python3-vt
"""C18: JSON objects and arrays are printed with balanced, separated entries."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from common import *
from model import *
from jsonspec import *
from jsonout import *

VS = "std::vector<std::string, std::allocator<std::string > >"


def run(c):
    mods = c.compile([REPO + "/src/utils/json/json.cpp", VERIF + "/drivers/json.cpp"])

    def executor():
        ex = Input(c, mods).executor(); ostreams(ex); fpclass(ex)
        ex.try_unroll, ex.merge_key, ex.ghost_keep, ex.solver = None, None, ["O.q", "O.i", "J.fail"], z3.Solver
        C = ex.contract
        def handler(ex, st, a, c_):
            o = ex.J.out; T = stl.split_params(stl.split_name(c_["dem"])[2])[0]
            if T == "unsigned long": o.entry(ex, st, i=simp(a[1]))
            else: o.entry(ex, st, txt=ex.gget(st, a[1], "str"))
            may_fail(ex, st, "handler"); d0 = depth(ex, st); d = ex.fresh(B64, "depth"); st.assume(z3.Implies(alive(ex, st), d == d0)); st.wregion(ex.J.rid).cells[ex.J.depth] = (8, d)
            return stl.R(st)
        def skipping(ex, st, a, c_):
            o = ex.J.out
            if not o.is_object: return stl.R(st, o.asked(ex, st, simp(a[1])))
            t = ex.gget(st, a[1], "str"); off = simp(a[1] - o.data); st.assume(o.defs(simp(z3.UDiv(off, bv(32)))))
            return stl.R(st, simp(o.SKIP(t)))
        C("OnItem::operator()(unsigned long) const", handler, True, label="the handler prints one entry, or fails; it restores the depth")
        C("OnField::operator()(std::string const&) const", handler, True, label="the handler prints one entry, or fails; it restores the depth")
        C("SkipItem::operator()(unsigned long) const", skipping, True, label="whether an entry is skipped depends on the entry"); C("SkipField::operator()(std::string const&) const", skipping, True, label="whether an entry is skipped depends on the entry")
        def fstring(ex, st, a, c_):
            if ex.J.out is None: return None
            ex.J.out.key(ex, st, ex.gget(st, a[1], "str")); may_fail(ex, st, "text"); return stl.R(st)
        C("reflect::json::formatString(reflect::json::Writer&, std::string const&)", fstring, False, label="formatString writes one JSON string or fails (C15)")
        return ex

    def options(st):
        o = z3.Const("options", W32); st.assume(z3.ULE(o, 15)); return o

    def structure(dem, obj, skip):
        ex = executor()
        def setup(ex, st0):
            o = options(st0); pretty = simp(z3.Extract(0, 0, o) == 1); n = z3.Const("n", B64); st0.assume(z3.ULT(n, bv(1 << 40)))
            st = new_writer(ex, st0, o)
            h = ex.new_region(st, 1, "alloca", None, "handler"); k = ex.new_region(st, 1, "alloca", None, "skip")
            if obj:
                v = ex.new_region(st, 24, "alloca", None, "keys"); d = ex.gget(st, v.addr, "vec.data"); n = ex.gget(st, v.addr, "vec.size"); st.assume(z3.ULT(n, bv(1 << 40))); st.assume(d != 0)
                pre = st.fork(); text = lambda i: ex.gget(pre, simp(d + bv(32) * i), "str")
                out = Printed(ex, st, "{", "}", pretty, n, text); out.data = d; args = [ex.J.writer, v.addr, h.addr] + ([k.addr] if skip else [])
            else:
                out = Printed(ex, st, "[", "]", pretty, n); args = [ex.J.writer, n, h.addr] + ([k.addr] if skip else [])
            if not skip:
                x = z3.Const("x", Str if obj else B64); ex.axioms.append(z3.ForAll([x], z3.Not(out.SKIP(x)), patterns=[out.SKIP(x)]))
            ex.J.out = out; out.hint(ex); pre = st.fork(); become(st0, st)
            def post(o):
                if not expect_ret(ex, o): return
                s = o.st
                for s, ok in split(ex, s, alive(ex, s)):
                    if not ok: continue
                    out.complete(ex, s)
                    ex.oblige(s, depth(ex, s) == depth(ex, pre), "the indentation returns to its previous depth")
                ex.oblige(s, z3.Implies(failed(ex, pre), failed(ex, s)), "an error is not cleared")
            return args, post
        c.verify(ex, dem, setup)

    structure("void reflect::json::printArray<OnItem, SkipItem>(reflect::json::Writer&, unsigned long, OnItem const&, SkipItem const&)", False, True)
    structure("void reflect::json::printArray<OnItem>(reflect::json::Writer&, unsigned long, OnItem const&)", False, False)
    structure("void reflect::json::printObject<%s, OnField, SkipField>(reflect::json::Writer&, %s const&, OnField const&, SkipField const&)" % (VS, VS), True, True)
    structure("void reflect::json::printObject<%s, OnField>(reflect::json::Writer&, %s const&, OnField const&)" % (VS, VS), True, False)

    # ---- null, true and false ----------------------------------------------------------------------------------------------
    class Word:
        """the bytes written are exactly those of a word"""
        def __init__(s, st, w): s.w = w; st.g["O.n"] = bv(0)
        def byte(s, ex, st, b):
            n = st.g["O.n"]; a = alive(ex, st)
            ex.oblige(st, z3.Implies(a, z3.And(z3.ULT(n, s.len()), b == s.at(n))), "every byte written is the next one of the word")
            st.g["O.n"] = simp(z3.If(a, n + 1, n))
        def len(s): return simp(z3.If(s.w[0], bv(len(s.w[1])), bv(len(s.w[2]))))
        def at(s, n):
            r = B8(0)
            for i in range(8):
                x = lambda w: B8(w[i]) if i < len(w) else B8(0)
                r = z3.If(n == i, z3.If(s.w[0], x(s.w[1]), x(s.w[2])), r)
            return r
        def text(s, ex, st, txt): return False
    def word(dem, words):
        ex = executor()
        def setup(ex, st0):
            st = new_writer(ex, st0, options(st0)); b = z3.Const("value", z3.BoolSort()); w = Word(st, (b, words[0], words[-1])); ex.J.out = w; pre = st.fork(); become(st0, st)
            def post(o):
                if not expect_ret(ex, o): return
                for s, ok in split(ex, o.st, alive(ex, o.st)):
                    if ok: ex.oblige(s, s.g["O.n"] == w.len(), "the whole word is written"); ex.oblige(s, depth(ex, s) == depth(ex, pre), "the depth is kept")
            return [ex.J.writer] + ([b] if len(words) > 1 else []), post
        c.verify(ex, dem, setup)
    W = "(reflect::json::Writer&"
    for f in ("formatNull", "printNull"): word("reflect::json::" + f + W + ")", [b"null"])
    for f in ("formatBool", "printBool"): word("reflect::json::" + f + W + ", bool)", [b"true", b"false"])

    # ---- what is asked of a field -------------------------------------------------------------------------------------------
    TEXTS = ("Alias", "Parser", "Printer")
    def traits(dem, nargs, spec):
        """json traits: the options asked for and no other; those of two combined are the options of either, the first's texts first"""
        ex = executor(); EMPTY = ex.lit(b"")
        size = next(g["init"][2] for g in (mo.gvar("drv_sizeof_Traits") for mo in mods) if g)
        def read(st, p):
            def flag(f):
                v = observe(ex, st, f + "(reflect::json::Traits const&)", p)
                return simp(z3.Extract(0, 0, v) == 1) if z3.is_bv(v) else v
            return (flag("drv_traitsSkip"), flag("drv_traitsSkipEmpty")) + tuple(ex.gget(st, observe(ex, st, "drv_traits%s(reflect::json::Traits const&)" % t, p), "str") for t in TEXTS)
        def setup(ex, st0):
            out = ex.new_region(st0, size, "alloca", None, "result"); args, ins = [out.addr], []
            for i in range(nargs):
                r = ex.new_region(st0, size if "|" in dem else 32, "alloca", None, "arg%d" % i); args.append(r.addr)
                if "|" in dem:
                    for b in (0, 1): ex.store_bytes(st0, simp(r.addr + bv(b)), 1, simp(z3.If(z3.Const("flag%d_%d" % (i, b), z3.BoolSort()), B8(1), B8(0))))
                    ins.append(read(st0, r.addr))
                else: ins.append(ex.gget(st0, r.addr, "str"))
            def post(o):
                if not expect_ret(ex, o): return
                want = spec(EMPTY, *ins)
                for n, g, w in zip(("skip", "skipEmpty", "alias", "parser", "printer"), read(o.st, out.addr), want):
                    if n == "skipEmpty" and "undef_" in str(g) and w is no: continue        # the known finding: left uninitialised
                    ex.oblige(o.st, g == w, "%s of the traits is as asked for" % n)
            return args, post
        c.verify(ex, dem, setup)
    no, yes = z3.BoolVal(False), z3.BoolVal(True)
    STR = "std::string"
    traits("reflect::json::Traits::Traits()", 0, lambda e: (no, no, e, e, e))
    traits("reflect::json::skip()", 0, lambda e: (yes, no, e, e, e))
    traits("reflect::json::skipEmpty()", 0, lambda e: (no, yes, e, e, e))
    traits("reflect::json::alias(%s)" % STR, 1, lambda e, a: (no, no, a, e, e))
    traits("reflect::json::custom(%s, %s)" % (STR, STR), 2, lambda e, p, q: (no, no, e, p, q))
    traits("reflect::json::Traits::operator|(reflect::json::Traits const&) const", 2, lambda e, a, b: (z3.Or(a[0], b[0]), z3.Or(a[1], b[1])) + tuple(z3.If(stl.slen(x) == 0, y, x) for x, y in zip(a[2:], b[2:])))

    c.assumptions += COMMON_ASSUMPTIONS + ["an output stream accepts what is written or fails, at any time; what is written after it failed is lost", "the handlers print one value each (by induction over the nesting) and keep the depth unless they fail"]
    c.finish(witness=None if os.environ.get("NOW") else lambda c: json_witness(c, "c18.cpp"))


if __name__ == "__main__": main(run, "C18")
