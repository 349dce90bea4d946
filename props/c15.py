#!/usr/bin/env python3-vt
"""C15: JSON strings survive printing and parsing; malformed UTF-8 is an error."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from common import *
from model import *
from jsonspec import *
from jsonout import *
import lexing

FORMAT = "reflect::json::formatString(reflect::json::Writer&, std::string const&)"


def verify_printing(c, mods):
    def executor():
        ex = Input(c, mods).executor(); ostreams(ex); fpclass(ex)
        ex.try_unroll, ex.merge_key, ex.ghost_keep, ex.solver = (6, 24), None, [], lambda: z3.SolverFor("QF_AUFBV")
        ex.lazy_frame = ex.incremental = True
        return ex
    def options(escape, validate): return z3.Concat(z3.BitVecVal(0, 28), z3.BitVecVal(validate, 1) if validate is not None else z3.Const("validate", BV(1)), z3.BitVecVal(escape, 1), z3.Const("layout", BV(2)))
    def printing(label, escape, validate, wellformed=False):
        if os.environ.get("ONLY") and os.environ["ONLY"] not in label: return
        ex = executor(); checking = bool(escape or validate)
        def setup(ex, st0):
            st = new_writer(ex, st0, options(escape, validate)); ex.J.calm = True
            st.assume(z3.Not(failed(ex, st))); st.g["J.fail"] = z3.BoolVal(False); sz, v = st.regions[ex.J.rid].cells[ex.J.flag]; st.wregion(ex.J.rid).cells[ex.J.flag] = (sz, z3.BitVecVal(0, v.size()))
            t = ex.new_region(st, 32, "alloca", None, "text"); txt = ex.gget(st, t.addr, "str"); n = slen(txt); st.assume(z3.ULT(n, bv(1 << 40))); st.assume(z3.And(z3.UGE(sdata(txt), bv(1 << 32)), z3.ULT(sdata(txt), bv(1 << 46))))
            reading = z3.BoolVal(True) if escape else z3.Const("unescape", z3.BoolSort())
            out = ex.J.out = Decoded(ex, st, txt, escape, checking, wellformed, reading, z3.BoolVal(bool(checking or wellformed))); out.hint(ex); pre = st.fork(); become(st0, st)
            def post(o):
                if not expect_ret(ex, o, "formatString returns"): return
                for s, e in split(ex, o.st, failed(ex, o.st)):
                    if e:
                        ex.oblige(s, z3.BoolVal(checking), "nothing is an error without checks"); ex.oblige(s, out.bad(ex, s), "an error is reported only for malformed UTF-8"); continue
                    ex.oblige(s, s.g["J.q"] == DONE, "what is printed is one complete JSON string")
                    ex.oblige(s, s.g["C.p"] == out.n, "what is printed reads back as the whole text")
                    if checking: ex.oblige(s, s.g["C.u"] == 0, "malformed UTF-8 is reported as an error")
            return [ex.J.writer, t.addr], post
        c.verify(ex, FORMAT, setup, label=FORMAT + " -- " + label)
    printing("escaping", 1, None)
    printing("checking", 0, 1)
    printing("as it is", 0, 0)
    printing("as it is, well-formed, read back with checks", 0, 0, True)

    def anyhow():
        label = "any writer, any stream"
        if os.environ.get("ONLY") and os.environ["ONLY"] not in label: return
        ex = executor()
        def setup(ex, st0):
            o = z3.Const("options", W32); st0.assume(z3.ULE(o, 15)); st = new_writer(ex, st0, o)
            t = ex.new_region(st, 32, "alloca", None, "text"); txt = ex.gget(st, t.addr, "str"); n = slen(txt); st.assume(z3.ULT(n, bv(1 << 40))); st.assume(z3.And(z3.UGE(sdata(txt), bv(1 << 32)), z3.ULT(sdata(txt), bv(1 << 46))))
            pre = st.fork(); become(st0, st)
            def hint(ctx):
                out = [("an error is kept", lambda k, get, st, f0=failed(ex, ctx.st): z3.Implies(f0, failed(ex, st))), ("a failed stream is kept", lambda k, get, st, f0=ctx.st.g["J.fail"]: z3.Implies(f0, st.g["J.fail"]))]
                for l in ctx.locs:
                    if l[0] in ("phi", "cell") and z3.is_bv(ctx.init(l)) and ctx.init(l).size() == 64:
                        out.append(("%s is in the text" % (l,), lambda k, get, st, l=l: z3.ULE(get(l), n)))
                        out.append(("%s points into the text" % (l,), lambda k, get, st, l=l: z3.ULE(get(l) - sdata(txt), n)))
                return out
            ex.loop_hints.append(hint)
            def post(o):
                if not expect_ret(ex, o, "formatString returns"): return
                ex.oblige(o.st, z3.Implies(failed(ex, pre), failed(ex, o.st)), "an error is not cleared")
            return [ex.J.writer, t.addr], post
        c.verify(ex, FORMAT, setup, label=FORMAT + " -- " + label)
    anyhow()


def check(c):
    mods = c.compile([REPO + "/src/utils/json/json.cpp", VERIF + "/drivers/json.cpp"])
    verify_printing(c, mods)
    if not os.environ.get("PRINTONLY"):
        lexing.verify_lexing(c, Input(c, mods), ("strings",))
        lexing.verify_scalars(c, ("parseString",))
    c.assumptions += COMMON_ASSUMPTIONS + lexing.LEX_ASSUMPTIONS + ["an output stream writes the bytes it is given, or fails", "snprintf: the C library's text of one hexadecimal number"]
    c.finish(witness=None if os.environ.get("NOW") else lambda c: json_witness(c, "c15.cpp"))


if __name__ == "__main__": main(check, "C15")
