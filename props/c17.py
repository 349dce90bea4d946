#!/usr/bin/env python3-vt
"""C17: JSON integers round-trip and numbers are classified by their spelling."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from common import *
from model import *
from jsonspec import *
from jsonout import *
import lexing


def verify_printing(c, mods):
    def printed(dem, text, finite):
        for calm in (True, False):      # a usable writer whose stream accepts everything; any writer and stream
            ex = Input(c, mods).executor(); ostreams(ex); fpclass(ex); ex.try_unroll, ex.merge_key, ex.ghost_keep, ex.solver = None, None, [], z3.Solver
            def setup(ex, st0):
                o = z3.Const("options", W32); st0.assume(z3.ULE(o, 15)); st = new_writer(ex, st0, o); v = z3.Const("value", B64)
                if finite: st.assume(v & bv(0x7ff0000000000000) != bv(0x7ff0000000000000))
                if calm: st.assume(alive(ex, st)); ex.J.calm = True
                out = ex.J.out = Spelled(st, lambda t: text(t, v)); pre = st.fork(); become(st0, st)
                def post(o):
                    if not expect_ret(ex, o): return
                    s = o.st; ex.oblige(s, z3.Implies(failed(ex, pre), failed(ex, s)), "an error is not cleared")
                    if calm: ex.oblige(s, z3.Not(failed(ex, s)), "a number is no error"); ex.oblige(s, s.g["O.n"] == 1, "the number is written, as it is spelled")
                return [ex.J.writer, v], post
            c.verify(ex, dem, setup, label=dem + (" -- usable writer" if calm else " -- any writer"))
    W = "(reflect::json::Writer&, "
    for f in ("formatInt", "printInt"): printed("reflect::json::" + f + W + "long)", lambda t, v: t == SPELL(v), False)
    for f in ("formatFloat", "printFloat"): printed("reflect::json::" + f + W + "double)", lambda t, v: z3.BoolVal(t.decl().name().startswith("double_text_") and t.arg(0).eq(v)), True)


def check(c):
    mods = c.compile([REPO + "/src/utils/json/json.cpp", VERIF + "/drivers/json.cpp"])
    verify_printing(c, mods)
    if not os.environ.get("PRINTONLY"):
        lexing.verify_lexing(c, Input(c, mods), ("numbers",))
        lexing.verify_scalars(c, ("parseInt", "parseFloat"))
    c.assumptions += COMMON_ASSUMPTIONS + lexing.LEX_ASSUMPTIONS + ["snprintf(%ld): the decimal spelling of the integer (an optional minus sign and digits, at most 20 characters), which strtol and stol turn back into the integer (the C standard); snprintf(%1.12g), or another precision, of a finite double: a decimal spelling of at most 24 characters that is a number of the JSON grammar",
        "an output stream writes the bytes it is given, or fails; the classic locale"]
    c.finish(witness=None if os.environ.get("NOW") else lambda c: json_witness(c, "c17.cpp"))


if __name__ == "__main__": main(check, "C17")
