#!/usr/bin/env python3-vt
"""C16: malformed JSON is reported as a reader error: the tokenizer accepts a byte stream's next token exactly when the grammar does,
and never throws, aborts or runs into undefined behaviour; the first error is kept."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from common import *
from model import *
from jsonspec import *
import lexing


def check(c):
    mods = c.compile([REPO + "/src/utils/json/json.cpp", VERIF + "/drivers/json.cpp"])
    I = Input(c, mods)
    lexing.verify_lexing(c, I, ("other", "numbers", "strings"))
    lexing.verify_scalars(c, ("parseNull", "parseBool", "parseInt", "parseFloat", "parseString"))
    c.assumptions += COMMON_ASSUMPTIONS + lexing.LEX_ASSUMPTIONS
    c.finish(witness=None if os.environ.get("NOW") else lambda c: json_witness(c, "c16.cpp"))


if __name__ == "__main__": main(check, "C16")
