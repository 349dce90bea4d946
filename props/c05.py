#!/usr/bin/env python3-vt
"""C05: Overloads::add -- error iff an exact duplicate exists, otherwise the set is extended at its end and nothing else changes."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

OV = "reflect::Overloads::"
M1 = bv(2**64 - 1)


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp"])
    ex = c.executor(mods); read_sizes(ex, mods)
    TEST = z3.Function("matches", B64, BV(32))          # match between the new function and the registered one at this address

    def add(ex, st):
        p, fn = ptr(ex, st, "this"), ptr(ex, st, "fn")
        n = observe(ex, st, OV + "size() const", p); base = observe(ex, st, OV + "operator[](unsigned long) const", p, bv(0))
        sz = ex.sizes["reflect::Function"]
        st.assume(z3.ULT(n, 1 << 40)); st.assume(z3.Implies(n != 0, z3.And(z3.UGE(base, 4096), z3.ULT(base, 1 << 45))))
        addr = lambda k: simp(base + bv(sz) * k)
        sc = Scan(ex, lambda k: TEST(addr(k)), n); sc.elem = sz
        X = sc.first("exact", lambda t: t == m(EXACT))
        def cands(k, v):
            if z3.is_bool(v): return [("found iff a duplicate", v == (X(k) != M1))]
            return [("found iff a duplicate", v == z3.If(X(k) != M1, bv(1, v.size()), bv(0, v.size())))]
        sc.hint(cands)
        def test(ex, s, a, cx):
            ex.oblige(s, a[0] == fn, "the new function is tested against a registered one", "pre")
            f = a[1]; s.assume(z3.ULE(TEST(f), 2)); return stl.R(s, TEST(f))
        ex.contract(FUNC + "test(reflect::Function const&) const", test)
        ex.contract("re:^(void |.*& )?std::vector<reflect::Function, .*>::(push_back|emplace_back(<.*>)?)\\(", lambda ex, s, a, cx: (setattr(s, "log", s.log + (("append", a[0], a[1]),)), stl.R(s, bv(0)))[1])
        vecaddr = []
        ex.contract("re:^std::vector<reflect::Function, .*>::(insert|erase|emplace|clear|pop_back|resize|operator=|swap|assign)", lambda ex, s, a, cx: (ex.oblige(s, z3.BoolVal(False), "registered overloads are not changed, moved or removed (%s)" % cx["dem"][:80]), stl.R(s, retval(ex, s, cx, a)))[1])
        st.assume(sc.base()); st.assume(sc.defs(bv(0)))
        pre = st.fork()
        # which vector the accessors read: appending must go to that one
        def post(o):
            app = [e for e in o.st.log if e[0] == "append"]
            if o.kind == "error":
                ex.oblige(o.st, X(n) != M1, "an error is reported only if the new function matches a registered one exactly")
                ex.oblige(o.st, z3.BoolVal(not app), "nothing is added when an error is reported"); heap_frame(ex, pre, o); return
            if not expect_ret(ex, o): return
            ex.oblige(o.st, X(n) == M1, "an exact duplicate is refused")
            ex.oblige(o.st, z3.BoolVal(len(app) == 1), "exactly one overload is added")
            if len(app) == 1:
                ex.oblige(o.st, app[0][2] == fn, "the overload added is the given function")
                ex.oblige(o.st, z3.And(ex.gget(o.st, app[0][1], "vec.size") == n, z3.Or(n == 0, ex.gget(o.st, app[0][1], "vec.data") == base)), "it is added to the set that the accessors read, at its end")
            heap_frame(ex, pre, o, name="the registered overloads are unchanged")
        return [p, fn], post
    c.verify(ex, OV + "add(reflect::Function)", add)
    c.assumptions += COMMON_ASSUMPTIONS + [
        "Function::test is replaced by its contract (C03); std::vector<Function>::push_back/emplace_back append the given function and keep the others (C14 covers Function's move constructor)"]
    c.finish(witness=lambda c: std_witness(c, "c05.cpp"))


if __name__ == "__main__": main(run, "C05")
