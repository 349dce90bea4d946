import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

OV = "reflect::Overloads::"
M1 = bv(2**64 - 1)
VECARG = "std::vector<reflect::Argument, std::allocator<reflect::Argument> > const&"


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp"])

    def fresh_ex():
        ex = c.executor(mods); read_sizes(ex, mods)
        ex.sizes["reflect::Function"] = mods[1].gvar("drv_sizeof_Function")["init"][2]
        return ex

    TEST = z3.Function("matches", B64, BV(32))          # match of the candidate function at this address with the current request

    def members(ex, st, p):
        n = observe(ex, st, OV + "size() const", p); base = observe(ex, st, OV + "operator[](unsigned long) const", p, bv(0))
        st.assume(z3.ULT(n, 1 << 40)); st.assume(z3.Implies(n != 0, z3.And(z3.UGE(base, 4096), z3.ULT(base, 1 << 45))))
        return n, base, ex.sizes["reflect::Function"]

    # ---- Overloads::call ---------------------------------------------------------------------------------------------
    def overload_call(ret, nargs, sret):
        ex = fresh_ex()
        def setup(ex, st):
            p = ptr(ex, st, "this"); args = [ptr(ex, st, "arg%d" % i) for i in range(nargs)]
            n, base, sz = members(ex, st, p)
            addr = lambda k: simp(base + bv(sz) * k)
            sc = Scan(ex, lambda k: TEST(addr(k)), n); sc.elem = sz
            X = sc.first("exact", lambda t: t == m(EXACT)); P = sc.first("partial", lambda t: t == m(PARTIAL)); W = sc.several("partial")
            def cands(k, v):
                some = P(k) != M1
                if z3.is_bool(v): return [("several partial matches", v == W(k)), ("some partial match", v == some), ("no partial match", v == z3.Not(some))]
                w = v.size(); i = lambda b: z3.If(b, bv(1, w), bv(0, w))
                if w == 64: return [("first partial match or null", v == z3.If(some, addr(P(k)), bv(0))), ("index of the first partial match", v == P(k)), ("first partial match, once there is one", z3.Implies(some, v == addr(P(k)))),
                                    ("first partial match or end", v == z3.If(some, addr(P(k)), addr(n))), ("index of the first partial match or size", v == z3.If(some, P(k), n)), ("some partial match as integer", v == i(some))]
                return [("several partial matches as integer", v == i(W(k))), ("some partial match as integer", v == i(some)), ("best match so far", v == z3.If(some, bv(PARTIAL, w), bv(NONE, w)))]
            sc.hint(cands)
            def test(ex, s, a, cx):
                ex.oblige(s, z3.And([x == y for x, y in zip(a[1:], args)] + [z3.BoolVal(len(a) == 1 + nargs)]), "candidates are tested against the actual arguments, in order", "pre")
                s.assume(z3.ULE(TEST(a[0]), 2)); return stl.R(s, TEST(a[0]))
            ex.contract("re:^reflect::Match reflect::Function::testParams<", test)
            def inv(ex, s, a, cx):
                b = a[1:] if sret else a
                s.log = s.log + (("call", b[0], b[1:], a[0] if sret else None),)
                return stl.R(s, ex.undef(cx["I"].ty) if cx["I"].ty.kind != "void" else None)
            ex.contract("re:^(.* )?reflect::Function::call<", inv)
            st.assume(sc.base()); st.assume(sc.defs(bv(0)))
            pre = st.fork()
            res = None
            if sret: r = ex.new_region(st, 40, "alloca", None, "result"); res = r.addr
            def post(o):
                # the choice is decided over the whole set
                ex_i, one, fp = X(n), z3.And(P(n) != M1, z3.Not(W(n))), P(n)
                calls = [e for e in o.st.log if e[0] == "call"]
                if o.kind == "error":
                    ex.oblige(o.st, z3.BoolVal(not calls), "nothing is invoked when an error is reported")
                    ex.oblige(o.st, z3.And(ex_i == M1, z3.Not(one)), "an error is reported only without a match or with several partial ones and no exact one"); return
                if not expect_ret(ex, o): return
                if len(calls) != 1: ex.oblige(o.st, z3.BoolVal(False), "exactly one overload is invoked (%d are)" % len(calls)); return
                _, f, fargs, fres = calls[0]
                ex.oblige(o.st, z3.If(ex_i != M1, f == addr(ex_i), z3.And(one, f == addr(fp))), "the overload invoked is the first exact match, else the only partial one")
                ex.oblige(o.st, z3.And([x == y for x, y in zip(fargs, args)] + [z3.BoolVal(len(fargs) == nargs)]), "the overload gets the caller's arguments in order")
                if sret: ex.oblige(o.st, fres == res, "the caller gets that overload's result")
                heap_frame(ex, pre, o)
            return ([res] if sret else []) + [p] + args, post
        sig = {"int": "int, int&>(int&)", "void": "void>()", "reflect::Value": "reflect::Value, DrvObj const&, int&>(DrvObj const&, int&)"}[ret]
        c.verify(ex, "%s %scall<%s const" % (ret, OV, sig), setup); c.absorb(ex)
    overload_call("int", 1, False); overload_call("void", 0, False); overload_call("reflect::Value", 2, True)

    # ---- lookup by signature -------------------------------------------------------------------------------------------
    def lookup(dem, kind, what, wargs):
        ex = fresh_ex()
        def setup(ex, st):
            p = ptr(ex, st, "this"); args = [ptr(ex, st, "arg%d" % i) for i in range(wargs)]
            n, base, sz = members(ex, st, p)
            addr = lambda k: simp(base + bv(sz) * k)
            sc = Scan(ex, lambda k: TEST(addr(k)), n); sc.elem = sz
            X = sc.first("matching", lambda t: t != m(NONE))
            def cands(k, v):
                if z3.is_bool(v): return [("found iff a match", v == (X(k) != M1))]
                return [("found iff a match", v == z3.If(X(k) != M1, bv(1, v.size()), bv(0, v.size()))), ] + ([("first match or null", v == z3.If(X(k) == M1, bv(0), addr(X(k))))] if v.size() == 64 else [])
            sc.hint(cands)
            def test(ex, s, a, cx):
                f, rest = a[0], a[1:]
                if kind == "fn": f, rest = a[0], a[1:]
                ex.oblige(s, z3.And([x == y for x, y in zip(rest, args)] + [z3.BoolVal(len(rest) == wargs)]), "candidates are tested against the requested signature", "pre")
                s.assume(z3.ULE(TEST(f), 2)); return stl.R(s, TEST(f))
            if kind == "fn":
                def test(ex, s, a, cx):
                    # fn.test(other): the match of the request `a[0]` with the candidate, whichever way it is asked
                    ex.oblige(s, z3.Or(a[0] == args[0], a[1] == args[0]), "candidates are tested against the requested signature", "pre")
                    f = simp(z3.If(a[0] == args[0], a[1], a[0])); s.assume(z3.ULE(TEST(f), 2)); return stl.R(s, TEST(f))
                ex.contract(FUNC + "test(reflect::Function const&) const", test)
            elif kind == "list": ex.contract(FUNC + "test(reflect::Argument const&, %s) const" % VECARG, test)
            else: ex.contract("re:^reflect::Match reflect::Function::test<.*>\\(\\) const$", test)
            st.assume(sc.base()); st.assume(sc.defs(bv(0)))
            pre = st.fork()
            def post(o):
                if what == "get":
                    if o.kind == "error": ex.oblige(o.st, X(n) == M1, "lookup fails only if no overload matches"); return
                    if not expect_ret(ex, o): return
                    ex.oblige(o.st, z3.And(X(n) != M1, o.val == addr(X(n))), "lookup returns the first overload that matches")
                else:
                    if not expect_ret(ex, o): return
                    ex.oblige(o.st, tobool(o.val) == (X(n) != M1), "existence query answers whether some overload matches")
                heap_frame(ex, pre, o)
            return [p] + args, post
        c.verify(ex, dem, setup); c.absorb(ex)
    lookup(OV + "get(reflect::Argument const&, %s) const" % VECARG, "list", "get", 2)
    lookup(OV + "test(reflect::Argument const&, %s) const" % VECARG, "list", "test", 2)
    lookup(OV + "test(reflect::Function const&) const", "fn", "test", 1)
    lookup("reflect::Function const& " + OV + "get<int (int)>() const", "static", "get", 0)
    lookup("bool " + OV + "test<int (int)>() const", "static", "test", 0)
    lookup("bool " + OV + "test<void ()>() const", "static", "test", 0)

    # ---- a single function ------------------------------------------------------------------------------------------------
    def function_call(ret, nargs, sret):
        ex = fresh_ex(); ex.check_null = False      # a Function holds a live callable (C14)
        def setup(ex, st):
            p = ptr(ex, st, "this"); args = [ptr(ex, st, "arg%d" % i) for i in range(nargs)]
            MATCH = z3.BitVec("own_match", 32); st.assume(z3.ULE(MATCH, 2))
            def test(ex, s, a, cx):
                ex.oblige(s, z3.And([a[0] == p] + [x == y for x, y in zip(a[1:], args)] + [z3.BoolVal(len(a) == 1 + nargs)]), "the function's own signature is tested against the actual arguments", "pre")
                return stl.R(s, MATCH)
            ex.contract("re:^reflect::Match reflect::Function::testParams<", test)
            ex.contract("re:reflect::cast<reflect::Value", lambda ex, s, a, cx: stl.R(s, retval(ex, s, cx, a)))
            ex.contract("re:reflect::retCast<", lambda ex, s, a, cx: stl.R(s, retval(ex, s, cx, a)))
            ex.contract("re:^reflect::Value::~?Value\\(", lambda ex, s, a, cx: stl.R(s))
            def ind(ex, s, fp, a, I):
                s.log = s.log + (("invoke", fp, a),); return stl.R(s, ex.undef(I.ty) if I.ty.kind != "void" else None)
            ex.indirect = ind
            res = ex.new_region(st, 40, "alloca", None, "result").addr if sret else None
            def post(o):
                inv = [e for e in o.st.log if e[0] == "invoke"]
                if o.kind == "error":
                    ex.oblige(o.st, z3.BoolVal(not inv), "nothing is invoked when an error is reported"); ex.oblige(o.st, MATCH == m(NONE), "a call is refused only if the signature does not match"); return
                if not expect_ret(ex, o): return
                ex.oblige(o.st, MATCH != m(NONE), "a function whose signature does not match refuses to run")
                ex.oblige(o.st, z3.BoolVal(len(inv) == 1), "the callable is invoked exactly once")
            return ([res] if sret else []) + [p] + args, post
        sig = {"int": "int, int&>(int&)", "void": "void>()", "reflect::Value": "reflect::Value, DrvObj const&, int&>(DrvObj const&, int&)"}[ret]
        c.verify(ex, "%s %scall<%s const" % (ret, FUNC, sig), setup); c.absorb(ex)
    function_call("int", 1, False); function_call("void", 0, False); function_call("reflect::Value", 2, True)
    c.assumptions += COMMON_ASSUMPTIONS + [
        "Function::test / testParams are replaced by their contract (verified in C03): a match per candidate; casts of arguments and result by theirs (C08)",
        "Overloads::call and Function::call are verified at instantiations with zero, one and two arguments; the set of overloads is arbitrary"]
    c.finish(witness=lambda c: std_witness(c, "c04.cpp"))


if __name__ == "__main__": main(run, "C04")
