import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

FN = "reflect::Argument::isConvertibleTo(reflect::Argument const&) const"


def run(c):
    (mod,) = c.compile([REPO + "/src/reflect.cpp"])
    (drv,) = c.compile([VERIF + "/drivers/c01.cpp"])
    ex = c.executor([mod, drv])
    type_predicates(ex)

    def conv(ex, st):
        p, q = ptr(ex, st, "offered"), ptr(ex, st, "expected")
        a, b = arg_at(ex, st, p), arg_at(ex, st, q)
        pre = st.fork()
        def post(o):
            if not expect_ret(ex, o): return
            ex.oblige(o.st, o.val == spec_convertible(ex, a, b), "match follows the documented matrix")
            heap_frame(ex, pre, o)
        return [p, q], post
    c.verify(ex, FN, conv)

    # the description of a type known statically against the same matrix
    def convT(ty, ref, const):
        def setup(ex, st):
            p = ptr(ex, st, "offered"); a = arg_at(ex, st, p); b = Arg(ex.type_const(ty), m(ref), z3.BoolVal(const)); pre = st.fork()
            def post(o):
                if not expect_ret(ex, o): return
                ex.oblige(o.st, o.val == spec_convertible(ex, a, b), "match against a static parameter type follows the matrix")
                heap_frame(ex, pre, o)
            return [p], post
        return setup
    for suf, ref, const in (("", COPY, False), ("&", LVAL, False), (" const&", LVAL, True), ("&&", RVAL, False), (" const&&", RVAL, True)):
        for ty in ("int", "reflect::Value", "DrvObj"):
            c.verify(ex, "reflect::Match reflect::Argument::isConvertibleTo<%s%s>() const" % (ty, suf), convT(ty, ref, const))

    def comb(ex, st):
        x, y = z3.BitVec("x", 32), z3.BitVec("y", 32)
        st.assume(z3.And(z3.ULE(x, 2), z3.ULE(y, 2)))
        def post(o):
            if expect_ret(ex, o): ex.oblige(o.st, o.val == spec_combine(x, y), "combine yields the weaker match")
        return [x, y], post
    c.verify(ex, "reflect::combine(reflect::Match, reflect::Match)", comb)

    def pred(f, name):
        def setup(ex, st):
            p = ptr(ex, st, "arg"); a = arg_at(ex, st, p); pre = st.fork()
            def post(o):
                if not expect_ret(ex, o): return
                ex.oblige(o.st, tobool(o.val) == f(ex, a), name); heap_frame(ex, pre, o)
            return [p], post
        return setup
    A = "reflect::Argument::"
    c.verify(ex, A + "isVoid() const", pred(lambda ex, a: a.ty == ex.type_const("void"), "isVoid iff the type is void"))
    c.verify(ex, A + "isConstRef() const", pred(lambda ex, a: z3.And(a.const, a.ref == LVAL), "isConstRef iff a const l-value"))
    c.verify(ex, A + "isTemporary() const", pred(lambda ex, a: a.ref != LVAL, "isTemporary iff not an l-value"))
    c.verify(ex, A + "isLValueRef() const", pred(lambda ex, a: z3.And(z3.Not(a.const), a.ref == LVAL), "isLValueRef iff a non-const l-value"))

    def eq(ex, st):
        p, q = ptr(ex, st, "x"), ptr(ex, st, "y"); a, b = arg_at(ex, st, p), arg_at(ex, st, q)
        def post(o):
            if expect_ret(ex, o): ex.oblige(o.st, tobool(o.val) == a.eq(b), "equality compares all three parts")
        return [p, q], post
    c.verify(ex, A + "operator==(reflect::Argument const&) const", eq)

    def tcc(ex, st):
        x, y = z3.Bool("src"), z3.Bool("dst")
        def post(o):
            if expect_ret(ex, o): ex.oblige(o.st, tobool(o.val) == z3.Or(z3.Not(x), y), "constness may not be dropped")
        return [x, y], post
    c.verify(ex, "reflect::testConstConversion(bool, bool)", tcc, required=False)
    c.absorb(ex)
    c.assumptions += COMMON_ASSUMPTIONS + [
        "Type::hasConverter and Type::isParentOf are uninterpreted predicates of the two types here (C02, C06 verify them)",
        "an Argument's reference kind is one of its three enumerators and its type pointer is not null (type invariant)"]
    c.finish(witness=lambda c: std_witness(c, "c01.cpp"))


if __name__ == "__main__": main(run, "C01")
