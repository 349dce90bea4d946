import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp"])
    ex = c.executor(mods)
    type_predicates(ex); conv_contract(ex)

    def matching(ex, st, pre, want, wargs, nw, f, with_hint=True):
        """the specification of a match between a requested signature and the function f"""
        F, defs = fold_spec(ex, pre, wargs, f.args, "fold%d" % next(ex.fresh_n))
        if with_hint:
            ex.loop_hints.clear(); fold_hint(ex, F, defs, nw)
        st.assume(F(bv(0)) == m(EXACT)); st.assume(z3.And(z3.ULT(nw, bv(1 << 40)), z3.ULT(f.n, bv(1 << 40))))
        spec = z3.If(nw != f.n, m(NONE), spec_combine(spec_return(ex, want, f.ret), F(nw)))
        return spec

    def against_function(ex, st):
        p, q = ptr(ex, st, "this"), ptr(ex, st, "other")
        f, g = Fn(ex, st, p), Fn(ex, st, q); pre = st.fork()
        spec = matching(ex, st, pre, g.ret, g.args, g.n, f)
        st.assume(cm(f.ret, g.ret) == spec_convertible(ex, f.ret, g.ret))
        def post(o):
            if not expect_ret(ex, o): return
            ex.oblige(o.st, o.val == spec, "match is none/partial/exact as the return and every parameter dictate")
            heap_frame(ex, pre, o)
        return [p, q], post
    c.verify(ex, FUNC + "test(reflect::Function const&) const", against_function)

    def against_list(ex, st):
        p, r, v = ptr(ex, st, "this"), ptr(ex, st, "wanted_return"), ptr(ex, st, "wanted_args")
        f = Fn(ex, st, p); want = arg_at(ex, st, r)
        data, n = ex.vec_data(st, v), ex.vec_size(st, v); pre = st.fork()
        spec = matching(ex, st, pre, want, data, n, f)
        st.assume(cm(f.ret, want) == spec_convertible(ex, f.ret, want))
        def post(o):
            if not expect_ret(ex, o): return
            ex.oblige(o.st, o.val == spec, "match is none/partial/exact as the return and every parameter dictate")
            heap_frame(ex, pre, o)
        return [p, r, v], post
    c.verify(ex, FUNC + "test(reflect::Argument const&, std::vector<reflect::Argument, std::allocator<reflect::Argument> > const&) const", against_list)

    # statically described signatures: complete unrolling (the number of arguments is part of the type)
    ex.loop_hints.clear(); ex.auto_unroll = 6
    def static(want, args, extra=0, wrap=False):
        def setup(ex, st):
            p = ptr(ex, st, "this"); f = Fn(ex, st, p)
            A = lambda t: Arg(ex.type_const(t[0]), m(t[1]), z3.BoolVal(t[2]))
            w = A(want); pre = st.fork()
            spec = spec_return(ex, w, f.ret)
            for i, t in enumerate(args):
                s = st.fork(); have = arg_at(ex, s, simp(f.args + bv(16 * i))); st.assume(z3.Implies(z3.UGT(f.n, i), arg_inv(have)))
                spec = spec_combine(spec, spec_convertible(ex, A(t), have))
            spec = z3.If(f.n != len(args), m(NONE), spec)
            real = [ptr(ex, st, "arg%d" % i) for i in range(extra)]
            for r in real: st.assume(z3.ULE(ex.load_bytes(st, simp(r + 8), 4), 2)) if wrap else None
            def post(o):
                if not expect_ret(ex, o): return
                ex.oblige(o.st, o.val == spec, "match of a static signature is none/partial/exact as its parts dictate")
                heap_frame(ex, pre, o)
            return [p] + real, post
        return setup
    I, O, VD = "int", "DrvObj", "void"
    M = "reflect::Match " + FUNC
    c.verify(ex, M + "test<int (int)>() const", static((I, COPY, False), [(I, COPY, False)]))
    c.verify(ex, M + "test<void ()>() const", static((VD, COPY, False), []))
    c.verify(ex, M + "test<DrvObj const& (DrvObj&, DrvObj&&)>() const", static((O, LVAL, True), [(O, LVAL, False), (O, RVAL, False)]))
    c.verify(ex, M + "testParams<int, int&>(int&) const", static((I, COPY, False), [(I, LVAL, False)], 1))
    c.verify(ex, M + "testParams<void>() const", static((VD, COPY, False), []))
    c.verify(ex, M + "testParams<DrvObj&, DrvObj&, DrvObj const&>(DrvObj&, DrvObj const&) const", static((O, LVAL, False), [(O, LVAL, False), (O, LVAL, True)], 2))
    c.verify(ex, M + "testParams<reflect::Value, DrvObj, int&, DrvObj&>(DrvObj&&, int&, DrvObj&) const",
             static(("reflect::Value", COPY, False), [(O, RVAL, False), (I, LVAL, False), (O, LVAL, False)], 3))
    c.absorb(ex)
    c.assumptions += COMMON_ASSUMPTIONS + [
        "Argument::isConvertibleTo is replaced by its contract, verified in C01", "functions are read through their accessors returnType(), arguments(), argument(i)",
        "an Argument's reference kind is one of its three enumerators and its type pointer is not null (type invariant)",
        "Function::test<Fn> and testParams are verified at seven instantiations of zero to three arguments"]
    c.finish(witness=lambda c: std_witness(c, "c03.cpp"))


if __name__ == "__main__": main(run, "C03")
