#!/usr/bin/env python3-vt
"""C23: a dynamic call passes each argument once, in order, cast to the parameter at its position, and wraps the result."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

stl.Executor.ghost_sorts.update({"vid": B64})
CASTED = z3.Function("castResult", B64, B64, B64)          # (value identity, target type) -> the object the cast yields
INTV = z3.Function("castNumber", B64, B64, B64)
OBJ = "long d[n]"

#            name, parameter types, result type
FUNCTORS = [("Fii", ["int", "int"], "int"), ("Fv", [], "void"), ("Fr", ["Pa&", "Pa&"], "Pa&"), ("Fpp", ["Pa", "Pa const&"], "Pa"), ("Fval", ["reflect::Value", "reflect::Value"], "reflect::Value"),
            ("Fm", ["Pa&&", "Pa&&", "Pa&"], "void"), ("Fc", ["long", "long", "long"], "long"), ("Fe", ["int", "int"], "int"), ("F6", ["Pa&", "Pa const&", "int", "Pa", "int", "Pa&&"], "Pa")]
GLOBALS = [("int (*)(int, int)", ["int", "int"], "int"), ("void (*)(Pa&, Pa const&)", ["Pa&", "Pa const&"], "void"), ("Pa (*)(Pa&&, Pa)", ["Pa&&", "Pa"], "Pa")]
MEMBERS = [("int (Ob::*)(int, int) const", ["Ob const&", "int", "int"], "int"), ("void (Ob::*)(Pa&, Pa const&)", ["Ob&", "Pa&", "Pa const&"], "void"), ("Pa (Ob::*)(int) const", ["Ob const&", "int"], "Pa"),
           ("Pa& (Ob::*)(Pa&, Pa&)", ["Ob&", "Pa&", "Pa&"], "Pa&")]
SCALAR = {"int": 4, "long": 8}


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/function.cpp"])

    def targ(t): return z3.Const("target<%s>" % t, B64)

    def fresh_ex():
        ex = c.executor(mods); read_sizes(ex, mods); ex.check_null = False
        VS = ex.sizes["reflect::Value"]
        def vid(s, p): return ex.gget(s, p, "vid")
        def vcopy(ex, s, a, cx):
            i = vid(s, a[1])
            ex.gset(s, a[0], "vid", i); return stl.R(s)
        ex.contract("re:^reflect::Value::Value\\(reflect::Value( const)?&&?\\)$", vcopy)
        def vdefault(ex, s, a, cx): ex.gset(s, a[0], "vid", z3.BitVec("void_value", 64)); return stl.R(s)
        ex.contract("reflect::Value::Value()", vdefault)
        ex.contract("re:^reflect::Value::~Value\\(\\)$", lambda ex, s, a, cx: stl.R(s))
        def wrap(ex, s, a, cx):
            """a value built from a C++ object: its identity is fresh; the object is remembered"""
            t = re.match(r"reflect::Value::Value<(.*?)(, void)?>\((.*)\)$", cx["dem"]).group(3)
            i = ex.fresh(B64, "wrapped"); base = t.rstrip("&").strip()
            cont = ex.load_bytes(s, a[1], SCALAR[base]) if base in SCALAR else a[1]
            s.log = s.log + (("wrap", t, cont, i, ex.gget(s, a[1], "obj") if base not in SCALAR else None, t),)
            ex.gset(s, a[0], "vid", i); return stl.R(s)
        ex.contract("re:^reflect::Value::Value<", wrap)
        def cast(ex, s, a, cx):
            mt = re.search(r"reflect::cast<(.*)>\((.*)\)$", cx["dem"])
            tgt = stl.targs("x<" + mt.group(1) + ">")[0]; par = mt.group(2)
            if not par.startswith("reflect::Value"):
                # wrapping an argument of a typed call into a value
                if tgt != "reflect::Value": raise Unsupported("cast " + cx["dem"])
                i = ex.fresh(B64, "wrapped"); base = par.rstrip("&").replace(" const", "").strip()
                s.log = s.log + (("arg", par, a[1], i),); ex.gset(s, a[0], "vid", i); return stl.R(s)
            sret = cx["sret"] if "sret" in cx else None
            if tgt == "reflect::Value" and cx["I"].ty.kind == "ptr":      # a value is passed through
                s.log = s.log + (("cast", tgt, vid(s, a[0]), None),); return stl.R(s, a[0])
            if cx["I"].ty.kind == "void":
                i = vid(s, a[1]); s.log = s.log + (("cast", tgt, i, a[0]),)
                if tgt == "reflect::Value": ex.gset(s, a[0], "vid", i)
                else: ex.gset(s, a[0], "obj", CASTED(i, targ(tgt)))
                return stl.R(s)
            i = vid(s, a[0])
            s.log = s.log + (("cast", tgt, i, None),)
            base = tgt.strip()
            if base in SCALAR: return stl.R(s, simp(z3.Extract(8 * SCALAR[base] - 1, 0, CASTED(i, targ(tgt)))))
            return stl.R(s, CASTED(i, targ(tgt)))
        ex.contract("re:(^| )reflect::cast<", cast)
        ex.contract("re:^Pa::Pa\\(Pa( const)?&&?\\)$", lambda ex, s, a, cx: (ex.gset(s, a[0], "obj", ex.gget(s, a[1], "obj")), stl.R(s))[1])
        ex.contract("Pa::~Pa()", lambda ex, s, a, cx: stl.R(s))
        return ex
    stl.Executor.ghost_sorts["obj"] = B64

    def run_event(ex, s, callee, this, a, params, ret, I):
        """the callable runs: result of its kind"""
        if ret == "Pa" or ret == "reflect::Value":
            res, a = a[0], a[1:]
        if this is not None: th, a = a[0], a[1:]
        else: th = None
        got = []
        for t, x in zip(params, a):
            if t in SCALAR: got.append(x)
            elif t in ("Pa", "Pa&&"): got.append(ex.gget(s, x, "obj"))
            elif t == "reflect::Value": got.append(ex.gget(s, x, "vid"))
            else: got.append(x)
        val = None
        if ret in SCALAR: val = z3.BitVec("result", 8 * SCALAR[ret])
        elif ret == "Pa&": val = z3.BitVec("result", 64)
        elif ret == "Pa": ex.gset(s, res, "obj", z3.BitVec("result", 64))
        elif ret == "reflect::Value": ex.gset(s, res, "vid", z3.BitVec("result", 64))
        s.log = s.log + (("run", callee, th, got, len(a)),)
        return stl.R(s, val)

    def value_function(kind, C, params, ret):
        ex = fresh_ex(); n = len(params)
        typ = C
        if kind == "functor":
            ex.contract("re:^%s::operator\\(\\)\\(.*\\)( const)?$" % C, lambda ex, s, a, cx: run_event(ex, s, None, True, a, params, ret, cx["I"]))
            ex.contract("re:^%s::%s\\(" % (C, C), lambda ex, s, a, cx: (setattr(s, "log", s.log + (("make", a[0], a[1]),)), stl.R(s))[1])
            ex.contract("%s::~%s()" % (C, C), lambda ex, s, a, cx: (setattr(s, "log", s.log + (("destroy", a[0]),)), stl.R(s))[1])
        else:
            ex.indirect = lambda ex, s, fp, a, I: run_event(ex, s, fp, kind == "member" or None, a, params[1:] if kind == "member" else params, ret, I)
        make = ex.find(re.compile(r"reflect::makeValueFunction<%s>\(" % re.escape(C)))
        if not make: ex.cur = C; ex.fail("function under contract exists", "no makeValueFunction<%s>" % C, "extract"); c.obls += ex.obls; return
        # the generic call operator: the entry of the virtual table used by Function::call
        call = ex.find(re.compile(r"reflect::ValueFunctionImpl<%s, reflect::TypeVector<.*>::operator\(\)\(" % re.escape(C)))
        if not call: ex.cur = C; ex.fail("function under contract exists", "no call operator for %s" % C, "extract"); c.obls += ex.obls; return
        def setup(ex, st):
            ex.contract("malloc", lambda ex, s, a, cx: stl.R(s, ex.new_region(s, num(simp(a[0])), "malloc", None, "callable").addr), True)
            # a wrapped callable, as makeValueFunction builds it
            if kind == "functor": arg = [ptr(ex, st, "callable", 8)]
            elif kind == "global": arg = [z3.BitVec("function", 64)]; st.assume(z3.And(z3.UGE(arg[0], 4096), z3.ULT(arg[0], 1 << 45)))
            else:
                f, adj = z3.BitVecs("method this_adjustment", 64); arg = [f, adj]; st.assume(z3.Extract(0, 0, f) == 0); st.assume(z3.And(z3.UGE(f, 4096), z3.ULT(f, 1 << 45), z3.ULT(adj, 1 << 20)))
                mod, nm = ex.find_def(make[0])
                if len(mod.func(nm).params) == 1: arg = [(f, adj)]
            outs = [o for o in ex.call(st, make[0], arg) if o.kind == "ret"]
            if len(outs) != 1: raise Unsupported("makeValueFunction has %d outcomes" % len(outs))
            w = outs[0].val; s = outs[0].st
            inner = [e[1] for e in s.log if e[0] == "make"]; dead = [e[1] for e in s.log if e[0] == "destroy"]
            inner = [x for x in inner if not any(x.eq(d) for d in dead)]
            for k in State.__slots__: setattr(st, k, getattr(s, k))
            st.log = ()
            ids = [z3.BitVec("argument%d" % i, 64) for i in range(n)]; vals = []
            for i in ids:
                r = ex.new_region(st, ex.sizes["reflect::Value"], "alloca", None, "argument"); ex.gset(st, r.addr, "vid", i); vals.append(r.addr)
            res = ex.new_region(st, ex.sizes["reflect::Value"], "alloca", None, "result").addr
            vslot = ex.load_bytes(st.fork(), ex.load_bytes(st.fork(), w, 8), 8)
            pre = st.fork()
            def post(o):
                t = o.st
                if not expect_ret(ex, o): return
                runs = [e for e in t.log if e[0] == "run"]; casts = [e for e in t.log if e[0] == "cast"]
                ex.oblige(t, z3.BoolVal(len(runs) == 1), "the callable runs exactly once (%d times)" % len(runs))
                if len(runs) != 1: return
                _, fp, th, got, cnt = runs[0]
                if kind == "functor": ex.oblige(t, z3.BoolVal(len(inner) == 1 and th.eq(inner[0])), "the wrapped callable itself runs")
                elif kind == "global": ex.oblige(t, fp == arg[0], "the wrapped function itself runs")
                else:
                    ex.oblige(t, fp == f, "the wrapped method itself runs")
                    ex.oblige(t, th == CASTED(ids[0], targ(params[0])) + adj, "the first argument is the object")
                want = params[1:] if kind == "member" else params; wi = ids[1:] if kind == "member" else ids
                ex.oblige(t, z3.BoolVal(cnt == len(want)), "the callable gets as many arguments as it has parameters")
                for k, (p, i, g) in enumerate(zip(want, wi, got)):
                    w_ = i if p == "reflect::Value" else CASTED(i, targ(p))
                    if p in SCALAR: w_ = z3.Extract(8 * SCALAR[p] - 1, 0, w_)
                    ex.oblige(t, g == w_, "parameter %d receives argument %d cast to the parameter's type" % (k, k))
                ex.oblige(t, z3.BoolVal(len(casts) == n), "each argument is cast exactly once (%d casts of %d arguments)" % (len(casts), n))
                wr = [e for e in t.log if e[0] == "wrap"]
                rid = ex.gget(t, res, "vid")
                if ret == "void": ex.oblige(t, z3.And(rid == z3.BitVec("void_value", 64), z3.BoolVal(not wr)), "a callable without result yields a void value")
                elif ret == "reflect::Value": ex.oblige(t, z3.And(rid == z3.BitVec("result", 64), z3.BoolVal(not wr)), "a value returned by the callable is passed on")
                else:
                    ok = len(wr) == 1
                    ex.oblige(t, z3.BoolVal(ok), "the result is wrapped once")
                    if ok:
                        R_ = z3.BitVec("result", 8 * SCALAR.get(ret, 8))
                        ex.oblige(t, z3.And(rid == wr[0][3], (wr[0][4] if ret == "Pa" else wr[0][2]) == R_), "the value returned holds the callable's result")
                        ex.oblige(t, z3.BoolVal(wr[0][1].endswith("&&") == (not ret.endswith("&"))), "a reference result is wrapped as a reference, any other as a fresh object")
                heap_frame(ex, pre, o, allowed=("vid", "obj"))
            # the call operator is entry 0 of the table, where Function::call looks for it
            q = st.fork()
            ex.mute, mu = 0, ex.mute
            tgt = simp(vslot); nm = ex.addrfn.get(num(tgt)) if isnum(tgt) else None
            ex.oblige(q, z3.BoolVal(nm is not None and demangle(nm) == demangle(call[0])), "the generic call reaches this operator (entry 0 of the virtual table)", "vtable")
            ex.mute = mu
            return [res, w] + vals, post
        c.verify(ex, None, setup, label="ValueFunctionImpl<%s>::operator()" % C, mangled=call[0])
    for C, p, r in FUNCTORS: value_function("functor", C, p, r)
    for C, p, r in GLOBALS: value_function("global", C, p, r)
    for C, p, r in MEMBERS: value_function("member", C, p, r)

    # ---- Function::call: arguments reach the wrapped callable in order, its result is given back --------------------------------------
    CALLS = [("int", "int, int&, int&>(int&, int&)", ["int&", "int&"]), ("void", "void>()", []), ("Pa&", "Pa&, Pa&, Pa&>(Pa&, Pa&)", ["Pa&", "Pa&"]), ("reflect::Value", "reflect::Value, reflect::Value&, reflect::Value const&>(reflect::Value&, reflect::Value const&)", ["V", "V"]),
             ("Pa", "Pa, Pa&, Pa const&, int&>(Pa&, Pa const&, int&)", ["Pa&", "Pa const&", "int&"]), ("void", "void, Pa, reflect::Value, reflect::Value&>(Pa&&, reflect::Value&&, reflect::Value&)", ["Pa&&", "V", "V"]), ("reflect::Value", "reflect::Value, int&>(int&)", ["int&"])]
    def function_call(ret, sig, params):
        ex = fresh_ex()
        ex.contract("re:^reflect::Match reflect::Function::testParams<", lambda ex, s, a, cx: (s.assume(z3.ULE(z3.BitVec("own_match", 32), 2)), stl.R(s, z3.BitVec("own_match", 32)))[1])
        def ind(ex, s, fp, a, I):
            s.log = s.log + (("invoke", fp, a[1], [ex.gget(s, x, "vid") for x in a[2:]]),); ex.gset(s, a[0], "vid", z3.BitVec("returned", 64)); return stl.R(s)
        ex.indirect = ind
        def rc(ex, s, a, cx):
            if ret == "void": v, src = None, a[0]
            elif cx["I"].ty.kind == "void": v, src = None, a[1]; ex.gset(s, a[0], "vid" if ret == "reflect::Value" else "obj", z3.BitVec("given_back", 64))
            else: v, src = ex.undef(cx["I"].ty), a[0]
            s.log = s.log + (("retcast", ex.gget(s, src, "vid"), v),); return stl.R(s, v)
        ex.contract("re:(^| )reflect::retCast<", rc)
        def setup(ex, st):
            f = ptr(ex, st, "this", 8); args, ids = [], []
            for i, p in enumerate(params):
                if p == "V":
                    r = ex.new_region(st, ex.sizes["reflect::Value"], "alloca", None, "argument"); v = z3.BitVec("argument%d" % i, 64); ex.gset(st, r.addr, "vid", v); args.append(r.addr); ids.append(v)
                else: args.append(ptr(ex, st, "argument%d" % i, 8)); ids.append(None)
            sret = ret in ("Pa", "reflect::Value")
            res = ex.new_region(st, 40, "alloca", None, "result").addr if sret else None
            pre = st.fork()
            def post(o):
                t = o.st; inv = [e for e in t.log if e[0] == "invoke"]
                if o.kind == "error": ex.oblige(t, z3.BoolVal(not inv), "nothing is invoked when an error is reported"); return
                if not expect_ret(ex, o): return
                ex.oblige(t, z3.BoolVal(len(inv) == 1 and len(inv[0][3]) == len(params)), "the callable is invoked once with every argument")
                if len(inv) != 1 or len(inv[0][3]) != len(params): return
                wr = [e for e in t.log if e[0] == "arg"]
                ex.oblige(t, z3.BoolVal(len(wr) == sum(p != "V" for p in params)), "each argument is wrapped once")
                for k, (p, a, i) in enumerate(zip(params, args, ids)):
                    g = inv[0][3][k]
                    if p == "V": ex.oblige(t, g == i, "argument %d reaches position %d" % (k, k))
                    else: ex.oblige(t, z3.Or([z3.And(g == e[3], e[2] == a, z3.BoolVal(e[1] == p)) for e in wr] + [z3.BoolVal(False)]), "argument %d reaches position %d with its own reference kind" % (k, k))
                rcs = [e for e in t.log if e[0] == "retcast"]
                if ret == "void": ex.oblige(t, z3.BoolVal(len(rcs) <= 1), "the result is dropped")
                else:
                    ex.oblige(t, z3.And([z3.BoolVal(len(rcs) == 1)] + [e[1] == z3.BitVec("returned", 64) for e in rcs]), "the caller gets the value the callable returned, cast once")
                    if rcs and not sret: ex.oblige(t, o.val == rcs[0][2], "the cast result is given back")
                    if sret: ex.oblige(t, ex.gget(t, res, "vid" if ret == "reflect::Value" else "obj") == z3.BitVec("given_back", 64), "the cast result is given back")
            return ([res] if sret else []) + [f] + args, post
        c.verify(ex, "%s reflect::Function::call<%s const" % (ret, sig), setup)
    for r, s, p in CALLS: function_call(r, s, p)
    c.assumptions += COMMON_ASSUMPTIONS + ["casts of single values enter by their contract (C08), construction of values by theirs (C07): a cast yields a function of the value and the target type",
        "callables are represented by opaque functors, function pointers and non-virtual member functions with zero to three parameters of scalar, reference, r-value, class and dynamic type",
        "a Function holds a live callable (C14)"]
    c.finish(witness=lambda c: std_witness(c, "c23.cpp"))


if __name__ == "__main__": main(run, "C23")
