#!/usr/bin/env python3-vt
"""C14: every callable wrapped by a Function is owned once, destroyed once and freed once."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

F = "reflect::Function::"
FREE = "reflect::freeValueFunction(void*)"
DTOR = F + "~Function()"
CALLABLES = ["Fii", "Fv", "Fr", "Fpp", "Fval", "Fm", "Fc", "Fe", "F6"]


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/function.cpp"])

    def fresh_ex(release=True):
        ex = c.executor(mods); read_sizes(ex, mods); ex.check_null = False
        if release: ex.contract(FREE, lambda ex, s, a, cx: (setattr(s, "log", s.log + (("release", a[0]),)), stl.R(s))[1])
        def malloc(ex, s, a, cx):
            n = simp(a[0]); r = ex.new_region(s, num(n) if isnum(n) else None, "malloc", None, "callable memory"); s.log = s.log + (("alloc", r.addr),); return stl.R(s, r.addr)
        def free(ex, s, a, cx):
            p = simp(a[0]); s.log = s.log + (("free", p),)
            L = ex.locate(s, p)
            if L[0] == "r":
                r = ex.region(s, L[1])
                if r.kind != "malloc" or L[2] != 0: raise UB("free of memory that was not allocated")
                s.wregion(L[1]).alive = False
            return stl.R(s)
        ex.contract("malloc", malloc, True); ex.contract("free", free, True)
        ex.contract("re:^reflect::Argument::make<", lambda ex, s, a, cx: stl.R(s, retval(ex, s, cx, a)))
        for C in CALLABLES:
            ex.contract("re:^%s::%s\\(" % (C, C), lambda ex, s, a, cx, C=C: (setattr(s, "log", s.log + (("make", C, a[0]),)), stl.R(s))[1])
            ex.contract("%s::~%s()" % (C, C), lambda ex, s, a, cx, C=C: (setattr(s, "log", s.log + (("destroy", C, a[0]),)), stl.R(s))[1])
        return ex

    def owned(ex, st, f):
        """what the function owns: the callable its destructor releases (0: none)"""
        names = ex.find(DTOR); mod, nm = ex.find_def(names[0]); n0 = len(st.log)
        pre = set(st.pcids); ex.mute += 1; outs = ex.run(mod.func(nm), st.fork(), [f]); ex.mute -= 1
        v = bv(0)
        for o in outs:
            rel = [e[1] for e in o.st.log[n0:] if e[0] == "release"]
            if o.kind != "ret" or len(rel) > 1: raise Unsupported("the destructor releases %d callables" % len(rel))
            cond = z3.And([x for x in o.st.pc if x.get_id() not in pre] + [z3.BoolVal(True)])
            if rel: v = z3.If(cond, rel[0], v)
        return simp(v)

    def fn(ex, st, name): return obj(ex, st, name, ex.sizes["reflect::Function"])
    def released(o, n0): return [e[1] for e in o.st.log[n0:] if e[0] == "release"]
    def sig(ex, st, p): return Fn(ex, st, p)

    # ---- releasing -------------------------------------------------------------------------------------------------------
    def destructor(ex, st):
        f = fn(ex, st, "this"); own = owned(ex, st, f); n0 = len(st.log)
        def post(o):
            if not expect_ret(ex, o): return
            r = released(o, n0)
            ex.oblige(o.st, z3.BoolVal(len(r) <= 1), "a destructor releases at most one callable")
            if not r: ex.oblige(o.st, own == 0, "the callable a function owns is released when the function is destroyed")
            else: ex.oblige(o.st, r[0] == own, "the callable a function owns is released when the function is destroyed")
        return [f], post
    c.verify(fresh_ex(), DTOR, destructor)

    def release(dem, nargs):
        ex = fresh_ex(False)
        def ind(ex, s, fp, a, I): s.log = s.log + (("vcall", fp, a[0]),); return stl.R(s)
        ex.indirect = ind
        def setup(ex, st):
            p = z3.Const("callable", B64); st.assume(z3.ULT(p, 1 << 45)); st.assume(z3.Extract(2, 0, p) == 0)
            s0 = st.fork(); vt = ex.load_bytes(s0, p, 8); slot = ex.load_bytes(s0, simp(vt + bv(8)), 8)
            def post(o):
                if not expect_ret(ex, o): return
                ev = [e for e in o.st.log if e[0] in ("vcall", "free")]
                if not ev: ex.oblige(o.st, p == 0, "only a function that owns nothing releases nothing"); return
                ex.oblige(o.st, z3.And(p != 0, z3.BoolVal([e[0] for e in ev] == ["vcall", "free"])), "the callable is destroyed through its own destructor, then its memory is freed, once each")
                for e in ev: ex.oblige(o.st, (e[2] if e[0] == "vcall" else e[1]) == p, "the callable released is the given one")
                for e in ev:
                    if e[0] == "vcall": ex.oblige(o.st, e[1] == slot, "the callable's own destruction entry is used")
            return ([ptr(ex, st, "self")] if nargs == 2 else []) + [p], post
        c.verify(ex, dem, setup)
    release(FREE, 1); release("reflect::ValueFunctionDestructor::operator()(void*) const", 2)

    # ---- making a callable and releasing it ----------------------------------------------------------------------------------
    def balance(log, C):
        """addresses at which a callable of class C is alive after these events; None if one is made or destroyed twice"""
        live = []
        for e in log:
            if e[0] == "make" and e[1] == C: live.append(e[2])
            if e[0] == "destroy" and e[1] == C:
                hit = [x for x in live if x.eq(e[2])]
                if len(hit) != 1: return None
                live = [x for x in live if not x.eq(e[2])]
        return live

    def life(C, dem, nargs, what):
        ex = fresh_ex(False)
        def setup(ex, st):
            src = ptr(ex, st, "callable", 8); args = [src]; res = None
            if what == "function":
                r = ex.new_region(st, 32, "alloca", None, "name"); ex.gset(st, r.addr, "str", z3.Const("name", Str)); res = fn(ex, st, "this"); args = [res, r.addr, src]
            def post(o):
                if not expect_ret(ex, o): return
                al = [e for e in o.st.log if e[0] == "alloc"]; fr = [e for e in o.st.log if e[0] == "free"]
                live = balance(o.st.log, C)
                ok = len(al) == 1 and not fr and live is not None and len(live) == 1
                ex.oblige(o.st, z3.BoolVal(ok), "one callable is made in one fresh block of memory, temporary copies being destroyed (%d blocks, %d freed, live %s)" % (len(al), len(fr), live))
                if not ok: return
                a = al[0][1]; size = ex.locate(o.st, a); size = o.st.regions[size[1]].size
                off = simp(live[0] - a)
                ex.oblige(o.st, z3.And(z3.And(z3.ULT(off, bv(size or 0)), z3.ULE(off + bv(1 if C == "Fe" else 16), bv(size or 0)))), "the callable lies inside its block")
                # releasing it: the destructor of the function, or the release of the callable
                s2 = o.st.fork(); n0 = len(s2.log)
                if what == "function": outs = ex.call(s2, ex.find(DTOR)[0], [res])
                else:
                    ex.oblige(o.st, o.val == a, "the callable is the block itself")
                    outs = ex.call(s2, ex.find(FREE)[0], [o.val])
                n = 0
                for q in outs:
                    if not ex.feasible(q.st): continue
                    n += 1
                    if q.kind != "ret": ex.oblige(q.st, z3.BoolVal(False), "releasing the callable ends normally"); continue
                    ev = [e for e in q.st.log[n0:] if e[0] in ("destroy", "free", "alloc", "make")]
                    good = [e[0] for e in ev] == ["destroy", "free"] and ev[0][1] == C and ev[0][2].eq(live[0]) and simp(ev[1][1]).eq(simp(a))
                    ex.oblige(q.st, z3.BoolVal(good), "releasing it destroys exactly that callable, then frees exactly that block (%s)" % ([e[0] for e in ev],))
                ex.oblige(o.st, z3.BoolVal(n == 1), "releasing has one outcome")
            return args, post
        c.verify(ex, dem, setup)
    for C in CALLABLES:
        life(C, re.compile(r"reflect::makeValueFunction<%s>\(%s\)$" % (C, C)), 1, "make")
        life(C, "reflect::Function::Function<%s>(std::string const&, %s)" % (C, C), 3, "function")

    # ---- moving ---------------------------------------------------------------------------------------------------------------
    def move_ctor(ex, st):
        new, old = fn(ex, st, "new"), fn(ex, st, "source"); own = owned(ex, st, old); n0 = len(st.log)
        nm = lambda s, p: ex.gget(s, observe(ex, s, F + "name() const", p), "str")
        name, sg = nm(st, old), sig(ex, st, old); pre = st.fork()
        def post(o):
            if not expect_ret(ex, o): return
            ex.oblige(o.st, z3.BoolVal(not released(o, n0)), "moving releases nothing")
            ex.oblige(o.st, owned(ex, o.st, new) == own, "the new function owns the callable of the source"); ex.oblige(o.st, owned(ex, o.st, old) == 0, "the source owns none afterwards")
            s2 = sig(ex, o.st, new)
            ex.oblige(o.st, z3.And(nm(o.st, new) == name, s2.ret.eq(sg.ret), s2.n == sg.n, s2.args == sg.args), "name and signature are transferred")
            heap_frame(ex, pre, o)
        return [new, old], post
    c.verify(fresh_ex(), F + "Function(reflect::Function&&)", move_ctor)

    def move_assign(same):
        def setup(ex, st):
            t = fn(ex, st, "this"); s = t if same else fn(ex, st, "source")
            ot, os_ = owned(ex, st, t), owned(ex, st, s); n0 = len(st.log); pre = st.fork()
            st.assume(z3.Implies(ot != 0, ot != os_) if not same else z3.BoolVal(True))
            nm = lambda s, p: ex.gget(s, observe(ex, s, F + "name() const", p), "str")
            name, sg = nm(st, s), sig(ex, st, s)
            def post(o):
                if not expect_ret(ex, o): return
                r = [x for x in released(o, n0)]
                ex.oblige(o.st, owned(ex, o.st, t) == os_, "the target owns the callable of the source")
                if same: ex.oblige(o.st, z3.And([x == 0 for x in r] + [z3.BoolVal(True)]), "assigning a function to itself releases nothing")
                else:
                    ex.oblige(o.st, owned(ex, o.st, s) == 0, "the source owns none afterwards")
                    nz = [x for x in r]
                    cnt = z3.Sum([z3.If(x == 0, 0, 1) for x in nz] + [z3.IntVal(0)])
                    ex.oblige(o.st, z3.And([z3.Or(x == 0, x == ot) for x in nz] + [cnt == z3.If(ot == 0, 0, 1)]), "the callable the target owned is released exactly once")
                s2 = sig(ex, o.st, t)
                ex.oblige(o.st, z3.And(nm(o.st, t) == name, s2.ret.eq(sg.ret), s2.n == sg.n, s2.args == sg.args), "name and signature are transferred")
                ex.oblige(o.st, o.val == t, "assignment yields the target"); heap_frame(ex, pre, o)
            return [t, s], post
        c.verify(fresh_ex(), F + "operator=(reflect::Function&&)", setup, label=F + "operator=(Function&&)" + (" to itself" if same else ""))
    move_assign(False); move_assign(True)

    c.assumptions += COMMON_ASSUMPTIONS + ["memory allocation succeeds", "two functions never own the same callable (established by construction, preserved by every operation proved here)",
        "a callable's class is represented by nine opaque classes (one of them empty) with external constructors, destructor and call operator",
        "functions are not copied (the copy operations are deleted); the standard containers move and destroy their elements as the library specifies"]
    c.finish(witness=lambda c: std_witness(c, "c14.cpp"))


if __name__ == "__main__": main(run, "C14")
