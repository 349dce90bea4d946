#!/usr/bin/env python3-vt
"""C09: field access designates the object's address plus the field's offset, with the right type and constness."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *

FLD = "reflect::Field::"


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp", VERIF + "/drivers/value.cpp"])

    def fresh_ex():
        ex = c.executor(mods); read_sizes(ex, mods); type_predicates(ex); return ex

    def desc(ex, st, p):
        return ex.gget(st, observe(ex, st, FLD + "name() const", p), "str"), arg_at(ex, st, observe(ex, st, FLD + "argument() const", p), False), observe(ex, st, FLD + "offset() const", p), observe(ex, st, FLD + "type() const", p)

    def lookup(ex):
        FOUND, LOOK = z3.Function("found_field", B64, Str, z3.BoolSort()), z3.Function("look_field", B64, Str, B64)
        def look(ex, s, a, cx):
            n = ex.gget(s, a[1], "str"); f = FOUND(a[0], n); s2 = s.fork(); s2.assume(f); s2.assume(LOOK(a[0], n) != 0); s3 = s.fork(); s3.assume(z3.Not(f))
            return [o for o in stl.R(s2, LOOK(a[0], n)) + stl.ERR(s3, "no field") if ex.feasible(o.st)]
        ex.contract("reflect::Type::field(std::string const&) const", look)
        return FOUND, LOOK

    # ---- access as a value ------------------------------------------------------------------------------------------------------
    def field(ret, spec):
        ex = fresh_ex(); FOUND, LOOK = lookup(ex)
        def cast(ex, s, a, cx):       # reflect::Cast<Value, T>::cast(Value): C08
            s.log = s.log + (("cast", Val(ex, s, a[-1])),); s3 = s.fork()
            return stl.R(s, ex.undef(cx["I"].ty) if cx["I"].ty.kind != "void" else None) + stl.ERR(s3, "cast")
        ex.contract("re:^reflect::Cast<reflect::Value, (?!reflect::Value).*>::cast\\(reflect::Value\\)$", cast)
        def setup(ex, st):
            src, v = value_obj(ex, st, "value"); nm = obj(ex, st, "name", 32); n = z3.Const("fieldname", Str); ex.gset(st, nm, "str", n)
            f = LOOK(v.arg.ty, n); st.assume(z3.ULT(f, 1 << 45)); st.assume(f != 0)
            fn, fa, off, ft = desc(ex, st, f); arg_at(ex, st, observe(ex, st, FLD + "argument() const", f))     # type invariant of the declared description
            res = ex.new_region(st, 40, "alloca", None, "result").addr if ret in ("reflect::Value", "Cp") else None
            pre = st.fork()
            def is_field(o, r):
                ex.oblige(o.st, r.value == v.value + off, "the field is located at the object's address plus the declared offset")
                ex.oblige(o.st, z3.And(r.arg.ty == ft, r.arg.ty == fa.ty, r.arg.ref == m(LVAL)), "it is an l-value of the field's declared type")
                ex.oblige(o.st, r.arg.const == z3.Or(fa.const, v.arg.const), "it is const exactly when the field or the object is")
                ex.oblige(o.st, z3.And(r.own == 0, r.ptr == 0), "it owns nothing")
            def post(o):
                k = [e for e in o.st.log if e[0] == "cast"]
                if o.kind == "error":
                    if k: is_field(o, k[0][1])
                    else: ex.oblige(o.st, z3.Not(FOUND(v.arg.ty, n)), "access fails only if the type has no such field")
                    return
                if not expect_ret(ex, o): return
                ex.oblige(o.st, FOUND(v.arg.ty, n), "access fails if the type has no such field")
                if ret == "reflect::Value": is_field(o, Val(ex, o.st, res))
                elif len(k) == 1: is_field(o, k[0][1])
                else: ex.oblige(o.st, z3.BoolVal(False), "the field is cast to the requested type")
                ex.oblige(o.st, Val(ex, o.st, src).same(v), "the object's value is unchanged"); heap_frame(ex, pre, o)
            return ([res] if res is not None else []) + [src, nm], post
        c.verify(ex, "%s reflect::Value::field<%s>(std::string const&) const" % (ret, ret), setup)
    for t in ("reflect::Value", "int&", "int", "Cp"): field(t, None)

    # ---- declarations --------------------------------------------------------------------------------------------------------------
    def ctor(ex, st):
        sz = ex.sizes["reflect::Field"]; dst = ex.new_region(st, sz, "alloca", None, "field").addr
        nm = obj(ex, st, "name", 32); n = z3.Const("fieldname", Str); ex.gset(st, nm, "str", n)
        ty, ref, cst, off = ptr(ex, st, "fieldtype"), z3.BitVec("ref", 32), z3.BitVec("const", 8), z3.BitVec("offset", 64); st.assume(z3.And(z3.ULE(ref, 2), z3.ULE(cst, 1)))
        word = z3.Concat(z3.BitVecVal(0, 24), cst, ref); pre = st.fork()
        def post(o):
            if o.kind == "error": ex.oblige(o.st, ref != m(COPY), "a field declaration is refused only for references"); return
            if not expect_ret(ex, o): return
            ex.oblige(o.st, ref == m(COPY), "declaring a field as a reference is refused")
            fn, fa, fo, ft = desc(ex, o.st, dst)
            ex.oblige(o.st, z3.And(fn == n, fa.ty == ty, ft == ty, fa.ref == ref, fa.const == (cst != 0), fo == off), "the field keeps the name, type and offset it was declared with"); heap_frame(ex, pre, o)
        return [dst, nm, ty, word, off], post
    c.verify(fresh_ex(), FLD + "Field(std::string, reflect::Argument, unsigned long)", ctor)

    def make(t, base, const, isref):
        ex = fresh_ex()
        def setup(ex, st):
            dst = ex.new_region(st, ex.sizes["reflect::Field"], "alloca", None, "field").addr
            nm = obj(ex, st, "name", 32); n = z3.Const("fieldname", Str); ex.gset(st, nm, "str", n); off = z3.BitVec("offset", 64); pre = st.fork()
            def post(o):
                if o.kind == "error": ex.oblige(o.st, z3.BoolVal(isref), "a field declaration is refused only for references"); return
                if not expect_ret(ex, o): return
                ex.oblige(o.st, z3.BoolVal(not isref), "declaring a field as a reference is refused")
                if isref: return
                fn, fa, fo, ft = desc(ex, o.st, dst)
                ex.oblige(o.st, z3.And(fn == n, fa.ty == ex.type_const(base), ft == ex.type_const(base), fa.ref == m(COPY), fa.const == z3.BoolVal(const), fo == off), "the field has the name, type, constness and offset it was declared with")
                heap_frame(ex, pre, o)
            return [dst, nm, off], post
        c.verify(ex, "reflect::Field reflect::Field::make<%s>(std::string, unsigned long)" % t, setup)
    make("int", "int", False, False); make("int const", "int", True, False); make("int&", "int", False, True); make("int&&", "int", False, True); make("Cp", "Cp", False, False); make("Cp const&", "Cp", True, True)
    c.assumptions += COMMON_ASSUMPTIONS + ["Type::field is replaced by its contract (C06), typed casts of the accessed field by theirs (C08)", "Field::make is verified at six declared types"]
    c.finish(witness=lambda c: std_witness(c, "c09.cpp"))


if __name__ == "__main__": main(run, "C09")
