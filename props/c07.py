#!/usr/bin/env python3-vt
"""C07: values refer to l-values and own r-values; copies, assignments and views share; typed access is checked."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp", VERIF + "/drivers/value.cpp"])

    def fresh_ex():
        ex = c.executor(mods); read_sizes(ex, mods); type_predicates(ex)
        return ex

    # ---- copies, moves, assignments ------------------------------------------------------------------------------------
    def transfer(dem, move, assign, alias=False):
        ex = fresh_ex()
        def setup(ex, st):
            src, sv = value_obj(ex, st, "source")
            if alias: dst = src
            elif assign: dst, _ = value_obj(ex, st, "target")
            else: dst = ex.new_region(st, ex.sizes["reflect::Value"], "alloca", None, "result").addr
            pre = st.fork()
            def post(o):
                if not expect_ret(ex, o): return
                r = Val(ex, o.st, dst)
                ex.oblige(o.st, r.shares(sv), "the result points to the source's object and shares its ownership")
                ex.oblige(o.st, r.arg.eq(sv.arg), "the result has the source's description")
                if assign: ex.oblige(o.st, o.val == dst, "assignment returns its target")
                if not alias:
                    q = Val(ex, o.st, src)
                    if move: ex.oblige(o.st, z3.Or(q.own == 0, z3.And(q.own == sv.own, q.ptr == sv.ptr)), "the moved-from value owns nothing foreign")
                    else: ex.oblige(o.st, q.same(sv), "the source is unchanged")
                    ex.oblige(o.st, z3.BoolVal(not any(e[0] == "sp.new" for e in o.st.log)), "no separate ownership of the same object is made")
                heap_frame(ex, pre, o)
            return [dst, src], post
        c.verify(ex, dem, setup, label=dem + (" (self)" if alias else ""))
    transfer(VAL + "Value(reflect::Value&)", False, False); transfer(VAL + "Value(reflect::Value const&)", False, False); transfer(VAL + "Value(reflect::Value&&)", True, False)
    for al in (False, True):
        transfer(VAL + "operator=(reflect::Value const&)", False, True, al); transfer(VAL + "operator=(reflect::Value&&)", True, True, al)

    def default(ex, st):
        dst = ex.new_region(st, ex.sizes["reflect::Value"], "alloca", None, "result").addr; pre = st.fork()
        def post(o):
            if not expect_ret(ex, o): return
            r = Val(ex, o.st, dst)
            ex.oblige(o.st, z3.And(r.value == 0, r.own == 0, r.arg.ty == ex.type_const("void")), "an empty value refers to nothing, owns nothing and is void"); heap_frame(ex, pre, o)
        return [dst], post
    ex = fresh_ex(); c.verify(ex, VAL + "Value()", default)

    # ---- views ---------------------------------------------------------------------------------------------------------------
    def view(name, const):
        ex = fresh_ex()
        def setup(ex, st):
            src, sv = value_obj(ex, st, "source"); res = ex.new_region(st, ex.sizes["reflect::Value"], "alloca", None, "result").addr; pre = st.fork()
            def post(o):
                if not expect_ret(ex, o): return
                r, q = Val(ex, o.st, res), Val(ex, o.st, src)
                ex.oblige(o.st, r.shares(sv), "the view points to the same object and shares its ownership")
                ex.oblige(o.st, z3.And(r.arg.ty == sv.arg.ty, r.arg.ref == m(RVAL), r.arg.const == (z3.BoolVal(True) if const else sv.arg.const)), "the view changes only the reference kind%s" % (" and the constness" if const else ""))
                ex.oblige(o.st, q.same(sv), "the viewed value is unchanged"); heap_frame(ex, pre, o)
            return [res, src], post
        c.verify(ex, VAL + name + "() const", setup)
    view("toConst", True); view("rvalue", False)

    # ---- construction -------------------------------------------------------------------------------------------------------
    def log(ex, cls):
        def ev(kind):
            def h(ex, s, a, cx): s.log = s.log + ((kind, a[0], a[1] if len(a) > 1 else None),); return stl.R(s)
            return h
        ex.contract("%s::%s(%s const&)" % (cls, cls, cls), ev("copy")); ex.contract("%s::%s(%s&&)" % (cls, cls, cls), ev("move")); ex.contract("%s::~%s()" % (cls, cls), ev("destroy"))
        def on_delete(ex, s, p): s.log = s.log + (("free", p, None),); return stl.R(s)
        ex.on_delete = on_delete

    def deleter_ok(ex, o, cls, D, own_ptr):
        """the recorded deleter destroys the object as a cls and frees it, once"""
        D = D.strip().replace("const&", "").rstrip("& ")
        names = ex.find("%s::operator()(void*) const" % D) or ex.find("%s::operator()(%s*) const" % (D, cls))
        if not names: ex.oblige(o.st, z3.BoolVal(False), "the deleter %s is known" % D); return
        mod, nm = ex.find_def(names[0]); s = o.st.fork(); s.log = (); d = ex.new_region(s, 8, "alloca", None, "deleter").addr
        outs = [x for x in ex.run(mod.func(nm), s, [d, own_ptr]) if x.kind != "exc"]
        for x in outs:
            ev = [e for e in x.st.log if e[0] in ("destroy", "free")]
            ok = x.kind == "ret" and [e[0] for e in ev] == ["destroy", "free"] and all(simp(e[1] == own_ptr).eq(z3.BoolVal(True)) for e in ev)
            ex.oblige(x.st, z3.BoolVal(ok), "the storage's deleter destroys the object once, as the stored type, and frees it")
        if not outs: ex.oblige(o.st, z3.BoolVal(False), "the deleter returns")

    def construct(cls, form):
        ex = fresh_ex(); log(ex, cls)
        rv = form in ("&&", "const&&"); const = form.startswith("const")
        tpl = {"&": cls + "&", "const&": cls + " const&", "&&": cls, "const&&": cls + " const"}[form]
        par = {"&": cls + "&", "const&": cls + " const&", "&&": cls + "&&", "const&&": cls + " const&&"}[form]
        copyable, movable = cls in ("Cp", "Co"), cls in ("Cp", "Mo")
        how = None if not rv else "move" if movable and not const else "copy" if copyable else "refuse"
        def setup(ex, st):
            x = ptr(ex, st, "object", 8); dst = ex.new_region(st, ex.sizes["reflect::Value"], "alloca", None, "result").addr; pre = st.fork()
            def post(o):
                ev = [e for e in o.st.log if e[0] in ("copy", "move", "destroy", "free")]
                if how == "refuse":
                    if o.kind == "ret": ex.oblige(o.st, z3.BoolVal(False), "an r-value that can be neither moved nor copied is refused")
                    else: ex.oblige(o.st, z3.BoolVal(not ev), "a refused object is not touched")
                    return
                if not expect_ret(ex, o): return
                r = Val(ex, o.st, dst)
                if not rv:
                    ex.oblige(o.st, z3.And(r.value == x, r.own == 0), "a value built from an l-value refers to that very object and owns nothing")
                    ex.oblige(o.st, z3.And(r.arg.ty == ex.type_const(cls), r.arg.ref == m(LVAL), r.arg.const == z3.BoolVal(const)), "it is described as an l-value of the object's type and constness")
                    ex.oblige(o.st, z3.BoolVal(not ev), "the object is neither copied nor destroyed")
                else:
                    ok = len(ev) == 1 and ev[0][0] == how
                    ex.oblige(o.st, z3.BoolVal(ok), "the object is %s exactly once" % {"move": "moved", "copy": "copied"}[how])
                    if not ok: return
                    ex.oblige(o.st, z3.And(ev[0][1] == r.value, ev[0][2] == x), "the stored object is made from the given one")
                    reg = ex.locate(o.st, simp(r.value))
                    fresh = reg[0] == "r" and o.st.regions[reg[1]].kind == "new" and reg[2] == 0 and o.st.regions[reg[1]].size == 24
                    ex.oblige(o.st, z3.BoolVal(fresh), "the stored object is a fresh heap object of its own")
                    own = [e for e in o.st.log if e[0] == "sp.new"]
                    ex.oblige(o.st, z3.And(r.own != 0, r.ptr == r.value) if len(own) == 1 else z3.BoolVal(False), "the value owns the stored object")
                    ex.oblige(o.st, z3.And(r.arg.ty == ex.type_const(cls), r.arg.ref == m(LVAL), z3.Not(r.arg.const)), "a stored object is described as a non-const l-value")
                    if len(own) == 1:
                        ps = own[0][3]
                        if len(ps) == 2: deleter_ok(ex, o, cls, ps[1], simp(r.ptr))
                        else: ex.oblige(o.st, z3.BoolVal(ps[0].replace(" ", "") == cls + "*"), "the storage deletes the object as the stored type")
                heap_frame(ex, pre, o)
            return [dst, x], post
        c.verify(ex, "%sValue<%s>(%s)" % (VAL, tpl, par), setup)
    for cls in ("Cp", "Mo", "Co", "No"):
        for form in ("&", "const&", "&&", "const&&"): construct(cls, form)

    # ---- typed access -------------------------------------------------------------------------------------------------------------
    def access(dem):
        ex = fresh_ex()
        def setup(ex, st):
            src, sv = value_obj(ex, st, "value"); T = ex.type_const("Cp"); pre = st.fork()
            def post(o):
                if o.kind == "error": ex.oblige(o.st, z3.Not(PARENT(T, sv.arg.ty)), "access is refused only if the object's type is not the requested type or a descendant"); return
                if not expect_ret(ex, o): return
                ex.oblige(o.st, PARENT(T, sv.arg.ty), "access is refused if the object's type is not the requested type or a descendant")
                ex.oblige(o.st, o.val == sv.value, "access yields the very object"); ex.oblige(o.st, Val(ex, o.st, src).same(sv), "the value is unchanged"); heap_frame(ex, pre, o)
            return [src], post
        c.verify(ex, dem, setup)
    access("Cp& reflect::Value::as<Cp>()"); access("Cp const& reflect::Value::get<Cp>() const")

    # ---- copy() / move(): a new object made by the type's own constructor ---------------------------------------------------------
    def remake(name):
        ex = fresh_ex(); ABLE = z3.Function("is" + name, B64, z3.BoolSort())
        ex.contract("reflect::Type::isCopiable() const", lambda ex, s, a, cx: stl.R(s, simp(z3.Function("iscopy", B64, z3.BoolSort())(a[0]))))
        ex.contract("reflect::Type::isMovable() const", lambda ex, s, a, cx: stl.R(s, simp(z3.Function("ismove", B64, z3.BoolSort())(a[0]))))
        def cons(ex, s, a, cx):
            s.log = s.log + (("construct", a[1], Val(ex, s, a[2]), a[0]),)
            return stl.R(s) + stl.ERR(s.fork(), "constructor")
        ex.contract("re:^reflect::Value reflect::Type::construct<reflect::Value( const)?&>\\(", cons)
        ex.contract("re:^reflect::Value reflect::Type::construct<reflect::Value>\\(", cons)
        def setup(ex, st):
            src, sv = value_obj(ex, st, "source"); res = ex.new_region(st, ex.sizes["reflect::Value"], "alloca", None, "result").addr; pre = st.fork()
            able = ABLE(sv.arg.ty)
            def post(o):
                k = [e for e in o.st.log if e[0] == "construct"]
                if o.kind == "error" and not k: ex.oblige(o.st, z3.Not(able), "%s is refused only for a type that does not support it" % name); ex.oblige(o.st, Val(ex, o.st, src).same(sv), "a refused %s changes nothing" % name); return
                if o.kind == "error": return
                if not expect_ret(ex, o): return
                ex.oblige(o.st, able, "%s is refused for a type that does not support it" % name)
                if len(k) != 1: ex.oblige(o.st, z3.BoolVal(False), "the type's constructor is called once"); return
                ex.oblige(o.st, z3.And(k[0][1] == sv.arg.ty, k[0][3] == res), "the result is made by the constructor of the value's own type")
                ex.oblige(o.st, k[0][2].shares(sv), "the new object is made from the value's object")
                if name == "copy": ex.oblige(o.st, Val(ex, o.st, src).same(sv), "the copied value is unchanged")
                else: ex.oblige(o.st, z3.And(k[0][2].arg.ref == m(RVAL), k[0][2].arg.const == sv.arg.const), "the constructor is given an r-value of the same constness")
            return [res, src], post
        c.verify(ex, VAL + name + ("() const" if name == "copy" else "()"), setup)
    remake("copy"); remake("move")
    c.assumptions += COMMON_ASSUMPTIONS + [
        "std::shared_ptr runs the deleter it was given exactly once, when its last owner goes away (library contract); that the deleter destroys and frees the stored object is proved",
        "construction is verified at four opaque class types (copiable and movable, movable only, copiable only, neither) in all four value categories",
        "isChildOf / isCopiable / isMovable are predicates here (C02, C08); Type::construct is replaced by an event (C04)"]
    c.finish(witness=lambda c: std_witness(c, "c07.cpp"))


if __name__ == "__main__": main(run, "C07")
