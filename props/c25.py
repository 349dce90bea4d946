#!/usr/bin/env python3-vt
"""C25: what the library registers under an operator's name is that C++ operator on the same operands; the registered constructors, assignments, casts and pointer operators are the C++ ones.

The reflection functions are run with contracts on Type::addFunction, on Function's constructor and on the members of a class (declared, never defined), which record what is registered and what is called.
Every registered callable is then applied to arbitrary operands: a member pointer must designate the operator itself; any other callable is executed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from model import *
from fnreg import *

FILES = ["bool", "char", "short", "int", "long", "long_long", "float"]
PRIM = {"bool": 1, "char": 8, "signed char": -8, "unsigned char": 8, "short": -16, "unsigned short": 16, "int": -32, "unsigned int": 32, "long": -64, "unsigned long": 64, "long long": -64, "unsigned long long": 64, "float": 32, "double": 64, "long double": 128}
PRIM["char"] = -8                                    # plain char is signed here; negative: signed
FLOAT = ("float", "double", "long double")
SIZE = lambda t: {1: 1, 128: 16}.get(abs(PRIM[t]), abs(PRIM[t]) // 8)
SPELL = {"short": "short int", "unsigned short": "unsigned short int", "long": "long int", "unsigned long": "unsigned long int", "long long": "long long int", "unsigned long long": "unsigned long long int"}
CR = "(%s const&)"
NUM = {}
for o in ("+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="): NUM["operator" + o] = ["Num::operator%s(Num const&)" % o]
for o in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "[]", "()"): NUM["operator" + o] = ["Num::operator%s(Num const&) const" % o]
NUM["operator~"] = ["Num::operator~() const"]; NUM["operator!"] = ["Num::operator!() const"]
for o in ("++", "--"): NUM["operator" + o] = ["Num::operator%s()" % o, "Num::operator%s(int)" % o]
def sub(*ops): return {"operator" + o: NUM["operator" + o] for o in ops}
GROUPS = {
    "ops_assign": ("Num", sub("+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")), "ops_incdec": ("Num", sub("++", "--")), "ops_arith": ("Num", sub("+", "-", "*", "/", "%", "~", "&", "|", "^", "<<", ">>")),
    "ops_logical": ("Num", sub("!", "&&", "||")), "ops_compare": ("Num", sub("==", "!=", "<", ">", "<=", ">=")), "ops_other": ("Num", sub("()", "[]")), "ops_all": ("Num", NUM),
    "few_all": ("Few", {"operator+=": ["Few::operator+=(int)"], "operator-": ["Few::operator-(Few const&) const"], "operator==": ["Few::operator==(Few const&) const"], "operator<": ["Few::operator<(Few const&) const"], "operator*": ["Few::operator*()"]}),
    "mu_all": ("Mu", {"operator*": ["Mu::operator*(Mu const&) const"]}), "de_all": ("De", {"operator*": ["De::operator*()"]}),
    "two_all": ("Two", {"operator++": ["Two::operator++()"], "operator--": ["Two::operator--()"], "operator!": ["Two::operator!() const"], "operator()": ["Two::operator()(Two const&, int)"], "operator[]": ["Two::operator[](long) const"]}),
    "sub_all": ("Sub", dict({"operator+=": ["Sub::operator+=(Sub const&)"]}, **sub("-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "==", "!=", "<", ">", "<=", ">="))),
    "cast_int": ("Num", {"operator int()": ["Num::operator int() const"]}), "fn_num": ("Num", {"named": ["Num::named(int) const"]}),
    "cons_num": ("Num", {"<id>": ["Num::Num(int, Num const&)"]}),
    "plumb_num": ("Num", {"<id>": ["Num::Num()", "Num::Num(Num const&)", "Num::Num(Num&&)"], "operator=": ["Num::operator=(Num const&)", "Num::operator=(Num&&)"]}),
    "alloc_num": ("Num", {"new": ["Num::Num()", "Num::Num(Num const&)", "Num::Num(Num&&)"]}), "alloc_one": ("Num", {"new": ["Num::Num()"]}),
}


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/operators.cpp"] + [REPO + "/src/types/primitive_%s.cpp" % f for f in FILES])

    def fresh():
        ex = c.executor(mods); read_sizes(ex, mods); ex.check_null = False; install_registration(ex)
        def ev(st, *e): st.log = st.log + (e,)
        for C in ("Num", "Few", "Mu", "De", "Two", "Sub"):
            def member(ex, s, a, cx):
                v = None if cx["I"] is None or cx["I"].ty.kind == "void" else ex.undef(cx["I"].ty)
                ev(s, "member", cx["dem"], tuple(a), v); return stl.R(s, v)
            ex.contract("re:^([^(]* )?%s::[^(]*\\(\\)?\\(?" % C, member)
        return ex

    def check_class(ex, o, t, C, table):
        """the functions registered on type t are exactly those of the table, and each is the C++ member of that name"""
        st = o.st
        rest = {k: list(v) for k, v in table.items()}
        for e in registered(o):
            ex.oblige(st, e[1] == t, "functions are registered on the type being reflected")
            nm = simp(e[2]); key = None
            for k in table:
                if k != "<id>" and nm.eq(ex.lit(k)): key = k
            if key is None and "<id>" in table and ex.valid(st, nm == TID(t)): key = "<id>"
            made = e[3]
            tg = target(ex, made) if made else None
            if key is None or tg is None: ex.oblige(st, z3.BoolVal(False), "only the operators of the class are registered (%s: %s)" % (nm, made and made[0])); continue
            if key != "<id>": ex.oblige(st, made[2] == nm, "the function registered as %s carries that name" % key)
            if tg[0] == "member":
                d = demangle(tg[1]); d = d[d.index(C + "::"):] if C + "::" in d else d[d.index("Num::"):] if "Num::" in d else d
                ok = d in rest[key]; ex.oblige(st, z3.BoolVal(ok), "the function registered as %s is the member %s" % (key, " / ".join(table[key])))
                if ok: rest[key].remove(d)
                continue
            # any other callable: executed on arbitrary operands, it must do one call of the member, on the operands, in order
            mod, nm2 = ex.find_def(tg[1]); F = mod.func(nm2); s = st.fork(); s.log = (); a = []; res = None
            if F.sret: res = ex.new_region(s, 64, "alloca", None, "result").addr; a.append(res)
            if tg[0] == "functor" and not re.search(r"::__invoke|\(\*\)", nm2): a.append(ex.new_region(s, 8, "alloca", None, "closure").addr)
            ops = []
            for i, ty in list(enumerate(F.ptys))[len(a):]:
                v = ptr(ex, s, "operand%d" % i, 64) if ty.kind == "ptr" else ex.undef(ty); a.append(v); ops.append(v)
            for q in ex.run(F, s, a):
                if not expect_ret(ex, q, "%s returns" % key): continue
                calls = [x for x in q.st.log if x[0] == "member" and "::~" not in x[1]]
                if len(calls) != 1: ex.oblige(q.st, z3.BoolVal(False), "%s is one call of the C++ member" % key); continue
                d = calls[0][1]; d = d[d.index(C + "::"):] if C + "::" in d else d
                ok = d in rest[key]; ex.oblige(q.st, z3.BoolVal(ok), "the function registered as %s is %s (calls %s)" % (key, " / ".join(table[key]), d))
                if ok and q is not None: rest[key].remove(d)
                got = list(calls[0][2])
                if "::%s(" % C in d:                                     # a constructor: of the result, or of a fresh object
                    here = got.pop(0)
                    if key == "new":
                        ex.oblige(q.st, q.val == here, "the object returned by new is the one constructed"); ex.oblige(q.st, z3.BoolVal(new_object(ex, st, q.st, here, 16)), "new returns a new object of the class's size")
                    else: ex.oblige(q.st, here == res if res is not None else z3.BoolVal(False), "the constructed object is the result")
                else:
                    if res is not None and len(got) == len(ops) + 1: ex.oblige(q.st, got.pop(0) == res, "%s's result is the operator's" % key)
                    elif q.val is not None and calls[0][3] is not None: ex.oblige(q.st, z3.Or(q.val == calls[0][3], q.val == ops[0]) if key == "operator=" and q.val.sort() == ops[0].sort() else q.val == calls[0][3], "%s's result is the operator's" % key)
                    else: ex.oblige(q.st, z3.BoolVal(q.val is None and calls[0][3] is None), "%s's result is the operator's" % key)
                same = len(got) == len(ops) and all(x.size() == y.size() for x, y in zip(got, ops))
                ex.oblige(q.st, z3.And([x == y for x, y in zip(got, ops)]) if same else z3.BoolVal(False), "%s is applied to its operands, in order" % key)
        for k, v in rest.items():
            for d in v: ex.oblige(st, z3.BoolVal(False), "%s is registered as %s" % (d, k))

    for drv, (C, table) in GROUPS.items():
        ex = fresh()
        def setup(ex, st, C=C, table=table):
            t = ptr(ex, st, "type", 8)
            def post(o):
                if not expect_ret(ex, o): return
                check_class(ex, o, t, C, table)
            return [t], post
        c.verify(ex, re.compile(r"^(void )?%s\(" % drv), setup, label=drv)
    # ---- arithmetic types and pointers: the registered functions are executed on arbitrary operands -------------------------------------
    def check_scalar(ex, o, t, T, w, flt, sgn_, optional=False):
        """the functions registered for an arithmetic type or a pointer type (T), applied to arbitrary operands"""
        st = o.st; n = max(abs(w) // 8, 1); isptr = T.endswith("*"); want = {("<id>", 0), ("<id>", "const&"), ("<id>", "&&"), ("operator=", "const&"), ("operator=", "&&")}
        want |= {("operator bool()", ""), ("operator*", "&"), ("operator*", "const&")} if isptr else {("new", 0), ("operator+", "")}
        for e in registered(o):
            ex.oblige(st, e[1] == t, "functions are registered on the type being reflected")
            nm = simp(e[2]); made = e[3]; key = None
            for k in ("operator=", "operator+", "new", "operator bool()", "operator*"):
                if nm.eq(ex.lit(k)): key = k
            if key is None and ex.valid(st, nm == TID(t)): key = "<id>"
            tg = target(ex, made) if made else None
            if key is None or tg is None: ex.oblige(st, z3.BoolVal(False), "only the operators of the type are registered (%s: %s)" % (nm, made and made[0])); continue
            if key != "<id>": ex.oblige(st, made[2] == nm, "the function registered as %s carries that name" % key)
            mod, fn = ex.find_def(tg[1]); F = mod.func(fn); ps = params(fn)
            last = 0 if not ps else "&&" if ps[-1].endswith("&&") else "const&" if ps[-1].endswith("const&") else "&" if ps[-1].endswith("&") else ""
            if key in ("operator+", "operator bool()"): last = ""                  # by value or by reference to a constant: the same to C++
            what = "%s(%s)" % (key, ", ".join(ps)); 
            if (key, last) not in want: ex.oblige(st, z3.BoolVal(False), "only the operators of the type are registered (%s)" % what); continue
            want.discard((key, last))
            if F.sret: raise Unsupported("a scalar is returned through memory")
            s = st.fork(); s.log = (); a = []; cells, vals = [], []
            if len(F.params) == len(ps) + 1: a.append(ex.new_region(s, 8, "alloca", None, "closure").addr)
            for i, q in enumerate(ps):
                v = z3.BitVec("%s#%d" % ("xyz"[i], i), 8 * n if w != 128 else 128)
                if w == 1: s.assume(z3.ULE(v, 1))
                vals.append(v); ty = F.ptys[len(a)]
                if q.endswith("&"): r = ex.new_region(s, n if w != 128 else 16, "alloca", None, "operand%d" % i); ex.store_bytes(s, r.addr, n if w != 128 else 16, v); a.append(r.addr); cells.append(r.addr)
                else: a.append((z3.Extract(0, 0, v) == 1) if ty.kind == "int" and ty.bits == 1 else v); cells.append(None)
            if key == "operator+" and sgn_ and n >= 4: s.assume(z3.And(z3.BVAddNoOverflow(vals[0], vals[1], True), z3.BVAddNoUnderflow(vals[0], vals[1])))   # C++'s own precondition
            for q in ex.run(F, s, a):
                if not expect_ret(ex, q, what + " returns"): continue
                res = q.val; wide = 8 * n if w != 128 else 128
                def kept(i): ex.oblige(q.st, ex.load_bytes(q.st, cells[i], wide // 8) == vals[i], "%s leaves operand %d as it was" % (what, i)) if cells[i] is not None else None
                if key == "<id>" and not ps: ex.oblige(q.st, bits(res, wide) == (ZERO[T] if flt else bv(0, wide)), "%s is the value-initialised object" % what)
                elif key == "<id>": ex.oblige(q.st, bits(res, wide) == vals[0], "%s is the operand's value" % what); kept(0)
                elif key == "operator=":
                    ex.oblige(q.st, ex.load_bytes(q.st, cells[0], wide // 8) == vals[1], "%s stores the value in the object" % what)
                    ex.oblige(q.st, res == cells[0], "%s returns the object" % what); kept(1)
                elif key == "new": ex.oblige(q.st, z3.BoolVal(new_object(ex, st, q.st, res, wide // 8)), "%s returns a new object" % what)
                elif key == "operator bool()": ex.oblige(q.st, bits(res, 8) == z3.If(vals[0] != 0, bv(1, 8), bv(0, 8)), "%s is true exactly for non-null pointers" % what); kept(0)
                elif key == "operator*": ex.oblige(q.st, res == vals[0], "%s is the pointed object" % what); kept(0)
                else:
                    x, y = vals
                    if flt:
                        add = z3.Function("fp_fadd%d" % wide, BV(wide), BV(wide), BV(wide)); exp = z3.If(res == add(y, x), res, add(x, y))    # addition commutes
                    elif wide < 32: ext = (lambda v: z3.SignExt(32 - wide, v)) if sgn_ else (lambda v: z3.ZeroExt(32 - wide, v)); exp = ext(x) + ext(y)
                    else: exp = x + y
                    ex.oblige(q.st, (res == exp) if res.size() == exp.size() else z3.BoolVal(False), "%s is the C++ sum, in its promoted type" % what); kept(0); kept(1)
        for k, l in sorted(want, key=str): ex.oblige(st, z3.BoolVal(False), "%s (%s) is registered" % (k, l))

    def traits_are(ex, o, t, want):
        got = {}
        for e in o.st.log:
            if e[0] == "trait":
                ex.oblige(o.st, e[1] == t, "traits are set on the type being reflected")
                for k in list(want) + ["bool", "integer", "signed", "unsigned", "float", "primitive", "void"]:
                    if simp(e[2]).eq(ex.lit(k)): got[k] = e
        for k in want: ex.oblige(o.st, z3.BoolVal(k in got), "the type carries the trait %s" % k)
        for k in ("bool", "integer", "signed", "unsigned", "float"):
            if k not in want: ex.oblige(o.st, z3.BoolVal(k not in got), "the type doesn't carry the trait %s" % k)
        return got

    ZERO = {}
    def LIMIT(T):
        w = abs(PRIM[T])
        return (0, 1) if T == "bool" else (-(1 << (w - 1)), (1 << (w - 1)) - 1) if PRIM[T] < 0 else (0, (1 << w) - 1)
    for T, w in PRIM.items():
        flt = T in FLOAT; wide = 8 * SIZE(T)
        ex = fresh()
        def setup(ex, st, T=T, w=w, flt=flt):
            for F in FLOAT: ZERO[F] = z3.Const("fp:" + {"float": "float 0.000000e+00", "double": "double 0.000000e+00", "long double": "x86_fp80 0xK00000000000000000000"}[F], BV(8 * SIZE(F)))
            t = ptr(ex, st, "type", 8)
            def post(o):
                if not expect_ret(ex, o): return
                check_scalar(ex, o, t, T, w, flt, w < 0)
                cls = ["float"] if flt else ["bool"] if T == "bool" else ["integer", "signed" if w < 0 else "unsigned"]
                got = traits_are(ex, o, t, ["sizeof", "min", "max", "primitive"] + cls)
                for k, sz in (("sizeof", 8), ("min", SIZE(T)), ("max", SIZE(T))):
                    if k not in got: continue
                    dem, rest = got[k][3]
                    if not rest: ex.oblige(o.st, z3.BoolVal(False), "the trait %s carries a value" % k); continue
                    v = ex.load_bytes(o.st, rest[0], sz) if re.search(r"&+\)$", dem) else bits(rest[0], 8 * sz)
                    if k == "sizeof": ex.oblige(o.st, v == SIZE(T), "sizeof is the size of the type")
                    elif not flt: ex.oblige(o.st, v == LIMIT(T)[k == "max"], "%s is the type's" % k)
            return [t], post
        c.verify(ex, "reflect::Reflect<%s, void>::reflect(reflect::Type*)" % T, setup, label="Reflect<%s>" % T)
    for drv, T in (("ptr_num", "Num*"), ("ptr_int", "int*")):
        ex = fresh()
        def setup(ex, st, T=T):
            t = ptr(ex, st, "type", 8)
            def post(o):
                if not expect_ret(ex, o): return
                check_scalar(ex, o, t, T, 64, False, False)
                got = traits_are(ex, o, t, ["sizeof", "primitive"])
                ps = [e for e in o.st.log if e[0] == "pointer"]
                ex.oblige(o.st, z3.And(ps[0][1] == t, ps[0][2] == ex.lit("*"), ps[0][3] == z3.Const("type<%s>" % T[:-1], B64)) if len(ps) == 1 else z3.BoolVal(False), "the type is a pointer, *, to the pointed type")
            return [t], post
        c.verify(ex, re.compile(r"^(void )?%s\(" % drv), setup, label=drv)
    def field(ex, st):
        t = ptr(ex, st, "type", 8)
        def post(o):
            if not expect_ret(ex, o): return
            f = [e for e in o.st.log if e[0] == "field"]
            ok = len(f) == 2 and {str(simp(e[2])) for e in f} == {"lit:y", "lit:z"}
            ex.oblige(o.st, z3.And([z3.And(e[1] == t, e[3] == {"lit:y": 8, "lit:z": 16}[str(simp(e[2]))], z3.BoolVal(e[4] == {"lit:y": "long", "lit:z": "int"}[str(simp(e[2]))])) for e in f]) if ok else z3.BoolVal(False), "each field is registered once, under its name, with its type and offset")
        return [t], post
    ex = fresh(); c.verify(ex, re.compile(r"^(void )?fields\("), field, label="fields")
    c.assumptions += COMMON_ASSUMPTIONS + ["the C++ compiler's instantiation of the registration templates at the driver's classes (one declaring every operator, three declaring few, one inheriting them) stands for every class",
        "the members of those classes are declared only: what is proved is which of them is called, on which operands, and what happens to the result", "that calling a registered function applies its callable to the arguments in order is C01's and C07's",
        "floating point addition is an uninterpreted function (commutative)", "a signed sum outside the type's range is undefined in C++ and excluded"]
    c.finish(witness=lambda c: std_witness(c, "c25.cpp", parts=5))


if __name__ == "__main__": main(run, "C25")
