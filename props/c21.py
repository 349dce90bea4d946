#!/usr/bin/env python3-vt
"""C21: a type asked for by its C++ type is registered before it is looked up, whichever threads ask at once.

Thread-modular: whatever memory a lookup shares with the same lookup in other threads (static state of the loader) may hold anything the other
threads' runs leave there; the runs guarantee that it is only changed from its initial contents once the type is registered, and rely on that."""
from fnreg import *

GET, ADD = "reflect::Registry::get(std::string const&)", "reflect::Registry::add(std::string const&, std::function<void (reflect::Type*)>)"
stl.Executor.ghost_sorts["added"] = z3.BoolSort()
G = bv(0x7700)                        # where the ghost "added" lives
IDS = dict(Vi="std::vector<int>", Vv="std::vector<std::vector<Pl>>", Mp="std::map<int,ns::Pq>", Up="std::unordered_map<std::string,Pl>", Sp="std::shared_ptr<Pl>", Uv="std::unique_ptr<std::vector<int*>>",
    Pi="int*", Pc="Pl*", Pp="Pl**", Tp="Tm<Pl>", Tt="Tm<Tm<int>>", Nn="ns::Tn<ns::Pq>", Pl="Pl", Pq="ns::Pq")
PLAIN = ("Pl", "Pq")


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/templates.cpp"])

    def fresh(shared=True):
        ex = c.executor(mods); read_sizes(ex, mods); ex.check_null = False; ex.made = {}
        def ev(st, *e): st.log = st.log + (e,)
        def fun(ex, st, a, cx):
            ps = stl.split_params(stl.split_name(cx["dem"])[2]); i = ex.fresh(B64, "callable"); st.assume(i != 0)
            if ps and ps[0].startswith("std::function<"): i = ex.gget(st, a[1], "fun")
            elif ps:
                t = stl.targs(stl.split_name(cx["dem"])[1])[0] if "<" in stl.split_name(cx["dem"])[1] else ps[0]
                ex.made[i.get_id()] = (t, a[1:])
            ex.gset(st, a[0], "fun", i); return stl.R(st)
        ex.contract("re:^std::function<void \\(reflect::Type\\*\\)>::function(<.*>)?\\(", fun, True, front=True)
        def add(ex, st, a, cx):
            nohold(ex, st, "registering"); i = simp(ex.gget(st, a[0], "str")); f = simp(ex.gget(st, a[1], "fun"))
            ev(st, "add", i, ex.made.get(f.get_id())); ex.gset(st, G, "added", simp(z3.Or(ex.gget(st, G, "added"), i == ex.tid))); return stl.R(st)
        ex.contract(ADD, add)
        def get(ex, st, a, cx):
            nohold(ex, st, "looking up"); i = ex.gget(st, a[0], "str")
            ex.oblige(st, i == ex.tid, "the type looked up is the one asked for")
            ex.oblige(st, ex.gget(st, G, "added"), "the type is registered before it is looked up, also when other threads ask for it meanwhile")
            r = ex.fresh(B64, "type"); ev(st, "get", r); return stl.R(st, r)
        ex.contract(GET, get)
        ex.tid = None
        ex.contract("re:^reflect::Type const\\* reflect::type<.*>\\(\\)$", lambda ex, st, a, cx: None)      # executed, not assumed
        def nohold(ex, st, what):
            held = [e for e in st.log if e[0] in ("guard", "lock")]
            for e in held:
                if e[0] == "lock": ex.oblige(st, ex.gget(st, e[1], "held") == 0, "no lock other lookups wait for is held while %s (lock order)" % what, "pre")
            ex.oblige(st, z3.BoolVal(not any(e[0] == "guard" and not any(f[0] == "unguard" and f[1].eq(e[1]) for f in st.log) for e in held)), "no static initialisation other lookups wait for is under way while %s (lock order)" % what, "pre")
        # a static initialised on first use: this thread does it, or it has been done (and then by such a run)
        def guard(ex, st, a, cx):
            s2 = st.fork(); rely(ex, s2, z3.BoolVal(True)); ev(st, "guard", a[0]); return stl.R(st, bv(1, 32)) + stl.R(s2, bv(0, 32))
        ex.contract("__cxa_guard_acquire", guard, True, front=True)
        def unguard(ex, st, a, cx): ev(st, "unguard", a[0]); ex.oblige(st, ex.gget(st, G, "added"), "a static's initialisation ends with the type registered"); return stl.R(st)
        ex.contract("__cxa_guard_release", unguard, True, front=True)
        def once(ex, st, a, cx): ex.oblige(st, z3.BoolVal(False), "no call_once other lookups wait for is under way while registering (lock order)"); return stl.R(st)
        ex.contract("re:^(.* )?std::call_once<", once, True, front=True)
        def rely(ex, st, changed):
            b = ex.fresh(z3.BoolSort(), "added"); st.assume(z3.Implies(ex.gget(st, G, "added"), b)); st.assume(z3.Implies(changed, b)); ex.gset(st, G, "added", b)
        ex.shared = {}
        def access(ex, st, op, p, ty, atomic):
            l = ex.locate(st, p)
            if l[0] == "h": return
            r, off = st.regions[l[1]], l[2]
            if r.kind != "global" or not shared or r.name == "guard": return
            dem = r.name
            if dem.startswith("guard variable for"):
                if op == "read": v = ex.fresh(BV(8 * ty.size), "guard"); ex.store(st, p, ty, v); rely(ex, st, v != 0)
                return
            what = "static state shared by concurrent lookups (%s) is only accessed atomically" % re.sub(r"<.*>", "<...>", dem)
            ex.oblige(st, z3.BoolVal(atomic), what, "race")
            init = bv(0, 8 * ty.size); k = (r.name, num(off) if z3.is_expr(off) and isnum(off) else off)
            if op == "read": v = ex.fresh(init.sort(), "shared"); ex.store_bytes(st, p, ty.size, v); rely(ex, st, v != init)
            else: ex.oblige(st, z3.Implies(ex.load_bytes(st, p, ty.size) != init, ex.gget(st, G, "added")), "shared state tells that the type is registered only once it is", "race")
        ex.on_shared = access
        return ex

    def text_of(ex, st, drv):
        """the identifier Reflect<T>::id() gives, and its text"""
        r = ex.new_region(st, 32, "alloca", None, "id"); names = ex.find("id_%s()" % drv); mod, nm = ex.find_def(names[0])
        outs = [o for o in ex.call(st.fork(), nm, [r.addr], None, mod)]
        if len(outs) != 1 or outs[0].kind != "ret": raise Unsupported("id_%s: %d outcomes" % (drv, len(outs)))
        return simp(ex.gget(outs[0].st, r.addr, "str"))

    def registers(ex, o, e, drv, T):
        """what is registered runs the type's own reflection on the type it is given"""
        if e[2] is None: ex.oblige(o.st, z3.BoolVal(False), "what is registered for %s is known" % T); return
        t, a = e[2]; s = o.st.fork(); s.log = (); ty = ptr(ex, s, "described", 8)
        ex.contract("re:^reflect::Reflect<.*>::reflect\\(reflect::Type\\*\\)$", lambda ex, st, a, cx: (setattr(st, "log", st.log + (("reflect", cx["dem"], a[0]),)), stl.R(st))[1])
        names = ex.find(re.compile(r"^([^{]* )?" + re.escape(t) + r"::operator\(\)\("))
        if len(names) != 1: ex.oblige(s, z3.BoolVal(False), "what is registered for %s is known (%s)" % (T, t)); return
        mod, nm = ex.find_def(names[0])
        want = [ex.mods and q for q in ex.find("run_%s(reflect::Type*)" % drv)]; m2, n2 = ex.find_def(want[0])
        ref = [q for q in ex.call(s.fork(), n2, [ty], None, m2)]; want = [x for q in ref for x in q.st.log if x[0] == "reflect"]
        for q in ex.call(s, nm, [ptr(ex, s, "closure", 8), ty], None, mod):
            l = [x for x in q.st.log if x[0] == "reflect"]
            ex.oblige(q.st, z3.BoolVal(len(l) == 1 and len(want) == 1 and l[0][1] == want[0][1] and l[0][2].eq(ty)), "the loader registered runs the type's own reflection once, on the type given")

    def lookup(drv, T, form):
        ex = fresh()
        def setup(ex, st):
            ex.gset(st, G, "added", z3.BoolVal(True) if drv in PLAIN else z3.Const("added0", z3.BoolSort()))
            ex.mute += 1; ex.tid = text_of(ex, st, drv); ex.mute -= 1; st.log = ()
            m = ex.mute; ex.mute = 0; ex.oblige(st, ex.tid == ex.lit(T), "the identifier of a template type is composed of the template's name and its arguments' identifiers"); ex.mute = m
            def post(o):
                if not expect_ret(ex, o): return
                g = [e for e in o.st.log if e[0] == "get"]
                ex.oblige(o.st, o.val == g[0][1] if len(g) == 1 else z3.BoolVal(False), "the answer is the registry's")
                for e in o.st.log:
                    if e[0] == "add": ex.oblige(o.st, e[1] == ex.tid, "only the type asked for is registered"); registers(ex, o, e, drv, T)
            return [], post
        c.verify(ex, "%s_%s()" % (form, drv), setup, label="type<%s>%s" % (T, "" if form == "get" else " through a reference"))
    for drv, T in IDS.items():
        for form in ("get", "ref"): lookup(drv, T, form)

    # plain types: their static registration
    for drv in PLAIN:
        ex = fresh(False)
        def setup(ex, st, drv=drv):
            ex.gset(st, G, "added", z3.BoolVal(False)); ex.mute += 1; ex.tid = text_of(ex, st, drv); ex.mute -= 1; st.log = ()
            def post(o):
                if not expect_ret(ex, o): return
                l = [e for e in o.st.log if e[0] == "add" and simp(e[1]).eq(ex.tid)]
                ex.oblige(o.st, z3.BoolVal(len(l) == 1), "%s is registered once by the initialisation of the file that reflects it" % drv)
                for e in l: registers(ex, o, e, drv, IDS[drv])
            return [], post
        c.verify(ex, "_GLOBAL__sub_I_templates.cpp", setup, label="static registration of " + IDS[drv])

    c.assumptions += COMMON_ASSUMPTIONS + ["Registry::add and Registry::get behave as proved in C12 and take the registry's lock as proved in C13; an added loader stays until it is run",
        "interference is by other runs of the same lookup, which keep the guarantee proved here; the shared flag and the registry's lock together order registration before lookup under C++'s memory model, whatever the flag's memory order",
        "static initialisation of the files that reflect plain types precedes the lookups", "templates are checked at the driver's 12 instantiations"]
    c.finish(witness=lambda c: std_witness(c, "c21.cpp", repo_srcs=CORE + ("src/types/std/string.cpp",), parts=2))


if __name__ == "__main__": main(run, "C21")
