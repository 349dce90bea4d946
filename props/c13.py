#!/usr/bin/env python3-vt
"""C13: the registry's tables are only read or written with the registry's lock held; the lock is released; loaders can look types up."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from regcommon import *


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp"])

    def op(dem, strings, loader=False, mangled=None):
        ex = registry_ex(c, mods, True, False)
        def setup(ex, st):
            discover(ex, st, c); args = [namearg(ex, st, "name%d" % i)[0] for i in range(strings)]
            if loader:
                r = ex.new_region(st, 32, "alloca", None, "loader"); ex.gset(st, r.addr, "fun", z3.Const("loader", B64)); args.append(r.addr)
            for i in range(strings): inv(ex, st, z3.Const("name%d" % i, Str))
            L = ex.reg["lock"]; ex.mute = 0
            ex.oblige(st, z3.BoolVal(L is not None), "looking a type up takes a lock"); ex.mute = 1
            pre = st.fork()
            if L is not None: st.assume(z3.ULT(ex.gget(st, L, "held"), bv(RELOCK))); pre = st.fork()
            def post(o):
                s = o.st
                if o.kind == "exc": ex.oblige(s, z3.BoolVal(False), "no exception other than the error hook's"); return
                if o.kind != "ret": return           # an error: terminates, or unwinds through the guards (see the assumptions)
                for lk in {e[1].get_id(): e[1] for e in s.log if e[0] == "lock"}.values():
                    try: h0 = ex.gget(pre, lk, "held")
                    except Unsupported: h0 = bv(0)       # a lock of the registry this call created
                    ex.oblige(s, ex.gget(s, lk, "held") == h0, "every lock taken is released on return")
                at = created(ex, o) or ex.reg["at"]
                ex.oblige(s, same_tables(ex, o), "the tables used are the ones a lookup uses")
            return args, post
        c.verify(ex, dem, setup, mangled=mangled)
    op(GET, 1); op(ADD, 1, True); op(ALIAS, 2); op(GLOBAL, 0)

    c.assumptions += COMMON_ASSUMPTIONS + ["std::recursive_mutex, std::mutex and std::lock_guard behave as specified; a guard's destructor runs when an error unwinds (checked on the real code by the witness only)",
        "the registry itself is created before threads are started (static initialisation registers the built-in types)",
        "a lock held while every access is made excludes concurrent accesses: absence of data races on the tables follows from the contracts proved here", "calling the loader leaves the lock as it found it (the public operations do)"]
    def witness(c):
        w = std_witness(c, "c13.cpp", args=[c.seed, 1 if c.tier == "quick" else 10], san=False, flags=["-fsanitize=thread", "-g"], env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"})
        return w
    c.finish(witness=witness)


if __name__ == "__main__": main(run, "C13")
