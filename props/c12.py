#!/usr/bin/env python3-vt
"""C12: identifiers and aliases resolve to one type object each; loaders run once, after the type is visible; errors change nothing."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from regcommon import *


def run(c):
    mods = c.compile([REPO + "/src/reflect.cpp", VERIF + "/drivers/core.cpp"])

    def fresh(): return registry_ex(c, mods, False, True)

    def unchanged(ex, pre, post, ks, st, name, but=None):
        """the given tables map the same names to the same things (except possibly the name `but`)"""
        y = z3.Const("any", Str)
        for k in ks:
            g = z3.And(post.has(k, y) == pre.has(k, y), z3.Implies(pre.has(k, y), z3.And(post.node(k, y) == pre.node(k, y))))
            ex.oblige(st, z3.Implies(y != but, g) if but is not None else g, name + " (%s)" % k)

    def frame(ex, pre, o): heap_frame(ex, pre, o, ("map.has", "map.node", "map.size", "held", "fun"), "entries of the tables are not modified in place")

    # ---- lookup -------------------------------------------------------------------------------------------------------
    ex = fresh()
    def get(ex_, st):
        ex = ex_; discover(ex, st, c); p, n = namearg(ex, st, "id"); target = inv(ex, st, n); pre = st.fork(); empty = ex.lit("")
        def post(o):
            P, Q, created = outcome_tables(ex, pre, o); s = o.st
            ex.oblige(s, same_tables(ex, o), "lookups use the registry's own tables")
            tgt = n
            if not created:
                al = P.has("aliases", n)
                tgt = P.value("aliases", n) if ex.valid(s, al) else n if ex.valid(s, z3.Not(al)) else target
            present = P.has("types", tgt); loadable = z3.And(tgt != empty, P.has("loaders", tgt))
            runs = [e for e in s.log if e[0] == "load"]
            ex.oblige(s, z3.BoolVal(len(runs) <= 1), "a lookup runs at most one loader")
            frame(ex, pre, o)
            if not runs:
                unchanged(ex, P, Q, ("types", "aliases", "loaders"), s, "a lookup that runs no loader leaves the tables as they were")
                if o.kind == "error": ex.oblige(s, z3.And(z3.Not(present), z3.Not(loadable)), "a lookup fails only for an unknown or empty identifier"); return
                if not expect_ret(ex, o): return
                ex.oblige(s, present, "a lookup that runs no loader answers for a type that is already there")
                if not created: ex.oblige(s, o.val == P.value("types", tgt), "the type object registered under the (aliased) identifier is returned")
                return
            _, f, t, snap = runs[0]; S = Tables(ex, snap, Q.at)
            ex.oblige(s, z3.And(z3.Not(present), loadable), "a loader runs only at the first lookup of a known identifier")
            if not created: ex.oblige(s, f == P.value("loaders", tgt), "the loader run is the one registered under the identifier")
            ex.oblige(snap, z3.And(S.has("types", tgt), S.value("types", tgt) == t), "the type object is already visible under its identifier when its loader runs")
            unchanged(ex, P, S, ("types",), snap, "other types are left as they were", tgt)
            unchanged(ex, P, S, ("aliases",), snap, "aliases are left as they were")
            unchanged(ex, P, S, ("loaders",), snap, "other loaders are left as they were", tgt)
            ex.oblige(snap, ex.gget(snap, observe(ex, snap, "reflect::Type::id() const", t), "str") == tgt, "the new type object carries the identifier looked up")
            if o.kind == "error" and o.info == "loader": return
            if not expect_ret(ex, o): return
            ex.oblige(s, o.val == t, "the lookup returns the very object its loader was run on")
            ex.oblige(s, z3.And(Q.has("types", tgt), Q.node("types", tgt) == S.node("types", tgt), ex.load_bytes(s, simp(S.node("types", tgt) + bv(VOFF)), 8) == t), "the type object stays registered")
            y = z3.Const("any", Str)
            for k in ("types", "aliases"): ex.oblige(s, z3.Implies(P.has(k, y), z3.And(Q.has(k, y), Q.node(k, y) == P.node(k, y))), "every entry that was there stays there (%s)" % k)
        return [p], post
    c.verify(ex, GET, get)

    # ---- registering a loader --------------------------------------------------------------------------------------------
    ex = fresh()
    def add(ex_, st):
        ex = ex_; discover(ex, st, c); p, n = namearg(ex, st, "id"); inv(ex, st, n)
        fr = ex.new_region(st, 32, "alloca", None, "loader"); f = z3.Const("loader", B64); ex.gset(st, fr.addr, "fun", f); pre = st.fork()
        def post(o):
            P, Q, created = outcome_tables(ex, pre, o); s = o.st; empty = ex.lit("")
            ex.oblige(s, same_tables(ex, o), "registration uses the registry's own tables"); frame(ex, pre, o)
            unchanged(ex, P, Q, ("types", "aliases"), s, "registering a loader leaves types and aliases as they were")
            unchanged(ex, P, Q, ("loaders",), s, "registering a loader leaves the other loaders as they were", n)
            y = z3.Const("any", Str)
            ex.oblige(s, z3.Implies(P.has("loaders", n), z3.And(Q.has("loaders", n), Q.node("loaders", n) == P.node("loaders", n))), "a loader that is already there stays")
            if not created: ex.oblige(s, z3.Implies(P.has("loaders", n), Q.value("loaders", n) == P.value("loaders", n)), "a loader that is already there is not replaced")
            sc = [e for e in s.log if e[0] == "scope.add"]
            if o.kind == "error" and not sc:
                ex.oblige(s, z3.Or(n == empty, f == 0), "registration fails only for an empty identifier or an empty loader (or a conflict in the scopes)")
                unchanged(ex, P, Q, ("loaders",), s, "a refused registration leaves the loaders as they were"); return
            ex.oblige(s, z3.And(n != empty, f != 0), "an empty identifier or an empty loader is reported as an error")
            if o.kind == "error": return
            if not expect_ret(ex, o): return
            ex.oblige(s, z3.And(Q.has("loaders", n), z3.Implies(z3.Not(P.has("loaders", n)), Q.value("loaders", n) == f)), "the loader is registered under the identifier")
            ex.oblige(s, z3.And([e[1] == n for e in sc] + [z3.BoolVal(len(sc) == 1)]), "the identifier is entered into the scopes once")
        return [p, fr.addr], post
    c.verify(ex, ADD, add)

    # ---- aliases -------------------------------------------------------------------------------------------------------------
    ex = fresh()
    def alias(ex_, st):
        ex = ex_; discover(ex, st, c); p, n = namearg(ex, st, "id"); q, a = namearg(ex, st, "alias"); inv(ex, st, a); pre = st.fork()
        def post(o):
            P, Q, created = outcome_tables(ex, pre, o); s = o.st; empty = ex.lit("")
            ex.oblige(s, same_tables(ex, o), "aliasing uses the registry's own tables"); frame(ex, pre, o)
            unchanged(ex, P, Q, ("types", "loaders"), s, "an alias leaves types and loaders as they were")
            bad = z3.Or(n == empty, a == empty, P.has("aliases", a))
            if o.kind == "error":
                ex.oblige(s, bad, "aliasing fails only for empty names or a taken alias")
                unchanged(ex, P, Q, ("aliases",), s, "a refused alias leaves the aliases as they were"); return
            if not expect_ret(ex, o): return
            ex.oblige(s, z3.Not(bad), "empty names and taken aliases are reported as errors")
            unchanged(ex, P, Q, ("aliases",), s, "the other aliases are left as they were", a)
            ex.oblige(s, z3.And(Q.has("aliases", a), Q.value("aliases", a) == n), "the alias names the identifier")
        return [p, q], post
    c.verify(ex, ALIAS, alias)

    c.assumptions += COMMON_ASSUMPTIONS + ["a loader changes the registry only through its public operations (which, by the contracts proved here, only add types and aliases)",
        "registered types are non-null and registered loaders non-empty (established by the operations proved here)", "an alias takes precedence over a type identifier spelled the same",
        "at most once per identifier: a loader runs only when its type is absent, the type is present when it runs, and no operation removes a type (induction over the history)"]
    c.finish(witness=lambda c: std_witness(c, "c12.cpp"))


if __name__ == "__main__": main(run, "C12")
