"""VC generator: symbolic execution of LLVM IR functions against contracts.

  * calls to functions that have a contract are replaced by the contract; other functions of the code base and
    trivial library templates are executed in place (so that helper extraction is invisible);
  * loops are cut by inductive invariants (see do_loop): induction variables are expressed through one ghost iteration counter
    k, candidate invariants are filtered Houdini-style, what survives is inductive by construction;
  * every call precondition, UB trap, unreachable and postcondition becomes an obligation for the SMT solvers."""
import z3, re, time, subprocess, tempfile, os, itertools
from llvmir import Module, demangle

BV = z3.BitVecSort
B64 = BV(64)
Str = z3.DeclareSort("Str")
slen = z3.Function("slen", Str, B64)
sat_ = z3.Function("sat", Str, B64, BV(8))
scat = z3.Function("scat", Str, Str, Str)
ssub = z3.Function("ssub", Str, B64, B64, Str)      # ssub(s, from, to)
REGION0 = 0x700000000000
FN0 = 0x600000000000


class Unsupported(Exception): pass
class Budget(Exception): pass


def bv(n, w=64): return z3.BitVecVal(n, w)
def isnum(t): return z3.is_bv_value(t)
def num(t): return t.as_long()
def numerals(t, most=4):
    """the few numerals a term chooses between, if that is what it does"""
    if t is None or not z3.is_bv(t) or t.size() < 8: return None
    out, todo, n = [], [simp(t)], 0
    while todo:
        x = todo.pop(); n += 1
        if n > 4 * most: return None
        if z3.is_app_of(x, z3.Z3_OP_ITE): todo += [x.arg(2), x.arg(1)]; continue
        if not isnum(x): return None
        if not any(x.eq(y) for y in out): out.append(x)
    return out if 1 < len(out) <= most else None
def fold(t, args):
    """the operation of a term on other operands"""
    r = args[0]; d = t.decl(); k = d.kind()
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_EXTRACT): return d(r)
    if k == z3.Z3_OP_CONCAT: return z3.Concat(*args)
    for a in args[1:]: r = r + a if k == z3.Z3_OP_BADD else r - a if k == z3.Z3_OP_BSUB else r * a
    return r
def values(t, most=40, n=None):
    """the numerals a term may evaluate to, if it is built from choices between numerals"""
    if isnum(t): return [t]
    n = n or [0]; n[0] += 1
    if n[0] > 4 * most or not z3.is_app(t): return None
    k = t.decl().kind(); args = t.children()
    if k == z3.Z3_OP_ITE: sets = [values(a, most, n) for a in args[1:]]; r = None if None in sets else sets[0] + sets[1]
    elif k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_EXTRACT):
        sets = [values(a, most, n) for a in args]
        if None in sets or not sets: return None
        r = [[]]
        for q in sets:
            r = [x + [v] for x in r for v in q]
            if len(r) > 4 * most: return None
        r = [simp(fold(t, x)) for x in r]
    else: return None
    out = []
    for v in r or []:
        if not isnum(v): return None
        if not any(v.eq(w) for w in out): out.append(v)
    return out if r and len(out) <= most else None
def tobool(t):
    if z3.is_bool(t): return t
    return t != 0
def simp(t): return z3.simplify(t)


class Region:
    __slots__ = ("rid", "size", "kind", "ty", "cells", "ghost", "alive", "bytes", "arr", "owner", "name", "init")
    def __init__(s, rid, size, kind, ty=None, name=None):
        s.rid, s.size, s.kind, s.ty, s.name = rid, size, kind, ty, name
        s.cells, s.ghost, s.alive, s.bytes, s.arr, s.owner, s.init = {}, {}, True, None, None, None, None
    def copy(s):
        r = Region(s.rid, s.size, s.kind, s.ty, s.name)
        r.cells, r.ghost, r.alive, r.bytes, r.arr, r.init = dict(s.cells), dict(s.ghost), s.alive, s.bytes, s.arr, s.init
        return r
    @property
    def base(s): return REGION0 + (s.rid << 32)
    @property
    def addr(s): return bv(s.base)


class State:
    __slots__ = ("pc", "pcids", "regions", "heap", "g", "log", "owned")
    def __init__(s):
        s.pc, s.pcids, s.regions, s.heap, s.g, s.log, s.owned = [], set(), {}, {}, {}, (), set()
    def fork(s):
        n = State()
        n.pc, n.pcids = list(s.pc), set(s.pcids)
        n.regions = dict(s.regions); n.heap = dict(s.heap); n.g = dict(s.g); n.log = s.log
        s.owned = set(); n.owned = set()
        return n
    def assume(s, c):
        c = simp(c)
        if z3.is_true(c): return s
        if z3.is_and(c):
            for x in c.children(): s.assume(x)
            return s
        i = c.get_id()
        if i not in s.pcids: s.pcids.add(i); s.pc.append(c)
        return s
    def wregion(s, rid):
        r = s.regions[rid]
        if rid not in s.owned:
            r = r.copy(); s.regions[rid] = r; s.owned.add(rid)
        return r


class Out:
    __slots__ = ("kind", "st", "val", "info")
    def __init__(s, kind, st, val=None, info=None): s.kind, s.st, s.val, s.info = kind, st, val, info
    def __repr__(s): return "Out(%s,%s,%s)" % (s.kind, s.val, s.info)


class Obl:
    __slots__ = ("name", "fn", "kind", "status", "time", "backend", "detail", "model")
    def __init__(s, name, fn, kind): s.name, s.fn, s.kind, s.status, s.time, s.backend, s.detail, s.model = name, fn, kind, None, 0., None, None, None


def has_region_num(t, memo={}):
    i = t.get_id()
    if i in memo: return memo[i][1]     # the memo keeps the term, its id is not reused
    if isnum(t) and t.size() == 64: r = num(t) >= REGION0 and num(t) < (1 << 47)
    else: r = any(has_region_num(c) for c in t.children())
    memo[i] = (t, r)
    return r


def linear(t):
    """64-bit term -> (const, {id: [coef, atom]})"""
    c, d = 0, {}
    st = [(1, t)]
    while st:
        k, x = st.pop()
        if isnum(x): c += k * num(x); continue
        n = x.decl().kind()
        if n == z3.Z3_OP_BADD: st += [(k, y) for y in x.children()]; continue
        if n == z3.Z3_OP_BSUB:
            ch = x.children(); st.append((k, ch[0])); st += [(-k, y) for y in ch[1:]]; continue
        if n == z3.Z3_OP_BNEG: st.append((-k, x.children()[0])); continue
        if n == z3.Z3_OP_BMUL:
            ch = x.children(); ns = [y for y in ch if isnum(y)]; rs = [y for y in ch if not isnum(y)]
            if len(ns) == 1 and len(rs) == 1: st.append((k * num(ns[0]), rs[0])); continue
        if n == z3.Z3_OP_BSHL and isnum(x.children()[1]) and num(x.children()[1]) < 64:
            st.append((k << num(x.children()[1]), x.children()[0])); continue
        e = d.setdefault(x.get_id(), [0, x]); e[0] += k
    M = (1 << 64) - 1
    c &= M
    d = {i: [e[0] & M, e[1]] for i, e in d.items() if e[0] & M}
    return c, d


def sgn(n, w=64): return n - (1 << w) if n >> (w - 1) else n


class Loc:
    """A location modified by a loop."""
    __slots__ = ("kind", "key", "sort", "init", "isptr")
    def __init__(s, kind, key, sort, init, isptr=False): s.kind, s.key, s.sort, s.init, s.isptr = kind, key, sort, init, isptr
    def __repr__(s): return "%s%s" % (s.kind, s.key)
    def id(s): return (s.kind,) + tuple(s.key) if isinstance(s.key, tuple) else (s.kind, s.key)


class Executor:
    def __init__(self, modules, verbose=False):
        self.mods = modules if isinstance(modules, list) else [modules]
        self.exact, self.regex = {}, []
        self.cache = {}
        self.axioms = []
        self.lits = {}
        self.obls = []
        self.mute = 0
        self.nrid = itertools.count(1)
        self.fresh_n = itertools.count(1)
        self.verbose = verbose
        self.solver_time = 0.0
        self.nchecks = 0
        self.timeout = 20000
        self.loop_hints = []
        self.globals = {}          # name -> rid
        self.fnaddr, self.addrfn, self.addrmod = {}, {}, {}
        self.cur = "?"
        self.used_contracts = {}
        self.inlined = set()
        self.depth = 0
        self.deadline = None
        self.stack = []
        self.global_init = {}      # name -> fn(ex, st, region)
        self.indirect = None
        self.check_null = True
        self.wild = set()
        self.max_paths = 4000
        self.feas_cache = {}
        self.default_havoc = None
        self.recursion_limit = {}
        self.keep_regions_mode = False
        self.strict_ub = True
        self.ret_hook = None
        self.solver = z3.Solver
        self.on_shared = None     # hook: (ex, state, read/write, address, type, atomic?) before reads and after writes
        self.unroll = {}           # demangled name -> max complete unrolling (exact, obligation that it suffices)
        self.auto_unroll = 0
        self.incremental, self.inc = False, None
        self.endless = set()       # loops that did not end when they were tried
        self.on_edge = None        # ghost code at the head of every loop
        self.lazy_frame = False    # the loop's frame is found while its invariant is
        self.loop_cases = None     # cases in which a loop's iteration is examined
        self.tries, self.ended, self.discovery = {}, {}, 0
        self.try_unroll = None     # (iterations, paths per iteration)
        self.ghost_keep = []       # ghost scalars that do not influence control flow: not havocked while a loop's frame is found
        self.merge_key = None      # state -> None (not merged) | (key, [facts] to forget everything else | None for an exact merge)
        self.on_back = None        # hook: (ex, function, header, state at the header, state at a back edge)

    # ---- registration ------------------------------------------------------------------------------------------
    def contract(self, name, h, trusted=False, label=None, front=None):
        h._label = (label or name); h._trusted = trusted
        if isinstance(name, str) and not name.startswith("re:"): self.exact[name] = (h, trusted, label or name)
        elif not (not trusted if front is None else front): self.regex.append((re.compile(name[3:]), h, trusted, label or name[3:]))
        else: self.regex.insert(0, (re.compile(name[3:]), h, trusted, label or name[3:]))     # a check's own contracts take precedence

    def lookup(self, dem, mangled):
        if mangled in self.cache: return self.cache[mangled]
        r = self.exact.get(dem) or self.exact.get(mangled)
        if not r:
            for rx, h, tr, lb in self.regex:
                if rx.search(dem): r = (h, tr, lb); break
        self.cache[mangled] = r
        return r

    def find_def(self, mangled, mod=None):
        """the module with the body; `mod` is the referring module, whose own definition comes first (internal linkage)"""
        if mod is not None and mod.defined(mangled): return mod, mangled
        for m in self.mods:
            if m.defined(mangled): return m, mangled
        # complete-object constructors/destructors are emitted as aliases of the base-object ones
        for a, b in (("C1E", "C2E"), ("D1E", "D2E"), ("C1I", "C2I")):
            i = mangled.find(a)
            while i >= 0:
                alt = mangled[:i] + b + mangled[i + 3:]
                for m in self.mods:
                    if m.defined(alt): return m, alt
                i = mangled.find(a, i + 1)
        return None, mangled

    def find(self, dem):
        """mangled names of the defined functions with this demangled name (str or compiled regex)"""
        r = []
        for m in self.mods:
            for d, ns in m.by_dem.items():
                if (d == dem) if isinstance(dem, str) else dem.search(d):
                    r += [n for n in ns if m.defined(n) and n not in r]
        # prefer complete-object constructors (C1/C2 are identical for classes without virtual bases)
        return r

    # ---- fresh things --------------------------------------------------------------------------------------------
    def fresh(self, sort, name="v"):
        if isinstance(sort, int): sort = BV(sort)
        return z3.Const("%s!%d" % (name, next(self.fresh_n)), sort)

    def new_region(self, st, size, kind, ty=None, name=None):
        r = Region(next(self.nrid), size, kind, ty, name)
        st.regions[r.rid] = r; st.owned.add(r.rid)
        return r

    def lit(self, b):
        if isinstance(b, str): b = b.encode()
        if b in self.lits: return self.lits[b]
        c = z3.Const("lit:" + b.decode("latin-1"), Str)
        self.axioms.append(slen(c) == len(b))
        for i, ch in enumerate(b[:64]): self.axioms.append(sat_(c, bv(i)) == ch)
        for o in self.lits.values(): self.axioms.append(c != o)
        self.lits[b] = c
        return c

    # ---- solver ------------------------------------------------------------------------------------------------
    def _check(self, fs, timeout=None):
        self.nchecks += 1
        t0 = time.time()
        if self.incremental:
            r, s = self._icheck(fs, 100)
            if r != z3.unknown: self.solver_time += time.time() - t0; return r, s
        s = self.solver()
        s.set("timeout", timeout or self.timeout)
        s.add(*self.axioms); s.add(*fs)
        r = s.check()
        self.solver_time += time.time() - t0
        return r, s

    def _icheck(self, fs, timeout):
        """the same solver for all questions: the common beginning of the paths stays asserted"""
        s, stack = self.inc or (None, None)
        if s is None or stack[0] != len(self.axioms) or self.inc_used > 3000:
            s = z3.SimpleSolver(); s.add(*self.axioms); stack = [len(self.axioms)]; self.inc = (s, stack); self.inc_used = 0; self.inc_keep = []
        self.inc_used += 1
        n = 1
        while n < len(stack) and n <= len(fs) and stack[n] == fs[n - 1].get_id(): n += 1
        if len(stack) > n: s.pop(len(stack) - n); del stack[n:]; del self.inc_keep[n - 1:]
        for f in fs[n - 1:]: s.push(); s.add(f); stack.append(f.get_id()); self.inc_keep.append(f)
        s.set("timeout", timeout)
        return s.check(), s

    def feasible(self, st, extra=None):
        fs = list(st.pc)
        if extra is not None:
            extra = simp(extra)
            if z3.is_false(extra): return False
            if z3.is_true(extra) and len(fs) == 0: return True
            i = extra.get_id()
            if i in st.pcids: return True
            fs.append(extra)
        key = (frozenset(x.get_id() for x in fs), len(self.axioms))
        if key in self.feas_cache: return self.feas_cache[key][0]
        r, _ = self._check(fs, 4000)
        v = r != z3.unsat
        self.feas_cache[key] = (v, fs)
        return v

    def valid(self, st, goal, timeout=None):
        goal = simp(goal)
        if z3.is_true(goal): return True
        if goal.get_id() in st.pcids: return True
        r, _ = self._check(st.pc + [z3.Not(goal)], timeout)
        return r == z3.unsat

    def oblige(self, st, goal, name, kind="post", detail=None):
        """Emit and discharge an obligation (pc => goal)."""
        if self.mute: return True
        o = Obl(name, self.cur, kind)
        t0 = time.time()
        goal = simp(goal)
        if z3.is_true(goal): o.status, o.backend = "discharged", "simplifier"
        else:
            r, s = self._check(st.pc + [z3.Not(goal)])
            o.backend = "z3"
            if r == z3.unsat: o.status = "discharged"
            elif r == z3.sat:
                o.status = "failed"; o.model = s.model(); o.detail = detail
            else:
                o.backend = "cvc5"
                r2 = self._cvc5(s)
                o.status = "discharged" if r2 == "unsat" else "failed"
                o.detail = "z3: %s, cvc5: %s" % (s.reason_unknown(), r2)
        o.time = time.time() - t0
        if o.status == "failed":
            o.detail = ((o.detail + "; ") if o.detail else "") + "goal: %s ; path: %s" % (
                str(goal)[:600], " & ".join(str(c)[:160] for c in st.pc[-25:]))
        self.obls.append(o)
        if o.status == "failed" and self.verbose:
            print("  FAILED", self.cur, name, "line", detail); print("    goal", goal)
            for c in st.pc: print("      pc", str(c)[:200].replace("\n", " "))
            print("    log", st.log)
            if o.model is not None: print("    model", str(o.model)[:1500])
        return o.status == "discharged"

    def fail(self, name, detail, kind="unsupported"):
        if self.mute: return
        o = Obl(name, self.cur, kind); o.status, o.detail, o.backend = "failed", detail, "vcgen"
        self.obls.append(o)
        if self.verbose: print("  FAILED", self.cur, name, detail)

    def _cvc5(self, s):
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % self.timeout, f.name], capture_output=True, text=True, timeout=self.timeout / 1000 + 5)
            return r.stdout.strip().split("\n")[0] if r.stdout else r.stderr[:100]
        except Exception as e: return "error %s" % e
        finally: os.unlink(f.name)

    # ---- pointers & memory ---------------------------------------------------------------------------------------
    def locate(self, st, p):
        """term -> ('r', rid, off) | ('rs', rid, offterm) | ('h', addr) ; resolves case splits only when decided by pc"""
        p = simp(p)
        if isnum(p):
            n = num(p)
            if n >= REGION0:
                rid = (n - REGION0) >> 32; return ("r", rid, sgn((n - REGION0) & 0xffffffff, 32) if ((n & 0xffffffff) >> 31) else (n & 0xffffffff))
            return ("h", p)
        if not has_region_num(p):
            if self.wild and self._mentions_wild(p): raise Unsupported("access through pointer havocked by a loop")
            return ("h", p)
        c, d = linear(p)
        if c >= REGION0 and c < (1 << 47):
            rid = (c - REGION0) >> 32
            off = c & 0xffffffff
            t = bv(off)
            for k, a in d.values(): t = t + bv(k) * a
            return ("rs", rid, simp(t))
        # pointer term with region constants inside (select/ite): try to decide it
        nums = set(); walked = set()
        def walk(t):
            if t.get_id() in walked: return
            walked.add(t.get_id())
            if isnum(t):
                if t.size() == 64 and REGION0 <= num(t) < (1 << 47): nums.add(num(t))
            else:
                for ch in t.children(): walk(ch)
        walk(p)
        for n in sorted(nums):
            if self.valid(st, p == bv(n), 3000): return self.locate(st, bv(n))
        cands = [n for n in nums if self.feasible(st, p == bv(n))]
        if not cands: return ("h", p)
        raise NeedSplit(p == bv(cands[0]))

    def _mentions_wild(self, p):
        st = [p]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.get_id() in self.wild: return True
            st += x.children()
        return False

    def H(self, st, size):
        if size not in st.heap: st.heap[size] = z3.Const("H%d" % (size * 8), z3.ArraySort(B64, BV(size * 8)))
        return st.heap[size]

    def region(self, st, rid):
        r = st.regions.get(rid)
        if r is None: raise Unsupported("unknown region %d" % rid)
        if not r.alive: raise UB("use of dead object %s" % r.name)
        return r

    def load_bytes(self, st, p, size):
        """-> BitVec(size*8)"""
        L = self.locate(st, p)
        if L[0] == "h":
            if self.check_null: self._nonnull(st, L[1])
            return simp(z3.Select(self.H(st, size), L[1]))
        if L[0] == "r":
            r = self.region(st, L[1]); off = L[2]
            if r.size is not None and not (0 <= off and off + size <= r.size): raise UB("out of bounds access of %s at %d" % (r.name, off))
            if r.arr is not None:
                return self._arrload(r, bv(off), size)
            return self._rload(st, r, off, size)
        r = self.region(st, L[1])
        r = self._array_mode(st, r)
        self._bounds(st, r, L[2], size)
        return self._arrload(r, L[2], size)

    def _bounds(self, st, r, off, size):
        if r.size is not None:
            g = z3.And(z3.ULE(off, bv(r.size - size))) if r.size >= size else z3.BoolVal(False)
            self.oblige(st, g, "access within bounds of %s (%d bytes)" % (r.name, r.size), "ub")
            st.assume(g)

    def _array_mode(self, st, r):
        if r.arr is not None: return r
        r = st.wregion(r.rid)
        a = z3.Const("R%d!%d" % (r.rid, next(self.fresh_n)), z3.ArraySort(B64, BV(8)))
        if r.bytes is not None:
            # constant table: exact contents
            a = z3.K(B64, bv(0, 8))
            for i, b in enumerate(r.bytes):
                if b: a = z3.Store(a, bv(i), bv(b, 8))
        for off, (sz, t) in sorted(r.cells.items()):
            for i in range(sz): a = z3.Store(a, bv(off + i), simp(z3.Extract(8 * i + 7, 8 * i, t)))
        r.arr = a; r.cells = {}
        return r

    def _arrload(self, r, off, size):
        bs = [z3.Select(r.arr, off + i) for i in range(size)]
        return simp(bs[0] if size == 1 else z3.Concat(*reversed(bs)))

    def _rload(self, st, r, off, size):
        c = r.cells.get(off)
        if c and c[0] == size: return c[1]
        if r.bytes is not None:
            b = r.bytes[off:off + size] + b"\0" * max(0, size - (len(r.bytes) - off))
            return bv(int.from_bytes(b[:size], "little"), size * 8)
        if c and c[0] > size: return simp(z3.Extract(size * 8 - 1, 0, c[1]))
        # composition from bytes
        over = [(o, s, t) for o, (s, t) in r.cells.items() if o < off + size and o + s > off]
        if not over:
            v = self.init_cell(st, r, off, size)
            w = st.wregion(r.rid); w.cells[off] = (size, v)
            return v
        parts = []; cur = off
        w = st.wregion(r.rid)
        while cur < off + size:
            hit = next(((o, s, t) for o, s, t in over if o <= cur < o + s), None)
            if hit:
                o, s, t = hit; n = min(o + s, off + size) - cur
                parts.append(z3.Extract(8 * (cur - o + n) - 1, 8 * (cur - o), t)); cur += n
            else:
                nxt = min([o for o, s, t in over if o > cur] + [off + size]); n = nxt - cur
                v = self.init_cell(st, r, cur, n)
                w.cells[cur] = (n, v); parts.append(v); cur = nxt
        return simp(parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts)))

    def init_cell(self, st, r, off, size):
        if r.init:
            v = r.init(self, st, r, off, size)
            if v is not None: return v
        return self.fresh(size * 8, "undef_%s_%d" % (r.name or r.rid, off))

    def store_bytes(self, st, p, size, v):
        L = self.locate(st, p)
        if L[0] == "h":
            if self.check_null: self._nonnull(st, L[1])
            st.heap[size] = z3.Store(self.H(st, size), L[1], v)
            return
        r = self.region(st, L[1])
        if r.kind == "const": raise UB("write to constant %s" % r.name)
        r = st.wregion(L[1])
        if L[0] == "r":
            off = L[2]
            if r.size is not None and not (0 <= off and off + size <= r.size): raise UB("out of bounds write of %s at %d" % (r.name, off))
            if r.arr is not None:
                for i in range(size): r.arr = z3.Store(r.arr, bv(off + i), simp(z3.Extract(8 * i + 7, 8 * i, v)))
                return
            self._clear(r, off, size)
            r.cells[off] = (size, v)
            return
        r = self._array_mode(st, r)
        self._bounds(st, r, L[2], size)
        r = st.wregion(L[1])
        for i in range(size): r.arr = z3.Store(r.arr, simp(L[2] + i), simp(z3.Extract(8 * i + 7, 8 * i, v)))

    def _clear(self, r, off, size):
        for o, (s, t) in list(r.cells.items()):
            if o < off + size and o + s > off:
                del r.cells[o]
                if o < off: r.cells[o] = (off - o, simp(z3.Extract(8 * (off - o) - 1, 0, t)))
                if o + s > off + size:
                    n = o + s - (off + size)
                    r.cells[off + size] = (n, simp(z3.Extract(8 * s - 1, 8 * (s - n), t)))

    def _nonnull(self, st, addr):
        c, d = linear(addr)
        if not d:
            if c < 4096: raise UB("null dereference")
            return
        # base nonnull: the address with its constant offset removed
        if c < (1 << 32):
            base = simp(addr - bv(c))
            ones = [e[1] for e in d.values() if e[0] == 1]
            if len(d) > 1 and len(ones) == 1: base = ones[0]      # element address: the null check concerns the array
            g = base != 0
            if g.get_id() in st.pcids: return
            self.oblige(st, g, "pointer dereferenced is not null", "ub")
            st.assume(g)

    def load(self, st, p, ty):
        if ty.kind in ("int",):
            if ty.bits == 1: return simp(z3.Extract(0, 0, self.load_bytes(st, p, 1)) == 1)
            n = (ty.bits + 7) // 8
            v = self.load_bytes(st, p, n)
            return v if ty.bits == n * 8 else simp(z3.Extract(ty.bits - 1, 0, v))
        if ty.kind == "ptr": return self.load_bytes(st, p, 8)
        if ty.kind in ("double", "float"): return self.load_bytes(st, p, ty.size)
        if ty.kind == "x86_fp80": return self.load_bytes(st, p, 16)
        if ty.kind == "struct": return tuple(self.load(st, simp(p + bv(o)), e) for o, e in zip(ty.offs, ty.elems))
        if ty.kind == "array": return tuple(self.load(st, simp(p + bv(i * ty.elems[0].size)), ty.elems[0]) for i in range(ty.n))
        raise Unsupported("load of %r" % ty)

    def store(self, st, p, ty, v):
        if ty.kind == "int":
            if ty.bits == 1: v = z3.If(v, bv(1, 8), bv(0, 8)); self.store_bytes(st, p, 1, simp(v)); return
            n = (ty.bits + 7) // 8
            if n * 8 != ty.bits: v = z3.ZeroExt(n * 8 - ty.bits, v)
            self.store_bytes(st, p, n, v)
        elif ty.kind == "ptr": self.store_bytes(st, p, 8, v)
        elif ty.kind in ("double", "float"): self.store_bytes(st, p, ty.size, v)
        elif ty.kind == "x86_fp80": self.store_bytes(st, p, 16, v)
        elif ty.kind == "struct":
            for o, e, x in zip(ty.offs, ty.elems, v): self.store(st, simp(p + bv(o)), e, x)
        elif ty.kind == "array":
            for i, x in enumerate(v): self.store(st, simp(p + bv(i * ty.elems[0].size)), ty.elems[0], x)
        else: raise Unsupported("store of %r" % ty)

    def memcpy(self, st, d, s, n, hint=None):
        n = simp(n)
        if not isnum(n): raise Unsupported("memcpy of symbolic length")
        n = num(n)
        if n == 0: return
        LS, LD = self.locate(st, s), self.locate(st, d)
        if LS[0] == "r" and self.region(st, LS[1]).arr is None:
            r = self.region(st, LS[1]); off = LS[2]
            pieces = []
            if r.bytes is not None: pieces = [(i, 1) for i in range(n)]
            else:
                for o, (sz, t) in sorted(r.cells.items()):
                    lo, hi = max(o, off), min(o + sz, off + n)
                    if lo < hi: pieces.append((lo - off, hi - lo))
                if r.init is not None and hint:
                    pieces = [(o, t.size) for o, t in hint.leaves() if o + t.size <= n]
                for (o, name), v in list(r.ghost.items()):
                    if off <= o < off + n and name.startswith("cp:"):
                        self.gset(st, simp(d + bv(o - off)), name, v)
        elif hint is not None and hint.size == n: pieces = [(o, t.size) for o, t in hint.leaves()]
        elif LD[0] == "r" and self.region(st, LD[1]).ty is not None:
            ty = self.region(st, LD[1]).ty
            pieces = [(o - LD[2], t.size) for o, t in ty.leaves() if LD[2] <= o < LD[2] + n]
        elif n == 16: pieces = [(0, 8), (8, 4), (12, 1)]
        else: pieces = [(i, min(8, n - i) if (n - i) >= 8 else 1) for i in list(range(0, n - n % 8, 8)) + list(range(n - n % 8, n))]
        vals = [(o, sz, self.load_bytes(st, simp(s + bv(o)), sz)) for o, sz in pieces]
        for o, sz, v in vals: self.store_bytes(st, simp(d + bv(o)), sz, v)

    # ghost values attached to addresses
    def gsort(self, name):
        return self.ghost_sorts[name]
    ghost_sorts = {"str": Str}

    def gget(self, st, p, name):
        L = self.locate(st, p)
        if L[0] == "h":
            if name not in st.g: st.g[name] = z3.Const("G_" + name, z3.ArraySort(B64, self.gsort(name)))
            return simp(z3.Select(st.g[name], L[1]))
        if L[0] == "rs":
            raise Unsupported("ghost %s at symbolic offset of a local object" % name)
        r = self.region(st, L[1])
        k = (L[2], name)
        if k not in r.ghost:
            v = None
            if r.init: v = r.init(self, st, r, L[2], name)
            r = st.wregion(L[1]); r.ghost[k] = v if v is not None else self.fresh(self.gsort(name), "g_%s_%s" % (name, r.name))
        return r.ghost[k]

    def gset(self, st, p, name, v):
        L = self.locate(st, p)
        if L[0] == "h":
            if name not in st.g: st.g[name] = z3.Const("G_" + name, z3.ArraySort(B64, self.gsort(name)))
            st.g[name] = z3.Store(st.g[name], L[1], v)
        elif L[0] == "rs": raise Unsupported("ghost write at symbolic offset")
        else:
            self.region(st, L[1]); st.wregion(L[1]).ghost[(L[2], name)] = v

    def scalar(self, st, name, sort):
        if name not in st.g: st.g[name] = z3.Const("S_" + name, sort)
        return st.g[name]

    # ---- strings ---------------------------------------------------------------------------------------------------
    def cstr(self, st, p):
        """bytes of a constant C string, or None"""
        L = self.locate(st, p)
        if L[0] != "r": return None
        r = st.regions.get(L[1])
        if r is None: return None
        if r.bytes is not None and r.kind == "const":
            b = r.bytes[L[2]:]; return b.split(b"\0")[0]
        return None

    # ---- operands ---------------------------------------------------------------------------------------------------
    def global_region(self, st, mod, name):
        gi = mod.gvar(name)
        local = gi is not None and gi["local"]
        key = (id(mod), name) if local else name
        if key in self.globals:
            rid = self.globals[key]
            if rid in st.regions: return st.regions[rid]
            tmpl = self.gtemplates[key]
            st.regions[rid] = tmpl.copy(); st.owned.add(rid)
            return st.regions[rid]
        if demangle(name).startswith("guard variable"):
            # function-local statics: every call is treated as the first execution of the initialiser
            r = Region(next(self.nrid), 8, "global", None, "guard")
            r.cells[0] = (8, bv(0)); self.globals[key] = r.rid
            self.gtemplates = getattr(self, "gtemplates", {}); self.gtemplates[key] = r.copy()
            st.regions[r.rid] = r; st.owned.add(r.rid)
            return r
        if gi is None: raise Unsupported("global " + name)
        for m in [] if local else self.mods:
            g2 = m.gvar(name)
            if g2 and (g2["init"] is not None or g2["bytes"] is not None): gi = g2; mod = m
        r = Region(next(self.nrid), gi["ty"].size if gi["ty"].size else None, "const" if gi["const"] else "global", gi["ty"], demangle(name))
        r.bytes = gi["bytes"] if gi["const"] else None
        self.globals[key] = r.rid
        self.gtemplates = getattr(self, "gtemplates", {})
        if gi["const"] and gi["init"] is not None:
            try: self._cinit(st, mod, r, 0, gi["init"], gi["ty"])
            except Unsupported: pass
        if not gi["const"]:
            # mutable globals: arbitrary but fixed initial contents
            nm = r.name if not local or mod is self.mods[0] else r.name + "#%d" % self.mods.index(mod)
            r.init = lambda ex, st, r, off, what: z3.Const("%s.%s@%d" % (nm, what, off), ex.gsort(what)) if isinstance(what, str) else z3.Const("%s.%d@%d" % (nm, what, off), BV(8 * what))
            if gi["ty"].size and gi["ty"].size <= 4096:
                for q, t in gi["ty"].leaves(): r.cells[q] = (t.size, z3.Const("%s@%d" % (nm, q), BV(8 * t.size)))
        self.gtemplates[key] = r.copy()
        st.regions[r.rid] = r; st.owned.add(r.rid)
        hook = self.global_init.get(demangle(name))
        if hook: hook(self, st, r); self.gtemplates[key] = r.copy()
        return r

    def _cinit(self, st, mod, r, off, o, ty):
        if o[0] == "agg":
            if ty.kind == "struct":
                for q, e, x in zip(ty.offs, ty.elems, o[2]): self._cinit(st, mod, r, off + q, x, e)
            else:
                for i, x in enumerate(o[2]): self._cinit(st, mod, r, off + i * ty.elems[0].size, x, ty.elems[0])
        elif o[0] == "zero":
            for q, t in ty.leaves(): r.cells[off + q] = (t.size, bv(0, t.size * 8))
        elif ty.kind in ("int", "ptr"):
            v = self.op(st, o, None, mod)
            if z3.is_bool(v): v = z3.If(v, bv(1, 8), bv(0, 8))
            r.cells[off] = (ty.size, simp(v))

    def fn_addr(self, name, mod=None):
        local = mod is not None and mod.is_local(name); key = (id(mod), name) if local else name
        if key not in self.fnaddr:
            a = FN0 + 16 * (len(self.fnaddr) + 1); self.fnaddr[key] = a; self.addrfn[a] = name; self.addrmod[a] = mod if local else None
        return bv(self.fnaddr[key])

    def op(self, st, o, regs, mod):
        k = o[0]
        if k == "v":
            if o[1] not in regs: raise Unsupported("value %%%d not available" % o[1])
            return regs[o[1]]
        if k == "c":
            t = o[1]
            return z3.BoolVal(bool(o[2])) if t.bits == 1 else bv(o[2], t.bits)
        if k == "null": return bv(0)
        if k == "g": return self.global_region(st, mod, o[1]).addr
        if k == "fn": return self.fn_addr(o[1], mod)
        if k == "undef": return self.undef(o[1])
        if k == "zero": return self.zero(o[1])
        if k == "f": return self.fconst(o[1], o[2])
        if k == "agg": return tuple(self.op(st, x, regs, mod) for x in o[2])
        if k == "ce":
            ops = [self.op(st, x, regs, mod) for x in o[3]]
            if o[1] == "gep": return self.gep(ops[0], o[4], ops[1:])
            if o[1] in ("ptrtoint", "inttoptr", "bitcast"): return ops[0]
            if o[1] == "sub": return simp(ops[0] - ops[1])
            if o[1] == "add": return simp(ops[0] + ops[1])
            if o[1] == "icmp": raise Unsupported("constant expression icmp")
        raise Unsupported("operand %r" % (o,))

    def undef(self, t):
        if t.kind == "int": return self.fresh(z3.BoolSort() if t.bits == 1 else BV(t.bits), "undef")
        if t.kind == "ptr": return self.fresh(B64, "undef")
        if t.kind in ("struct",): return tuple(self.undef(e) for e in t.elems)
        if t.kind == "array": return tuple(self.undef(t.elems[0]) for _ in range(t.n))
        if t.kind in ("double", "float"): return self.fresh(t.size * 8, "undef")
        if t.kind == "x86_fp80": return self.fresh(128, "undef")
        return bv(0)

    def zero(self, t):
        if t.kind == "int": return z3.BoolVal(False) if t.bits == 1 else bv(0, t.bits)
        if t.kind == "ptr": return bv(0)
        if t.kind == "struct": return tuple(self.zero(e) for e in t.elems)
        if t.kind == "array": return tuple(self.zero(t.elems[0]) for _ in range(t.n))
        return bv(0, t.size * 8)

    def fconst(self, t, text):
        w = {"float": 32, "double": 64, "x86_fp80": 128}.get(t.kind, 64)
        return z3.Const("fp:" + text, BV(w))

    def gep(self, base, ty, idx):
        r = base; t = ty
        off = 0
        for n, i in enumerate(idx):
            if n == 0: sz = t.size
            elif t.kind == "struct":
                k = num(simp(i)); off += t.offs[k]; t = t.elems[k]; continue
            else: t = t.elems[0]; sz = t.size
            if i.size() < 64: i = z3.SignExt(64 - i.size(), i)
            i = simp(i)
            if isnum(i): off += sgn(num(i)) * sz
            elif sz == 1: r = r + i
            else: r = r + bv(sz) * i
        return simp(r + bv(off)) if off else simp(r)

    # ---- calls -------------------------------------------------------------------------------------------------------
    def call(self, st, mangled, args, I=None, mod=None):
        """-> list of Out"""
        dem = demangle(mangled)
        c = self.lookup(dem, mangled)
        if c:
            h, trusted, label = c
            r = h(self, st.fork(), args, dict(dem=dem, mangled=mangled, I=I, mod=mod))
            if r is not None:
                self.used_contracts.setdefault(label, [trusted, 0])[1] += 1
                return r
        m, mangled = self.find_def(mangled, mod)
        if m is None:
            if self.default_havoc:
                r = self.default_havoc(self, st, args, dict(dem=dem, mangled=mangled, I=I, mod=mod))
                if r is not None: return r
            raise Unsupported("no contract and no body for " + dem)
        if self.default_havoc:
            r = self.default_havoc(self, st, args, dict(dem=dem, mangled=mangled, I=I, mod=mod, body=True))
            if r is not None: return r
        F = m.func(mangled)
        if self.stack.count(mangled) >= self.recursion_limit.get(dem, 1): raise Unsupported("recursion without contract in " + dem)
        self.inlined.add(dem)
        outs = self.run(F, st, args)
        return self.merge_outs(outs) if self.merge_key and len(outs) > 1 else outs

    def run(self, F, st, args):
        self.depth += 1
        if self.depth > 80: self.depth -= 1; raise Unsupported("inlining too deep at " + F.dem)
        self.stack.append(F.name)
        try:
            regs = {}
            for p, a, b in zip(F.params, args, F.byval):
                if b is not None:
                    r = self.new_region(st, b.size, "alloca", b, "byval")
                    self.memcpy(st, r.addr, a, bv(b.size), b); a = r.addr
                regs[p] = a
            if len(args) < len(F.params): raise Unsupported("too few arguments for " + F.dem)
            outs, backs, exits = self.blocks(F, [(0, None, st, regs, None)], None, None)
            for o in outs:
                if o.kind == "ret":
                    for rid in [r for r, x in o.st.regions.items() if x.owner == (F.name, self.depth) and x.alive]:
                        o.st.wregion(rid).alive = False
            return outs
        finally:
            self.depth -= 1; self.stack.pop()

    # ---- joining paths -----------------------------------------------------------------------------------------------
    def merge_outs(self, outs):
        r, groups = [], {}
        for o in outs:
            if o.kind == "ret" and not self.feasible(o.st): continue
            k = self.merge_key(self, o.st) if o.kind == "ret" else None
            if k is None: r.append(o)
            else: groups.setdefault((k[0], o.st.log), []).append((o, k[1]))
        for g in groups.values():
            m = None
            if len(g) > 1:
                v = self.merge_states([o.st for o, _ in g], [o.val for o, _ in g], [f for _, f in g] if g[0][1] is not None else None)
                if v is not None: m = Out("ret", v[0], v[1])
            r += [m] if m else [o for o, _ in g]
        return r

    def merge_work(self, cur):
        """joins the paths that go on at the same place"""
        r, groups, forget = [], {}, {}
        for w in cur:
            k = self.merge_key(self, w[2])
            if k is None: r.append(w)
            elif k[1] is not None: forget.setdefault((k[0], w[2].log), []).append((w, k[1]))
            else: groups.setdefault((k[0], w[2].log), []).append(w)
        for g, facts in [(g, None) for g in groups.values()] + [([w for w, _ in g], [f for _, f in g]) for g in forget.values()]:
            v = None
            if len(g) > 1:
                keys = [k for k in g[0][3] if all(k in w[3] for w in g)]
                keys = [k for k in keys if all(w[3][k] is g[0][3][k] for w in g) or all(z3.is_expr(w[3][k]) and w[3][k].sort() == g[0][3][k].sort() for w in g)]
                v = self.merge_states([w[2] for w in g], [[w[3][k] for k in keys] for w in g], facts)
            r += [(g[0][0], g[0][1], v[0], dict(zip(keys, v[1])), g[0][4])] if v is not None else g
        return r

    def merge_states(self, sts, vals, facts=None):
        """one state that covers all: exactly (a choice between them), or forgetting what differs and is not listed in facts"""
        common = set.intersection(*[s.pcids for s in sts]); n = len(sts)
        conds = [z3.And([c for c in s.pc if c.get_id() not in common] + [z3.BoolVal(True)]) for s in sts]
        st = sts[0].fork(); st.pc = [c for c in st.pc if c.get_id() in common]; st.pcids = set(common)
        class No(Exception): pass
        def join(vs):
            v0 = vs[0]
            if all(v is v0 for v in vs): return v0
            if isinstance(v0, tuple) or isinstance(v0, list):
                if any(len(v) != len(v0) for v in vs): raise No
                return type(v0)(join([v[i] for v in vs]) for i in range(len(v0)))
            if not all(z3.is_expr(v) for v in vs): raise No
            if any(v.sort() != v0.sort() for v in vs): raise No
            if all(v.eq(v0) for v in vs): return v0
            if facts is not None and not (v0.sort() == B64 and any(has_region_num(v) for v in vs)): return self.fresh(v0.sort(), "join")
            r = vs[-1]
            for c, v in reversed(list(zip(conds[:-1], vs[:-1]))):
                if not v.eq(r): r = z3.If(c, v, r)
            return simp(r) if z3.is_bv(r) or z3.is_bool(r) else r
        try:
            val = join(vals) if any(v is not None for v in vals) else None
            for rid in set().union(*[s.regions for s in sts]):
                rs = [s.regions.get(rid) for s in sts]; have = [r for r in rs if r is not None]
                if any(not r.alive for r in have): 
                    if rid in st.regions and not st.regions[rid].alive: continue
                    st.regions.pop(rid, None)
                    if any(r.alive for r in have) and not have[0].owner: raise No
                    continue
                if len(have) < n:
                    if have[0].kind in ("const", "const0") and all(r.cells == have[0].cells for r in have): st.regions[rid] = have[0]; continue
                    if have[0].kind == "alloca": st.regions.pop(rid, None); continue      # not visible to the other paths
                    raise No
                if all(r is rs[0] for r in rs): continue
                if any((r.arr is None) != (rs[0].arr is None) for r in rs): raise No
                w = st.wregion(rid)
                if rs[0].arr is not None: w.arr = join([r.arr for r in rs]); 
                for off in set().union(*[r.cells for r in rs]):
                    sz = next(r.cells[off][0] for r in rs if off in r.cells); vs = []
                    for i, r in enumerate(rs):
                        c = r.cells.get(off)
                        if c is None:
                            if any(o < off + sz and o + z > off for o, (z, t) in r.cells.items()) or r.init or r.bytes is not None: raise No
                            vs.append(self.fresh(8 * sz, "undef_join"))
                        elif c[0] != sz: raise No
                        else: vs.append(c[1])
                    w.cells[off] = (sz, join(vs))
                for k in set().union(*[r.ghost for r in rs]):
                    w.ghost[k] = join([r.ghost[k] if k in r.ghost else self.gget(s, bv(r.base + k[0]), k[1]) for r, s in zip(rs, sts)])
            for z in set().union(*[s.heap for s in sts]): st.heap[z] = join([self.H(s, z) for s in sts])
            for g in set().union(*[s.g for s in sts]):
                srt = next(s.g[g].sort() for s in sts if g in s.g)
                st.g[g] = join([s.g.get(g, z3.Const(("G_" if srt.kind() == z3.Z3_ARRAY_SORT else "S_") + g, srt)) for s in sts])
        except No: return None
        if facts is None: st.assume(z3.Or(conds))
        else:
            for f in set.intersection(*[set(f) for f in facts]): st.assume(self.merge_fact(f, st))
        return st, val

    # ---- control flow ----------------------------------------------------------------------------------------------------
    def blocks(self, F, items, loop, header):
        """items: (bb, prev, st, regs, startidx|None).  Runs until function exit, back edge to header or exit of loop.
        -> outs, backs[(prev, st, regs)], exits[(bb, prev, st, regs)]"""
        outs, backs, exits = [], [], []
        work = list(items)
        npaths = 0
        while work:
            if self.deadline and time.time() > self.deadline: raise Budget("time budget exhausted")
            bb, prev, st, regs, start = work.pop()
            npaths += 1
            if npaths > self.max_paths: raise Unsupported("too many paths in " + F.dem)
            if start is None:
                if bb == header: backs.append((prev, st, regs)); continue
                if loop is not None and bb not in loop: exits.append((bb, prev, st, regs)); continue
                if bb in F.loops and (prev is None or prev not in F.loops[bb]):
                    o, ex = self.do_loop(F, bb, prev, st, regs)
                    outs += o
                    for (b2, p2, s2, r2) in ex: work.append((b2, p2, s2, r2, None))
                    continue
                self.phis(F, bb, prev, st, regs)
                start = 0
                while start < len(F.blocks[bb]) and F.blocks[bb][start].op == "phi": start += 1
            self.straight(F, bb, st, regs, start, work, outs)
        return outs, backs, exits

    def phis(self, F, bb, prev, st, regs):
        new = {}
        for I in F.blocks[bb]:
            if I.op != "phi": break
            j = I.x.index(prev)
            new[I.id] = self.op(st, I.ops[j], regs, F.mod)
        regs.update(new)

    def straight(self, F, bb, st, regs, start, work, outs):
        L = F.blocks[bb]
        i = start
        while i < len(L):
            I = L[i]
            op = I.op
            try:
                if op in ("call", "invoke"):
                    rs = self.do_call(F, I, st, regs)
                    if rs is None: i += 1; continue          # ignored intrinsic
                    first = True
                    live = [o for o in rs if o.kind == "ret"]
                    outs += [o for o in rs if o.kind != "ret"]
                    if not live: return
                    for n, o in enumerate(live):
                        r2 = regs if n == len(live) - 1 else dict(regs)
                        r2[I.id] = o.val
                        if op == "invoke": work.append((I.x["normal"], bb, o.st, r2, None))
                        elif len(live) == 1: st, regs = o.st, r2
                        else: work.append((bb, None, o.st, r2, i + 1))
                    if op == "invoke" or len(live) > 1: return
                    i += 1; continue
                if op == "ret":
                    outs.append(Out("ret", st, self.op(st, I.ops[0], regs, F.mod) if I.ops else None, I.line)); return
                if op == "br":
                    if not I.ops: work.append((I.x[0], bb, st, regs, None)); return
                    c = simp(tobool(self.op(st, I.ops[0], regs, F.mod)))
                    self.branch(st, regs, bb, [(c, I.x[0]), (z3.Not(c), I.x[1])], work); return
                if op == "switch":
                    v = self.op(st, I.ops[0], regs, F.mod)
                    cs = [(v == bv(k, v.size()), b) for k, b in I.x["cases"]]
                    tgt = {}
                    for c, b in cs: tgt.setdefault(b, []).append(c)
                    d = z3.And([z3.Not(c) for c, b in cs]) if cs else z3.BoolVal(True)
                    tgt.setdefault(I.x["default"], []).append(d)
                    # phis in targets are keyed by block, so grouping cases is exact
                    self.branch(st, regs, bb, [(z3.Or(cc) if len(cc) > 1 else cc[0], b) for b, cc in tgt.items()], work); return
                if op == "unreachable":
                    outs.append(Out("unreachable", st, None, F.dem)); return
                if op == "resume": outs.append(Out("exc", st)); return
                self.step(F, I, st, regs)
            except NeedSplit as e:
                c = simp(e.cond)
                for cc in (c, z3.Not(c)):
                    if self.feasible(st, cc):
                        s2 = st.fork(); s2.assume(cc); work.append((bb, None, s2, dict(regs), i))
                return
            except UB as e:
                outs.append(Out("trap", st, None, str(e) + " in " + F.dem)); return
            i += 1

    def branch(self, st, regs, bb, alts, work):
        feas = []
        alts = [(simp(c), b) for c, b in alts]
        if len(alts) == 2 and z3.is_true(alts[0][0]): feas = [alts[0]]
        else:
            for c, b in alts:
                if z3.is_false(c): continue
                if self.feasible(st, c): feas.append((c, b))
        for n, (c, b) in enumerate(feas):
            if n == len(feas) - 1: s2, r2 = st, regs
            else: s2, r2 = st.fork(), dict(regs)
            s2.assume(c)
            work.append((b, bb, s2, r2, None))

    def do_call(self, F, I, st, regs):
        cal = I.x["callee"]
        if cal[0] == "fn" and cal[1].startswith("llvm."):
            n = cal[1]
            if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.assume", "llvm.stack", "llvm.va_")): return None
            args = [self.op(st, o, regs, F.mod) for o in I.ops if o[0] != "?"]
            return self.intrinsic(F, n, st, args, I)
        args = [self.op(st, o, regs, F.mod) for o in I.ops]
        if cal[0] == "fn": return self.call(st, cal[1], args, I, F.mod)
        if cal[0] == "asm": raise Unsupported("inline asm")
        p = simp(self.op(st, cal, regs, F.mod))
        if isnum(p) and num(p) in self.addrfn: return self.call(st, self.addrfn[num(p)], args, I, self.addrmod[num(p)] or F.mod)
        if self.indirect:
            r = self.indirect(self, st, p, args, I)
            if r is not None: return r
        raise Unsupported("indirect call in " + F.dem)

    def intrinsic(self, F, n, st, a, I):
        def R(v): return [Out("ret", st, v)]
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            hint = self.memtype(F, I.ops[0]) or self.memtype(F, I.ops[1])
            self.memcpy(st, a[0], a[1], a[2], hint if hint and isnum(simp(a[2])) and hint.size == num(simp(a[2])) else None)
            return R(None)
        if n.startswith("llvm.memset"):
            k = simp(a[2]); v = simp(a[1])
            if not isnum(k): raise Unsupported("memset of symbolic length")
            k = num(k)
            hint = self.memtype(F, I.ops[0])
            L = self.locate(st, a[0])
            if hint is None and L[0] == "r" and L[2] == 0 and st.regions[L[1]].ty is not None: hint = st.regions[L[1]].ty
            if hint is not None and hint.size == k: pieces = [(o, t.size) for o, t in hint.leaves()]
            else: pieces = [(i, 8) for i in range(0, k - k % 8, 8)] + [(i, 1) for i in range(k - k % 8, k)]
            for o, s in pieces: self.store_bytes(st, simp(a[0] + bv(o)), s, simp(z3.Concat(*[v] * s) if s > 1 else v))
            return R(None)
        if n.startswith("llvm.ubsantrap") or n.startswith("llvm.trap"): return [Out("trap", st, None, "undefined behaviour (%s) in %s line %d" % (n, F.dem, I.line))]
        if n.startswith("llvm.expect"): return R(a[0])
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", n)
        if m:
            x, y, w = a[0], a[1], int(m.group(3))
            ext = (lambda t: z3.SignExt(w, t)) if m.group(1) == "s" else (lambda t: z3.ZeroExt(w, t))
            wide = {"add": ext(x) + ext(y), "sub": ext(x) - ext(y), "mul": ext(x) * ext(y)}[m.group(2)]
            r = simp(z3.Extract(w - 1, 0, wide))
            return R((r, simp(wide != ext(r))))
        if n.startswith("llvm.ctlz"):
            x = a[0]; w = x.size(); r = bv(w, w)
            for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, bv(w - 1 - i, w), r)
            # bits are scanned upwards so that the highest set bit decides
            return R(simp(r))
        if n.startswith("llvm.cttz"):
            x = a[0]; w = x.size(); r = bv(w, w)
            for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, x) == 1, bv(i, w), r)
            return R(simp(r))
        if n.startswith("llvm.umax") or n.startswith("llvm.umin") or n.startswith("llvm.smax") or n.startswith("llvm.smin"):
            x, y = a[0], a[1]
            c = {"umax": z3.UGT(x, y), "umin": z3.ULT(x, y), "smax": x > y, "smin": x < y}[n[5:9]]
            return R(simp(z3.If(c, x, y)))
        if n.startswith("llvm.eh.typeid"): return R(bv(1, 32))
        raise Unsupported("intrinsic " + n)

    def memtype(self, F, o):
        """static type of the object an operand points to, from its defining gep/alloca"""
        if o[0] != "v": return None
        if not hasattr(F, "defs"): F.defs = {I.id: I for L in F.blocks for I in L}
        I = F.defs.get(o[1])
        if I is None: return None
        if I.op == "alloca": return I.x
        if I.op == "gep":
            t = I.x
            for i in I.ops[2:]:
                if t.kind == "struct":
                    if i[0] != "c": return None
                    t = t.elems[i[2]]
                elif t.kind == "array": t = t.elems[0]
                else: return None
            return t
        return None

    # ---- instructions ---------------------------------------------------------------------------------------------------
    def step(self, F, I, st, regs):
        op = I.op
        if op == "alloca":
            n = 1
            if I.ops and I.ops[0][0] == "c": n = I.ops[0][2]
            r = self.new_region(st, I.x.size * n, "alloca", I.x, "%s:%%%d" % (F.dem.split("(")[0], I.id))
            r.owner = (F.name, self.depth)
            regs[I.id] = r.addr; return
        if op == "load":
            p = self.op(st, I.ops[0], regs, F.mod)
            if self.on_shared: self.on_shared(self, st, "read", p, I.ty, I.x != 0)
            regs[I.id] = self.load(st, p, I.ty); return
        if op == "store":
            o = I.ops[0]
            v = self.op(st, o, regs, F.mod)
            ty = self.opty(F, o)
            p = self.op(st, I.ops[1], regs, F.mod)
            self.store(st, p, ty, v)
            if self.on_shared: self.on_shared(self, st, "write", p, ty, I.x != 0)
            return
        if op in ("atomicrmw", "cmpxchg"):
            # one indivisible step; without a sharing hook these run as on unshared memory
            p = self.op(st, I.ops[0], regs, F.mod); ty = self.opty(F, I.ops[1])
            if ty.kind != "int": raise Unsupported("%s of a %s" % (op, ty.kind))
            if self.on_shared: self.on_shared(self, st, "read", p, ty, True)
            old = self.load(st, p, ty); x = self.op(st, I.ops[1], regs, F.mod)
            if op == "atomicrmw":
                f = {0: lambda a, b: b, 1: lambda a, b: a + b, 2: lambda a, b: a - b, 3: lambda a, b: a & b, 5: lambda a, b: a | b, 6: lambda a, b: a ^ b}.get(I.x[0])
                if not f: raise Unsupported("atomicrmw %d" % I.x[0])
                self.store(st, p, ty, simp(f(old, x))); regs[I.id] = old
            else:
                y = self.op(st, I.ops[2], regs, F.mod); ok = simp(old == x)
                if I.x: ok = z3.And(ok, self.fresh(z3.BoolSort(), "exchanged"))      # a weak one may fail spuriously
                self.store(st, p, ty, simp(z3.If(ok, y, old))); regs[I.id] = (old, ok)
            if self.on_shared: self.on_shared(self, st, "write", p, ty, True)
            return
        if op == "gep":
            ops = [self.op(st, o, regs, F.mod) for o in I.ops]
            regs[I.id] = self.gep(ops[0], I.x, ops[1:]); return
        if op == "landingpad": regs[I.id] = self.undef(I.ty); return
        ops = [self.op(st, o, regs, F.mod) for o in I.ops]
        regs[I.id] = self.alu(I, op, ops, st)

    def opty(self, F, o):
        from llvmir import Ty
        if o[0] == "v":
            if not hasattr(F, "defs"): F.defs = {I.id: I for L in F.blocks for I in L}
            if o[1] in F.defs: return F.defs[o[1]].ty
            return F.ptys[F.params.index(o[1])]
        if o[0] in ("c", "undef", "zero", "agg", "f"): return o[1]
        if o[0] == "ce": return o[2]
        return Ty("ptr", 64, 8)

    def alu(self, I, op, a, st):
        t = I.ty
        if op == "icmp": return self.icmp(st, I.x, a[0], a[1])
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            x, y = a
            if z3.is_bool(x):
                if op in ("xor", "add", "sub"): return simp(z3.Xor(x, y))
                if op in ("and", "mul"): return simp(z3.And(x, y))
                if op == "or": return simp(z3.Or(x, y))
                raise Unsupported("i1 " + op)
            if op in ("udiv", "sdiv", "urem", "srem") and not (isnum(y) and num(y)):
                self.oblige(st, y != 0, "division by zero", "ub"); st.assume(y != 0)
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
                 "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
                 "udiv": lambda: z3.UDiv(x, y), "sdiv": lambda: x / y, "urem": lambda: z3.URem(x, y), "srem": lambda: z3.SRem(x, y)}[op]()
            if op == "sdiv" and isnum(y):
                # exact division of a linear pointer difference
                c, d = linear(x) if x.size() == 64 else (1, None)
                if d is not None:
                    k = num(y); cs = sgn(c)
                    if k > 0 and cs % k == 0 and all(sgn(e[0]) % k == 0 for e in d.values()) and I.x is None and len(d) <= 3 and self.exact_div:
                        t2 = bv(cs // k)
                        for e in d.values(): t2 = t2 + bv((sgn(e[0]) // k) & ((1 << 64) - 1)) * e[1]
                        r = t2
            return simp(r)
        if op in ("zext", "sext"):
            x = a[0]
            if z3.is_bool(x): return simp(z3.If(x, bv(1 if op == "zext" else -1, t.bits), bv(0, t.bits)))
            return simp(z3.ZeroExt(t.bits - x.size(), x) if op == "zext" else z3.SignExt(t.bits - x.size(), x))
        if op == "trunc":
            x = a[0]
            if t.bits == 1: return simp(z3.Extract(0, 0, x) == 1)
            return simp(z3.Extract(t.bits - 1, 0, x))
        if op == "select":
            c = simp(tobool(a[0]))
            if z3.is_true(c): return a[1]
            if z3.is_false(c): return a[2]
            if isinstance(a[1], tuple): raise NeedSplit(c)
            if t.kind == "ptr" and (has_region_num(a[1]) or has_region_num(a[2])): raise NeedSplit(c)
            return simp(z3.If(c, a[1], a[2]))
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            x = a[0]
            if op == "ptrtoint" and t.bits < 64: return simp(z3.Extract(t.bits - 1, 0, x))
            return x
        if op == "extractvalue":
            v = a[0]
            for k in I.x: v = v[k]
            return v
        if op == "insertvalue":
            def ins(v, path, x):
                if not path: return x
                l = list(v); l[path[0]] = ins(l[path[0]], path[1:], x); return tuple(l)
            return ins(a[0], I.x, a[1])
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            w = t.size * 8
            return z3.Function("fp_%s%d" % (op, w), BV(w), BV(w), BV(w))(a[0], a[1])
        if op == "fneg": return z3.Function("fp_neg%d" % a[0].size(), BV(a[0].size()), BV(a[0].size()))(a[0])
        if op == "fcmp":
            w = a[0].size(); return z3.Function("fp_cmp%d_%d" % (I.x, w), BV(w), BV(w), z3.BoolSort())(a[0], a[1])
        if op in ("fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui"):
            tw = t.bits if t.kind == "int" else t.size * 8
            x = a[0]
            return z3.Function("fp_%s_%d_%d" % (op, x.size(), tw), BV(x.size()), BV(tw))(x)
        raise Unsupported("instruction " + op)
    exact_div = True

    def icmp(self, st, pred, x, y):
        if isinstance(x, tuple): raise Unsupported("icmp on aggregate")
        if z3.is_bool(x):
            if pred == "eq": return simp(x == y)
            if pred == "ne": return simp(z3.Xor(x, y))
            x, y = z3.If(x, bv(1, 8), bv(0, 8)), z3.If(y, bv(1, 8), bv(0, 8))
        if pred in ("eq", "ne"):
            e = self.eq(st, x, y)
            return e if pred == "eq" else simp(z3.Not(e))
        return simp({"ugt": z3.UGT, "uge": z3.UGE, "ult": z3.ULT, "ule": z3.ULE, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b,
                     "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b}[pred](x, y))

    def eq(self, st, x, y):
        if x.size() == 64:
            x, y = simp(x), simp(y)
            hx, hy = has_region_num(x), has_region_num(y)
            if hx != hy:
                # a local/fresh object never equals a pointer that does not derive from it
                z, o = (x, y) if hx else (y, x)
                c, d = linear(z)
                if c >= REGION0 and not self._mentions_wild(o): return z3.BoolVal(False)
            # same atoms, one stride: element addresses are injective in the index
            c1, d1 = linear(x); c2, d2 = linear(y)
            diff = linear(x - y)
            c, d = diff
            if not d: return z3.BoolVal(c == 0)
            ks = [sgn(e[0]) for e in d.values()]
            g = 0
            import math
            for k in ks: g = math.gcd(g, abs(k))
            g = math.gcd(g, abs(sgn(c))) if c else g
            if g > 1 and len(d) <= 2:
                t = bv((sgn(c) // g) & ((1 << 64) - 1))
                for e in d.values(): t = t + bv((sgn(e[0]) // g) & ((1 << 64) - 1)) * e[1]
                return simp(t == 0)
        return simp(x == y)

    # ---- loops ------------------------------------------------------------------------------------------------------------
    def snapshot_diff(self, a, b):
        """locations that differ between states a (header) and b (back edge)"""
        r = {}
        for rid, ra in a.regions.items():
            rb = b.regions.get(rid)
            if rb is None or rb is ra: continue
            if not rb.alive: continue
            for o in set(ra.cells) | set(rb.cells):
                ca, cb = ra.cells.get(o), rb.cells.get(o)
                if ca is None and cb is not None and cb[1].decl().name().startswith("undef_"): continue
                if ca is None or cb is None or ca[0] != cb[0] or not ca[1].eq(cb[1]):
                    sz = (cb or ca)[0]
                    r[("cell", rid, o, sz)] = None
            for k in set(ra.ghost) | set(rb.ghost):
                va, vb = ra.ghost.get(k), rb.ghost.get(k)
                if va is None or vb is None or not va.eq(vb): r[("rg", rid) + k] = None
            if (ra.arr is None) != (rb.arr is None) or (ra.arr is not None and not ra.arr.eq(rb.arr)): r[("arr", rid)] = None
        for s in set(a.heap) | set(b.heap):
            va, vb = a.heap.get(s), b.heap.get(s)
            if va is None or vb is None:
                if vb is not None and not z3.is_const(vb): r[("heap", s)] = None
                continue
            if not va.eq(vb): r[("heap", s)] = None
        for n in set(a.g) | set(b.g):
            va, vb = a.g.get(n), b.g.get(n)
            if va is None or vb is None:
                if vb is not None and not z3.is_const(vb): r[("g", n)] = None
                continue
            if not va.eq(vb): r[("g", n)] = None
        return list(r)

    def loc_get(self, loc, st, regs):
        k = loc[0]
        if k == "phi": return regs[loc[1]]
        if k == "cell":
            r = st.regions[loc[1]]; c = r.cells.get(loc[2])
            if c and c[0] == loc[3]: return c[1]
            return self._rload(st, r, loc[2], loc[3])
        if k == "rg":
            r = st.regions[loc[1]]
            if (loc[2], loc[3]) not in r.ghost: return self.gget(st, bv(r.base + loc[2]), loc[3])
            return r.ghost[(loc[2], loc[3])]
        if k == "arr":
            return self._array_mode(st, st.regions[loc[1]]).arr
        if k == "heap": return self.H(st, loc[1])
        if k == "g":
            return st.g[loc[1]]

    def loc_set(self, loc, st, regs, v):
        k = loc[0]
        if k == "phi": regs[loc[1]] = v
        elif k == "cell": r = st.wregion(loc[1]); self._clear(r, loc[2], loc[3]); r.cells[loc[2]] = (loc[3], v)
        elif k == "rg": st.wregion(loc[1]).ghost[(loc[2], loc[3])] = v
        elif k == "arr": self._array_mode(st, st.regions[loc[1]]); st.wregion(loc[1]).arr = v
        elif k == "heap": st.heap[loc[1]] = v
        elif k == "g": st.g[loc[1]] = v

    def do_loop(self, F, h, prev, st, regs):
        S = F.loops[h]
        phis = [I for I in F.blocks[h] if I.op == "phi"]
        start = len(phis)
        if prev is not None: self.phis(F, h, prev, st, regs)
        dem = F.dem
        lim = self.unroll.get(dem, self.auto_unroll)
        if lim:
            return self.do_unroll(F, h, st, regs, S, start, lim)
        if self.try_unroll and (dem, h) not in self.endless:
            few = next(((I.id, t) for I in phis for t in [numerals(regs.get(I.id))] if t), None)
            for I in phis if not few else ():
                t = regs.get(I.id)
                if t is None or not z3.is_bv(t) or t.size() < 32 or isnum(simp(t)): continue
                ts = values(simp(t))
                if ts and len(ts) > 1:
                    ts = [v for v in ts if self.feasible(self.assuming(st, simp(t == v)))]
                    if 1 <= len(ts) <= 4: few = (I.id, ts); break
            if few:         # a counter that starts at one of a few known values: each in turn
                i, ts = few; v = regs[i]; res = ([], [])
                for t in ts:
                    s1, r1 = st.fork(), dict(regs); s1.assume(simp(v == t)); r1[i] = t
                    if self.feasible(s1):
                        o, e = self.do_loop(F, h, None, s1, r1); res[0].extend(o); res[1].extend(e)
                return res
            # a loop that certainly ends within a few iterations is executed as it is, any other one is cut by its invariant
            n0, verbose = len(self.obls), self.verbose; self.verbose = False
            try:
                res = self.do_unroll(F, h, st.fork(), dict(regs), S, start, *self.try_unroll)
                self.ended[dem, h] = True
                return res
            except (Unsupported, NeedSplit) as e:
                del self.obls[n0:]
                if os.environ.get("UNROLLDEBUG"): print("  ENDLESS", dem.split("(")[0], h, "mute", self.mute, "discovery", self.discovery, str(e)[:80], flush=True)
                if not self.discovery:
                    n = self.tries[dem, h] = self.tries.get((dem, h), 0) + 1
                    if not self.mute or n > 2 or self.ended.get((dem, h)) is None: self.endless.add((dem, h))
            finally: self.verbose = verbose
        if self.on_edge: self.on_edge(self, st)
        init_st, init_regs = st, regs; disc = self.discovery
        self.mute += 1
        try:
            # (1) first concrete iteration and discovery of modified locations
            locs = [("phi", I.id) for I in phis] + [("g", n) for n in self.ghost_keep if n in init_st.g]
            s0, r0 = init_st.fork(), dict(init_regs)
            _, backs0, _ = self.blocks(F, [(h, None, s0, r0, start)], S, h)
            firsts = []
            for p, s, r in backs0:
                for l in self.snapshot_diff(init_st, s):
                    if l not in locs: locs.append(l)
                r = dict(r); self.phis(F, h, p, s, r); firsts.append((s, r))
            self.discovery += 1
            for _ in range(0 if self.lazy_frame else 6):
                sh, rh = init_st.fork(), dict(init_regs)
                wild0 = set(self.wild)
                for l in locs:
                    v0 = self.loc_get(l, sh, rh)
                    if isinstance(v0, tuple): raise Unsupported("aggregate phi in loop of " + dem)
                # linear candidates keep pointers usable during discovery
                lin = self.linear_cands(locs, init_st, init_regs, firsts)
                k = self.fresh(B64, "kd")
                for l in locs:
                    if l[0] == "g" and l[1] in self.ghost_keep: continue
                    v0 = self.loc_get(l, init_st, init_regs)
                    if l in lin: nv = simp(v0 + bv(lin[l], v0.size()) * (k if v0.size() == 64 else z3.Extract(v0.size() - 1, 0, k)))
                    else:
                        nv = self.fresh(v0.sort(), "hv")
                    self.loc_set(l, sh, rh, nv)
                hdr = sh.fork()
                hints = self._hints(F, h, locs, init_st, init_regs, lin, k, sh, rh, assume=True)
                _, backs, _ = self.blocks(F, [(h, None, sh, rh, start)], S, h)
                grown = False
                for p, s, r in backs:
                    for l in self.snapshot_diff(hdr, s):
                        if l not in locs and not self._covered(l, locs): locs.append(l); grown = True
                if not grown: break
            else:
                if not self.lazy_frame: raise Unsupported("loop frame does not stabilise in " + dem)
            self.discovery -= 1
            lin = self.linear_cands(locs, init_st, init_regs, firsts)
            # (2) Houdini over: const, linear, hint predicates
            const = set(locs)
            for l in list(const):
                for s, r in firsts:
                    if not self.loc_get(l, s, r).eq(self.loc_get(l, init_st, init_regs)): const.discard(l)
            lin = {l: d for l, d in lin.items() if l not in const}
            cands = None
            for rnd in range(60):
                if self.deadline and time.time() > self.deadline: raise Budget("time budget exhausted")
                k = self.fresh(B64, "k")
                sh, rh = init_st.fork(), dict(init_regs)
                self.wildround = set()
                for l in locs:
                    v0 = self.loc_get(l, init_st, init_regs)
                    if l in const: continue
                    if l in lin: nv = simp(v0 + bv(lin[l], v0.size()) * (k if v0.size() == 64 else z3.Extract(v0.size() - 1, 0, k)))
                    else:
                        nv = self.fresh(v0.sort(), "lv")
                        if v0.sort() == B64 and (has_region_num(v0) or any(has_region_num(self.loc_get(l, s, r)) for s, r in firsts)): self.wild.add(nv.get_id()); self._keep = getattr(self, "_keep", []) + [nv]
                    self.loc_set(l, sh, rh, nv)
                ctx = LoopCtx(self, F, h, locs, init_st, init_regs, lin, const)
                allc = []
                for hint in self.loop_hints: allc += list(hint(ctx))
                names = [c[0] for c in allc]
                if cands is None: cands, seen = set(), set()
                for nme, fn in allc:
                    # initiation
                    if nme in seen: continue
                    seen.add(nme)
                    try: g = fn(bv(0), lambda l: self.loc_get(l, init_st, init_regs), init_st)
                    except Unsupported: continue
                    if g is not None and self.valid(init_st, g, 3000): cands.add(nme)
                facts = []
                for nme, fn in allc:
                    if nme in cands:
                        g = fn(k, lambda l: self.loc_get(l, sh, rh), sh)
                        if g is not None: sh.assume(g)
                for f in ctx.facts(k): sh.assume(f)
                hdr = sh.fork(); hdr_regs = dict(rh)
                starts = self.loop_cases(self, sh, cands, init_st) if self.loop_cases else [sh]
                again = [s.fork() for s in starts]
                outs, backs, exits = self.blocks(F, [(h, None, s, dict(rh), start) for s in starts], S, h)
                grown = [l for p, s, r in backs for l in self.snapshot_diff(hdr, s) if l not in locs and not self._covered(l, locs)] if self.lazy_frame else []
                if grown:       # more is written than the first iteration wrote
                    for l in grown:
                        if l not in locs: locs.append(l)
                    cands, lin = None, self.linear_cands(locs, init_st, init_regs, firsts)
                    const = {l for l in locs if all(self.loc_get(l, s, r).eq(self.loc_get(l, init_st, init_regs)) for s, r in firsts)}
                    lin = {l: d for l, d in lin.items() if l not in const}
                    continue
                drop_c, drop_l, drop = set(), set(), set()
                for p, s, r in backs:
                    r = dict(r); self.phis(F, h, p, s, r)
                    if self.on_edge: self.on_edge(self, s)
                    for f in ctx.facts(k): s.assume(f)
                    for l in locs:
                        nv = self.loc_get(l, s, r)
                        if l in const and l not in drop_c:
                            v0 = self.loc_get(l, hdr, hdr_regs)
                            if not nv.eq(v0) and not self.valid(s, self.eq_any(s, nv, v0), 3000): drop_c.add(l)
                        elif l in lin and l not in drop_l:
                            v0 = self.loc_get(l, hdr, hdr_regs)
                            tgt = simp(v0 + bv(lin[l], v0.size()))
                            if not nv.eq(tgt) and not self.valid(s, nv == tgt, 3000): drop_l.add(l)
                    for nme, fn in allc:
                        if nme in cands and nme not in drop:
                            g = fn(simp(k + 1), lambda l: self.loc_get(l, s, r), s)
                            if g is None or not self.valid(s, g, 6000):
                                drop.add(nme)
                                if os.environ.get("LOOPDEBUG"): self.loopdebug(dem, rnd, nme, g, s)
                if not (drop_c or drop_l or drop): break
                # drop weak structural candidates first: they invalidate others
                if drop_c or drop_l:
                    const -= drop_c; lin = {l: d for l, d in lin.items() if l not in drop_l}
                    if drop_c:
                        ln = self.linear_cands(locs, init_st, init_regs, firsts)
                    if drop: cands -= drop
                else: cands -= drop
            else: raise Unsupported("loop invariant inference does not converge in " + dem)
        finally:
            self.mute -= 1; self.discovery = disc
        # (3) final pass: same header state, obligations on
        if not self.mute:
            for nme in sorted(cands):
                o = Obl("loop invariant `%s` is inductive (%s)" % (nme, dem.split("(")[0]), self.cur, "loop"); o.status, o.backend = "discharged", "z3"
                self.obls.append(o)
            for l in lin: 
                o = Obl("loop induction variable step %d (%s)" % (sgn(lin[l]), dem.split("(")[0]), self.cur, "loop"); o.status, o.backend = "discharged", "z3"
                self.obls.append(o)
        if self.verbose: print("  LOOP in", dem.split("(")[0], "locs", len(locs), "const", len(const), "lin", {str(l): sgn(d) for l, d in lin.items()}, "inv", sorted(cands))
        outs, backs, exits = self.blocks(F, [(h, None, s, dict(hdr_regs), start) for s in again], S, h)
        if self.on_back and not self.mute:
            for p, s, r in backs: self.on_back(self, F, h, hdr, s)
        return outs, exits

    def loopdebug(self, dem, rnd, nme, g, s):
        r, sol = self._check(s.pc + [z3.Not(g)], 6000)
        print("   DROP", dem[:60], "round", rnd, nme, r, str(g)[:200].replace("\n", " "))
        if os.environ["LOOPDEBUG"] in nme:
            for c in s.pc[-30:]: print("        pc", str(c)[:300].replace("\n", " "))
            if r == z3.sat: print("        model", str(sol.model())[:1500].replace("\n", " "))

    def eq_any(self, st, a, b):
        return self.eq(st, a, b) if z3.is_bv(a) else a == b

    def _hints(self, F, h, locs, ist, iregs, lin, k, sh, rh, assume):
        return None

    def _covered(self, l, locs):
        if l[0] != "cell": return False
        return False

    def linear_cands(self, locs, st0, r0, firsts):
        r = {}
        if not firsts: return r
        for l in locs:
            v0 = self.loc_get(l, st0, r0)
            if not z3.is_bv(v0) or v0.size() < 8: continue
            d = None
            for s, rg in firsts:
                v1 = self.loc_get(l, s, rg)
                df = simp(v1 - v0)
                if v0.size() == 64:
                    c, dd = linear(df)
                    df = bv(c) if not dd else df
                if not isnum(df) or num(df) == 0: d = None; break
                if d is None: d = num(df)
                elif d != num(df): d = None; break
            if d is not None: r[l] = d
        return r

    def counts(self, F, h, st, regs, w):
        """whether something known changes its value from one iteration to the next: without it the loop is not tried"""
        s, r = w[2], w[3]
        for I in F.blocks[h]:
            if I.op != "phi": break
            a, b = regs.get(I.id), r.get(I.id)
            if a is not None and b is not None and z3.is_expr(a) and z3.is_expr(b) and isnum(simp(a)) and isnum(simp(b)) and num(simp(a)) != num(simp(b)): return True
        for rid, q in s.regions.items():
            o = st.regions.get(rid)
            if o is None or o is q: continue
            for off, (sz, v) in q.cells.items():
                if off in o.cells and o.cells[off][0] == sz and isnum(simp(v)) and isnum(simp(o.cells[off][1])) and num(simp(v)) != num(simp(o.cells[off][1])): return True
        return False

    def assuming(self, st, c):
        s = st.fork(); s.assume(c); return s

    def do_unroll(self, F, h, st, regs, S, start, lim, width=None):
        outs, exits = [], []
        st0, regs0 = st.fork(), dict(regs)
        cur = [(h, None, st, regs, start)]
        for it in range(lim + 1):
            o, backs, ex = self.blocks(F, cur, S, h)
            outs += o; exits += ex
            cur = []
            for p, s, r in backs:
                self.phis(F, h, p, s, r)
                if self.feasible(s): cur.append((h, None, s, r, start))
            if not cur: return outs, exits
            if width and it == 0 and not all(self.counts(F, h, st0, regs0, w) for w in cur): break
            if width and self.merge_key and len(cur) > 1: cur = self.merge_work(cur)
            if width and len(cur) > width: break
        raise Unsupported("loop in %s not exhausted after %d iterations" % (F.dem, lim))


class LoopCtx:
    def __init__(s, ex, F, h, locs, st, regs, lin, const):
        s.ex, s.F, s.h, s.locs, s.st, s.regs, s.lin, s.const = ex, F, h, locs, st, regs, lin, const
        s._facts = []
    def init(s, l): return s.ex.loc_get(l, s.st, s.regs)
    def free(s, sort=None):
        """locations that are neither constant nor linear"""
        return [l for l in s.locs if l not in s.lin and l not in s.const and (sort is None or s.init(l).sort() == sort)]
    def fact(s, f): s._facts.append(f)
    def facts(s, k): return [f(k) for f in s._facts]


class NeedSplit(Exception):
    def __init__(s, cond): s.cond = cond


class UB(Exception): pass
