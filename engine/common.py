"""Check driver: compile /repo's sources to IR, run proofs, look for witnesses, write evidence."""
import os, sys, json, time, pickle, subprocess, tempfile, shutil, hashlib, traceback, atexit, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REFLECT_REPO", "/repo")
import z3
from symex import *
from llvmir import Module, demangle
import stl

SAN = "-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,unreachable,return,builtin -fsanitize-trap=all".split()
CLANG = ["clang++-18", "-std=c++11", "-O0", "-g1", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w"]


# the core library (src/reflect.cpp includes every core .cpp) and the primitive types
CORE = ("src/reflect.cpp", "src/types/reflect/value.cpp", "src/types/reflect/type.cpp", "src/types/primitives.cpp") + tuple("src/types/primitive_%s.cpp" % x for x in ("void", "int", "bool", "long", "char", "short", "long_long", "float"))


class BuildError(Exception): pass


class Check:
    def __init__(self, pid, title=""):
        self.pid = pid
        self.tier = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.obls, self.functions, self.trusted, self.assumed_contracts, self.assumptions = [], [], set(), set(), []
        self.solver_time, self.nchecks = 0., 0
        self.covers = 0
        self.bounded = []
        self.undecided = []
        self.inlined = set()
        self.budget = 420 if self.tier == "quick" else 700
        self.verbose = bool(os.environ.get("V"))
        self.witness_runs = []
        self.jobs = []; self.ncpu = min(8, os.cpu_count() or 2)
        self.known = load_known(pid)

    # -- compile -----------------------------------------------------------------------------------------------------
    def compile(self, srcs, flags=(), san=True, sroa=True):
        """srcs: list of paths -> list of Modules (in parallel)"""
        procs = []
        for s in srcs:
            out = os.path.join(self.tmp, hashlib.sha1(s.encode()).hexdigest()[:10] + ".bc")
            cmd = CLANG + (SAN if san else []) + ["-I" + REPO + "/src", "-I" + VERIF + "/drivers"] + list(flags) + ["-c", "-emit-llvm", s, "-o", out]
            procs.append((s, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        mods = []
        for s, out, p in procs:
            o, _ = p.communicate()
            if p.returncode: raise BuildError("cannot compile %s:\n%s" % (s, o.decode(errors="replace")[-3000:]))
            if sroa:
                subprocess.run(["/usr/lib/llvm-18/bin/opt", "-passes=sroa", out, "-o", out + "2"], check=True)
                out += "2"
            mods.append(Module(out))
        return mods

    def executor(self, mods):
        ex = Executor(mods, self.verbose)
        ex.deadline = self.t0 + self.budget
        stl.install_all(ex)
        return ex

    # -- proof --------------------------------------------------------------------------------------------------------
    def verify(self, ex, dem, setup, label=None, mangled=None, required=True):
        """in a forked child, so that functions are verified in parallel; results are collected by collect()"""
        if os.environ.get("SERIAL"):
            r = self._verify(ex, dem, setup, label, mangled, required); self._absorb(ex); return r
        while len([j for j in self.jobs if j["pid"]]) >= self.ncpu: self._reap()
        out = os.path.join(self.tmp, "job%d" % len(self.jobs))
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                self.obls, self.functions, self.covers = [], [], 0
                ex.used_contracts, ex.inlined, ex.solver_time, ex.nchecks = {}, set(), 0., 0
                if self.verbose: sys.stdout = open(out + ".log", "w")
                self._verify(ex, dem, setup, label, mangled, required)
                self._absorb(ex)
                for o in self.obls:
                    if o.model is not None: o.model = str(o.model)[:3000].replace("\n", " ")
                    o.detail = None if o.detail is None else str(o.detail)
                with open(out, "wb") as f:
                    pickle.dump(dict(obls=[[getattr(o, k) for k in Obl.__slots__] for o in self.obls], functions=self.functions, covers=self.covers, solver_time=self.solver_time - 0,
                                     nchecks=self.nchecks, trusted=self.trusted, assumed=self.assumed_contracts, inlined=self.inlined), f)
                rc = 0
            except BaseException: traceback.print_exc()
            finally:
                sys.stdout.flush(); os._exit(rc)
        self.jobs.append(dict(pid=pid, out=out, label=str(label or dem), required=required))

    def _reap(self, block=True):
        pid, st = os.waitpid(-1, 0)
        for j in self.jobs:
            if j["pid"] == pid: j["pid"] = 0

    def collect(self):
        while any(j["pid"] for j in self.jobs): self._reap()
        for j in self.jobs:
            if j.get("done"): continue
            j["done"] = True
            if self.verbose and os.path.exists(j["out"] + ".log"): sys.stdout.write(open(j["out"] + ".log").read())
            try: r = pickle.load(open(j["out"], "rb"))
            except Exception:
                o = Obl("verification conditions generated", j["label"], "unsupported"); o.status, o.backend, o.detail = "failed", "vcgen", "the prover process ended without a result"
                self.obls.append(o); continue
            for vals in r["obls"]:
                o = Obl(None, None, None)
                for k, v in zip(Obl.__slots__, vals): setattr(o, k, v)
                self.obls.append(o)
            self.functions += r["functions"]; self.covers += r["covers"]; self.solver_time += r["solver_time"]; self.nchecks += r["nchecks"]
            self.trusted |= r["trusted"]; self.assumed_contracts |= r["assumed"]; self.inlined |= r["inlined"]

    def _verify(self, ex, dem, setup, label=None, mangled=None, required=True):
        """setup(ex, st) -> (args, post) ; post(out) emits obligations for one outcome."""
        names = [mangled] if mangled else ex.find(dem)
        if not names:
            if required:
                o = Obl("function under contract exists", str(label or dem), "extract"); o.status = "failed"; o.detail = "no definition of %s in the compiled sources" % (dem,)
                self.obls.append(o)
            return False
        name = names[0]
        ex.cur = label or demangle(name)
        n0 = len(ex.obls)
        t0 = time.time()
        ex.mute = 0; ex.depth = 0; ex.stack = []
        try:
            mod, name = ex.find_def(name); F = mod.func(name)
            st = State()
            ex.mute = 1                      # reading the pre-state generates no obligations
            args, post = setup(ex, st)
            ex.mute = 0
            if not ex.feasible(st):
                ex.fail("precondition satisfiable (cover)", "the precondition is contradictory", "cover")
            else: self.covers += 1
            outs = ex.run(F, st, args)
            reach = 0
            for o in outs:
                if o.kind in ("trap", "unreachable"):
                    if ex.feasible(o.st): ex.oblige(o.st, z3.BoolVal(False), "no undefined behaviour: %s" % (o.info,), "ub")
                    continue
                if not ex.feasible(o.st): continue
                reach += 1
                post(o)
            if not reach: ex.fail("some outcome reachable (cover)", "no feasible outcome", "cover")
            else: self.covers += 1
        except (Unsupported, Budget, RecursionError, z3.Z3Exception, UB, NeedSplit) as e:
            ex.mute = 0; ex.fail("verification conditions generated", "%s: %s" % (type(e).__name__, e), "unsupported")
            if self.verbose: traceback.print_exc()
        except Exception as e:
            ex.mute = 0; ex.fail("verification conditions generated", "internal %s: %s" % (type(e).__name__, e), "unsupported")
            if self.verbose: traceback.print_exc()
        new = ex.obls[n0:]
        self.obls += new
        bad = [o for o in new if o.status != "discharged"]
        self.functions.append(dict(function=ex.cur, mangled=name, obligations=len(new), discharged=len(new) - len(bad), seconds=round(time.time() - t0, 2)))
        if self.verbose: print("VERIFY", ex.cur, len(new), "obligations", len(bad), "failed", round(time.time() - t0, 2), "s")
        return not bad

    def absorb(self, ex): pass

    def _absorb(self, ex):
        self.solver_time += ex.solver_time; self.nchecks += ex.nchecks
        for lb, (tr, n) in ex.used_contracts.items(): (self.trusted if tr else self.assumed_contracts).add(lb)
        self.inlined |= ex.inlined

    # -- witness search ---------------------------------------------------------------------------------------------
    def build_witness(self, src, repo_srcs=None, flags=(), san=True, name="w", cxx="g++", parts=1):
        """the witness program and the library's sources, compiled in parallel (instrumented) and linked"""
        exe = os.path.join(self.tmp, name)
        base = ["-std=c++11", "-O1", "-w", "-I" + REPO + "/src", "-I" + VERIF + "/witness", "-DREFLECT_USE_EXCEPTIONS=1"]
        if san: base += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
        base += list(flags)
        procs, objs = [], []
        todo = [(src, ["-DPART=%d" % k] if parts > 1 else []) for k in range(parts)] + [(os.path.join(REPO, x), []) for x in (repo_srcs or CORE)]
        for i, (f, extra) in enumerate(todo):
            o = "%s.%d.o" % (exe, i); objs.append(o)
            procs.append((f, subprocess.Popen([cxx] + base + extra + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for f, p in procs:
            out, _ = p.communicate()
            if p.returncode: err = (f, out.decode(errors="replace")); break
        else: err = None
        for f, p in procs:
            if p.poll() is None: p.kill(); p.wait()
        if err: raise BuildError("cannot build witness program (%s):\n%s" % (err[0], err[1][-3000:]))
        p = subprocess.run([cxx] + base + objs[parts:] + objs[:parts] + ["-o", exe, "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: raise BuildError("cannot link witness program:\n" + p.stdout.decode(errors="replace")[-3000:])
        return exe

    def run_witness(self, exe, args=(), timeout=240, env=None):
        """-> (failed, text, stats). Protocol: prints `WITNESS ...` and exits 3 on a failing input; `CASES n`."""
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=66", UBSAN_OPTIONS="print_stacktrace=0:exitcode=67")
        e.update(env or {})
        try:
            p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=self.tmp)
            txt = p.stdout.decode(errors="replace"); rc = p.returncode
        except subprocess.TimeoutExpired as x:
            txt = (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT"; rc = -99
        n = sum(int(l.split()[1]) for l in txt.splitlines() if l.startswith("CASES "))
        self.witness_runs.append(dict(program=os.path.basename(exe), args=[str(a) for a in args], exit=rc, cases=n))
        return rc != 0, txt, rc

    # -- end ------------------------------------------------------------------------------------------------------------
    def finish(self, witness=None, level="proof", level_explanation=None, checker=None,  validate=True):
        """witness(check) -> None | text of a failing input (with the commands to reproduce)"""
        self.collect()
        bad = [o for o in self.obls if o.status != "discharged"]
        viol = []
        wtext = None
        if not self.obls:
            print("internal error: no obligations were generated"); self.write_evidence(level, 0); sys.exit(2)
        if witness:
            try: wtext = witness(self)
            except BuildError as e:
                if not bad: raise
                wtext = None; print("witness program could not be built: " + str(e)[-400:])
        nv = 0
        rd = os.environ.get("EVIDENCE_DIR") or os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, self.pid + ".txt")
        if wtext and not bad:
            # the proof holds but the real code misbehaves: a trusted contract is wrong for this tree, or the code
            # outside the contracts is: the failing input is reported all the same
            nv = 1
        if bad: nv = len(bad)
        self.write_evidence(level, nv)
        if nv:
            with open(rp, "w") as f:
                f.write("property %s\n\n" % self.pid)
                for o in bad:
                    f.write("FAILED OBLIGATION in %s: %s [%s, %s]\n" % (o.fn, o.name, o.kind, o.backend))
                    if o.detail: f.write("  %s\n" % o.detail)
                    if o.model is not None: f.write("  solver model: %s\n" % str(o.model)[:3000].replace("\n", " "))
                    f.write("\n")
                if not bad: f.write("every obligation was discharged; the bounded validation of the assumed contracts on the real code failed\n")
                f.write("WITNESS on the real code:\n%s\n" % wtext if wtext else "no failing input found by the witness search\n")
            for o in bad[:8]: print("failed obligation: %s: %s%s" % (o.fn, o.name, (" -- " + str(o.detail)[:300]) if o.detail else ""))
            if wtext: print(wtext[:1500])
            print("VIOLATION property=%s replay=%s%s" % (self.pid, os.path.relpath(rp, VERIF), "" if wtext else " no-failing-input-found"))
            sys.exit(1)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        print("property %s: %d obligations discharged over %d functions, %.1f s" % (self.pid, len(self.obls), len(self.functions), time.time() - self.t0))
        sys.exit(0)

    def write_evidence(self, level, nviol):
        byk, byb = {}, {}
        for o in self.obls:
            byk[o.kind] = byk.get(o.kind, 0) + 1
            if o.status == "discharged": byb[o.backend] = byb.get(o.backend, 0) + 1
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(obligations=len(self.obls), discharged=sum(o.status == "discharged" for o in self.obls),
                                checker_cmd="python3-vt props/%s.py (clang-18 -O0 IR of /repo -> engine/symex.py -> z3 %s, cvc5 as fallback)" % (self.pid.lower(), z3.get_version_string()),
                                trusted_base=sorted("library contract: " + t for t in self.trusted) + [
                                    "clang-18 front end and the sroa pass; engine/ (VC generator); z3/cvc5",
                                ],
                                functions_under_contract=self.functions, obligations_by_kind=byk, discharged_by_backend=byb,
                                covers_passed=self.covers, solver_seconds=round(self.solver_time, 2), solver_calls=self.nchecks,
                                contracts_used_at_calls=sorted(self.assumed_contracts), functions_executed_in_place=len(self.inlined),
                                bounded_parts=self.bounded, bounded_validation_of_assumed_contracts=self.witness_runs,
                                failed=[dict(function=o.fn, obligation=o.name, kind=o.kind, detail=str(o.detail)[:500]) for o in self.obls if o.status != "discharged"][:20]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        ed = os.environ.get("EVIDENCE_DIR") or os.path.join(VERIF, "evidence"); os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)


def load_known(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid): r.append(l.split(" ", 2)[2])
    return r


def std_witness(c, src, args=(), repo_srcs=None, flags=(), timeout=200, env=None, **kw):
    """build and run one witness program (independent oracle, real code); its output if it found a failing input"""
    path = os.path.join(VERIF, "witness", src)
    exe = c.build_witness(path, repo_srcs, flags, **kw)
    a = list(args) or [c.seed, 1 if c.tier == "quick" else 10]
    bad, txt, rc = c.run_witness(exe, a, timeout, env)
    if "ThreadSanitizer: unexpected memory mapping" in txt:
        c.assumptions.append("the race detector could not run in this environment: the bounded validation was skipped"); return None
    if bad: return "witness program %s %s (exit %d), built against the current /repo with %s:\n%s" % (
        os.path.relpath(path, VERIF), " ".join(map(str, a)), rc, "-fsanitize=address,undefined" if kw.get("san", True) else " ".join(flags), txt[-6000:])
    return None


def main(fn, pid):
    try: fn(Check(pid))
    except BuildError as e:
        print("build error: " + str(e)); sys.exit(2)


COMMON_ASSUMPTIONS = [
    "containers and strings have fewer than 2^40 elements",
    "standard-library functions behave as their contracts in engine/stl.py state; their bodies are not verified",
    "exception unwinding paths are outcomes: cleanup code on them is not analysed",
    "objects reached through unrelated pointers are accessed with consistent scalar widths (no type punning in the symbolic heap)",
    "function-local statics are initialised on first use and their initialiser is idempotent",
]
