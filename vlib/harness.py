"""Common check driver: case pool, verdicts, known findings, evidence, replays."""
import collections, hashlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
from . import build as B

ROOT = B.ROOT
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1",
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LANG": "C.UTF-8", "HOME": "/nonexistent", "PYTHONDONTWRITEBYTECODE": "1",
}
RE_REAL = re.compile(r"^RESULT: Specification is (realizable|unrealizable)\.", re.M)


class Violation(Exception):
    def __init__(self, key, msg, files=None):
        super().__init__(msg)
        self.key, self.msg, self.files = key, msg, files or {}


class Inconclusive(Exception):
    pass


class Run:
    """One finished execution of a program under test."""
    def __init__(self, args, rc, out, err, files):
        self.args, self.rc, self.out, self.err, self.files = args, rc, out, err, files

    @property
    def sanitizer(self):
        m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n(]*|ERROR: LeakSanitizer)", self.err)
        if m or self.rc == 77:
            what = m.group(1) if m else "sanitizer exit"
            what = re.sub(r"0x[0-9a-f]+|\d+", "N", what)
            fn = ""
            for f in re.findall(r"^\s*#\d+ 0x[0-9a-f]+ in ([^\n]*)$", self.err, re.M):
                name = f.split("(")[0].strip()
                if "/repo" in f or "/verif" in f:
                    fn = re.sub(r"<.*>", "<>", name)
                    break
            return "san:%s@%s" % (what, fn)
        return None

    @property
    def abnormal(self):
        """None, or a key describing an abnormal end."""
        s = self.sanitizer
        if s:
            return s
        if self.rc < 0:
            return "signal:%d" % -self.rc
        return None

    @property
    def verdict(self):
        """True / False / None"""
        m = RE_REAL.findall(self.err)
        if not m:
            return None
        return m[-1] == "realizable"


_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        base = os.environ.get("VERIF_SCRATCH_BASE") or tempfile.gettempdir()
        _SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix="vs-", dir=base))
    return _SCRATCH[1]


def hashstr(s):
    return hashlib.sha256(s.encode() if isinstance(s, str) else s).hexdigest()[:16]


class Ctx:
    """Passed to case functions: runs programs, keeps the inputs for replays, counts what was observed."""
    def __init__(self, prop, seed, tier, bins):
        self.prop, self.seed, self.tier, self.bins = prop, seed, tier, bins
        self.reset()

    def reset(self):
        self.evals = 0
        self.keys = set()
        self.stats = collections.Counter()
        self.sample = None
        self.log = []
        self.viols = []

    def viol(self, key, msg, **files):
        fs = {}
        for n, (args, fl) in enumerate(self.log[-6:]):
            for k, c in fl.items():
                fs["%d.%s" % (n, k)] = c
            fs["%d.cmd" % n] = " ".join(args)
        fs.update(files)
        self.viols.append({"key": key, "msg": msg, "files": fs})

    def nontrivial(self, key):
        self.keys.add(hashstr(str(key)))

    def run(self, args, files=None, stdin=None, timeout=25, cwd=None, bin="slugs", env=None, exe=None, outputs=(), crash_ok=False, binary=False):
        """Runs bin with args in a fresh directory holding `files`. Abnormal ends become violations unless crash_ok."""
        d = cwd or scratch()
        for n in os.listdir(d):
            p = os.path.join(d, n)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), "wb" if isinstance(c, bytes) else "w") as f:
                f.write(c)
        cmd = list(exe or [self.bins[bin]]) + list(args)
        self.log.append(([bin] + list(args), {k: (c if isinstance(c, str) else repr(c)) for k, c in (files or {}).items()} | ({"stdin": stdin if isinstance(stdin, str) else repr(stdin)} if stdin is not None else {})))
        if len(self.log) > 12:
            self.log = self.log[-8:]
        self.evals += 1
        e = dict(SAN_ENV)
        e.update(env or {})
        data = stdin.encode() if isinstance(stdin, str) else stdin
        for t in (timeout, timeout * 4):
            try:
                p = subprocess.run(cmd, cwd=d, input=data if data is not None else b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t, env=e)
                break
            except subprocess.TimeoutExpired:
                p = None
        if p is None:
            self.stats["hang"] += 1
            r = Run(args, -99, "", "", {})
            if not crash_ok:
                raise Violation("hang:" + "+".join(a for a in args if a.startswith("--")), "no answer within %d s, twice: %s" % (timeout * 4, " ".join(args)))
            return r
        fl = {}
        for n in outputs:
            q = os.path.join(d, n)
            if os.path.exists(q):
                with open(q, "rb") as f:
                    b = f.read()
                fl[n] = b if binary else b.decode("utf-8", errors="replace")
        r = Run(args, p.returncode, p.stdout.decode("utf-8", errors="replace"), p.stderr.decode("utf-8", errors="replace"), fl)
        if not crash_ok:
            a = r.abnormal
            if a:
                raise Violation(a, "abnormal end (%s) of %s\n%s" % (a, " ".join(args), r.err[-1500:]), {"stderr": r.err[-6000:]})
        return r


_G = {}


def _init(ctxargs, fn):
    _G["ctx"] = Ctx(*ctxargs)
    _G["fn"] = fn


def _cleanup():
    if _SCRATCH is not None and _SCRATCH[0] == os.getpid():
        shutil.rmtree(_SCRATCH[1], ignore_errors=True)


def _work(case):
    ctx, fn = _G["ctx"], _G["fn"]
    ctx.reset()
    inc = None
    try:
        fn(ctx, case)
    except Violation as v:
        ctx.viol(v.key, v.msg, **v.files)
    except Inconclusive as e:
        inc = str(e)
    except Exception:
        return {"case": case, "error": traceback.format_exc()}
    return {"case": case, "evals": ctx.evals, "keys": ctx.keys, "stats": ctx.stats, "sample": ctx.sample, "viols": ctx.viols, "inc": inc}


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


class Check:
    """Subclass in checks/<ID>.py: sets id, rule, counts and case(ctx, idx)."""
    id = None
    level = "exploration"
    technique = "runtime monitoring: instrumented (ASan+UBSan) runs on generated inputs, judged by an independent oracle"
    level_note = "Holds on every execution observed (seeded random workload, counts in the evidence file); trusts the Python oracle and the compiler's sanitizers."
    rule = ""
    quick_n = 1000
    thorough_n = 20000
    min_nontrivial = 20
    assumptions = []
    procs = 8
    max_wall_quick = 420
    max_wall_thorough = 3600

    def bins(self):
        return {"slugs": B.slugs()}

    def case(self, ctx, idx):
        raise NotImplementedError

    def extra_cases(self):
        """named deterministic cases, run first: list of strings handled by case()"""
        return []

    def rng(self, ctx, idx):
        return random.Random("%s/%s/%s" % (self.id, ctx.seed, idx))

    # deterministic reproductions of the known findings: name -> function(ctx) raising/adding violations
    def known_repro(self, ctx, entry):
        raise NotImplementedError

    def main(self, argv):
        t0 = time.time()
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in argv:
            tier = "thorough"
        seed = int(os.environ.get("VERIF_SEED", "1"))
        n = self.quick_n if tier == "quick" else self.thorough_n
        if "--n" in argv:
            n = int(argv[argv.index("--n") + 1])
        try:
            bins = self.bins()
        except B.BuildError as e:
            print("BUILD ERROR (no verdict)\n%s" % e)
            return 3
        tb = time.time() - t0
        known = [k for k in load_known() if self.id == k["property"] or self.id in k.get("also", [])]
        cases = list(self.extra_cases()) + list(range(n))
        if "--replay" in argv:
            rep = json.load(open(argv[argv.index("--replay") + 1]))
            seed = rep["seed"]
            cases = [rep["case"]]
        if "--cases" in argv:
            cases = [int(x) if x.isdigit() else x for x in argv[argv.index("--cases") + 1].split(",")]
        agg = {"evals": 0, "keys": set(), "stats": collections.Counter(), "samples": [], "inc": 0}
        viols, errors = {}, []
        reproduced = set()
        wall = self.max_wall_quick if tier == "quick" else self.max_wall_thorough
        base = tempfile.mkdtemp(prefix="verif-%s-" % self.id)
        os.environ["VERIF_SCRATCH_BASE"] = base
        done = 0
        try:
            with mp.get_context("fork").Pool(self.procs, initializer=_init, initargs=((self.id, seed, tier, bins), self.case)) as pool:
                kn = [("known", i) for i in range(len(known))] if "--replay" not in argv else []
                it = pool.imap_unordered(_work, cases, chunksize=max(1, min(8, len(cases) // 64)))
                for r in it:
                    done += 1
                    if "error" in r:
                        errors.append((r["case"], r["error"]))
                        if len(errors) > 20:
                            break
                        continue
                    agg["evals"] += r["evals"]
                    agg["keys"] |= r["keys"]
                    agg["stats"] += r["stats"]
                    if r["inc"]:
                        agg["inc"] += 1
                    if r["sample"] is not None and len(agg["samples"]) < 3:
                        agg["samples"].append(r["sample"])
                    for v in r["viols"]:
                        k = match_known(known, v["key"])
                        if k is not None:
                            reproduced.add(k)
                            agg["stats"]["known-finding hits"] += 1
                        else:
                            viols.setdefault(v["key"], []).append((r["case"], v))
                    if len(viols) >= 6 or sum(len(x) for x in viols.values()) >= 25:
                        break
                    if time.time() - t0 > wall:
                        agg["stats"]["stopped by wall clock"] += 1
                        break
                pool.terminate()
        finally:
            shutil.rmtree(base, ignore_errors=True)
        # report
        nv = 0
        for key, lst in sorted(viols.items()):
            case, v = lst[0]
            nv += len(lst)
            rep = self.save_replay(seed, case, v)
            print("VIOLATION property=%s replay=%s" % (self.id, rep))
            print("  key: %s (%d occurrence(s))" % (key, len(lst)))
            print("  " + v["msg"].replace("\n", "\n  ")[:3000])
        for i, k in enumerate(known):
            if k["key"] in reproduced:
                print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        for c, e in errors[:3]:
            print("HARNESS ERROR in case %r:\n%s" % (c, e))
        ev = {"property": self.id, "tier": tier, "seed": seed, "level": self.level,
              "coverage": {"evaluations": agg["evals"], "distinct_nontrivial": len(agg["keys"]), "rule": self.rule, "samples": agg["samples"] or ["(no sample recorded)"],
                           "cases": done, "cases_planned": len(cases), "inconclusive_cases": agg["inc"], "observed": dict(sorted(agg["stats"].items())), "build_s": round(tb, 1)},
              "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 1), "violations": nv}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.id + ".json"), "w"), indent=1)
        print("%s tier=%s seed=%d cases=%d executions=%d distinct_nontrivial=%d inconclusive=%d violations=%d build=%.1fs wall=%.1fs" % (
            self.id, tier, seed, done, agg["evals"], len(agg["keys"]), agg["inc"], nv, tb, time.time() - t0))
        if "-v" in argv:
            for k, c in sorted(agg["stats"].items()):
                print("   %-50s %d" % (k, c))
        if viols:
            return 1
        if errors:
            return 4
        if "--replay" not in argv and "--n" not in argv and "--cases" not in argv:
            if len(agg["keys"]) < self.min_nontrivial or agg["inc"] > done * 0.2:
                print("INCONCLUSIVE: too little was observed (%d distinct non-trivial, %d inconclusive of %d cases)" % (len(agg["keys"]), agg["inc"], done))
                return 2
        return 0

    def save_replay(self, seed, case, v):
        d = os.path.join(ROOT, "replays", self.id)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "s%d-%s.json" % (seed, hashstr(v["key"] + str(case))))
        json.dump({"property": self.id, "seed": seed, "case": case, "key": v["key"], "msg": v["msg"], "files": v["files"],
                   "how": "./check %s --replay %s" % (self.id, p)}, open(p, "w"), indent=1)
        return p


def match_known(known, key):
    for k in known:
        if k["key"] == key:
            return k["key"]
    return None
