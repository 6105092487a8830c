"""C35: managers in different threads, each driven by a history of its own, watched by ThreadSanitizer and by the histories' own monitors."""
import os, re, shutil, tempfile
from vlib import build as B
from vlib.ddcheck import DDCheck
from vlib.harness import Violation, Inconclusive

PARTS = ("threads", "thr_arith", "thr_bddops", "thr_ddhist", "thr_dddmpio")


class C35(DDCheck):
    id = "C35"
    technique = "ThreadSanitizer (race detector) over concurrent operation histories, one diagram manager per thread; every result judged by the monitors of the histories, and repeated one after another to tell interference from other defects"
    level_note = "Holds on every execution observed; a race is seen when the two accesses happen in a run and no synchronisation orders them, whether or not they collide. Trusts ThreadSanitizer and the monitors of the histories."
    rule = ("A case starts 2 to 8 threads, several times, each with managers of its own and a random history: operations on diagrams with and without numbers, zero-suppressed diagrams, approximations and decompositions, reordering, collections, limits and abandoned operations, storing and loading files, "
            "running out of nodes. No unordered access of two threads to the same memory may happen, and every history must come out as it does alone. Non-trivial: at least two histories ran at the same time; distinct by generator seed and shape.")
    quick_n = 160
    thorough_n = 3000
    min_nontrivial = 60
    procs = 4
    timeout = 240

    def bins(self):
        return {"threads": B.build("threads", san="tsan", what="cudd", extra_sources=[B.ROOT + "/harness/%s.cpp" % n for n in PARTS])}

    def one(self, ctx, args, alone):
        d = tempfile.mkdtemp(prefix="vt-", dir=os.environ.get("VERIF_SCRATCH_BASE"))
        try:
            env = {"DDDMPIO_DIR": d, "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0"}
            if alone:
                env["ALONE"] = "1"
            return ctx.run([str(a) for a in args], bin="threads", env=env, timeout=self.timeout, crash_ok=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        n = r.choice([2, 3, 4, 6, 8])
        args = [r.randrange(1, 10**9), r.choice([60, 200, 500]) * (1 if ctx.tier == "quick" else 2), n, r.choice([2, 4])]
        run = self.one(ctx, args, False)
        how = "threads %s" % " ".join(map(str, args))
        races = sorted(set(m.group(1) for m in re.finditer(r"^SUMMARY: ThreadSanitizer: data race \S*?([\w.]+)(?::\d+)* in", run.err, re.M)))
        for f in races:
            ctx.viol("race@" + f, "%s\n%s" % (how, run.err[-3000:]), stderr=run.err[-8000:])
        if races:
            return
        v = re.search(r"^VIOL ([^|\n]*)\|([^\n]*)", run.out, re.M)
        if v or run.rc != 0:
            again = self.one(ctx, args, True)
            if again.rc != 0:
                raise Inconclusive("the histories fail when run one after another, too")
            key = v.group(1) if v else "hang" if run.rc == -99 else "end:%d" % run.rc
            raise Violation("threads:" + key, "%s\n%s\n%s" % (how, v.group(2) if v else "", run.err[-2500:]), {"stderr": run.err[-6000:]})
        c = {m.group(1): int(m.group(2)) for m in re.finditer(r"^COUNT (.*) (\d+)$", run.out, re.M)}
        for k, x in c.items():
            if k.startswith("most histories"):
                ctx.stats["runs with %d histories at the same time" % x] += 1
            else:
                ctx.stats[k] += x
        if c.get("most histories at the same time", 0) >= 2:
            ctx.nontrivial(args)
        ctx.sample = {"threads": n, "seed": args[0], "steps": args[1], "rounds": args[3], "most at the same time": c.get("most histories at the same time"), "races": 0}


check = C35()
