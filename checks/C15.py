"""C15: forced garbage collection, cache loss, table resizing and variable reordering, judged by the monitors of the other properties."""
import importlib, os, random
from vlib import build as B, harness
from vlib.harness import Check, Violation, Run

WRAP = "Cudd_Init Cudd_Quit Cudd_bddAnd Cudd_bddOr Cudd_bddXor Cudd_bddExistAbstract Cudd_bddUnivAbstract Cudd_bddLICompaction Cudd_bddRestrict Cudd_bddAndAbstract Cudd_bddLeq Cudd_bddSwapVariables Cudd_bddComputeCube".split()
BASES = {"C01": 4, "C02": 2, "C03": 2, "C04": 3, "C05": 2, "C06": 4, "C07": 1, "C08": 4, "C09": 2, "C10": 2, "C11": 2, "C12": 3, "C16": 2, "C17": 1, "C18": 2, "C19": 3, "C20": 2, "C21": 2, "C22": 2, "C23": 3, "C24": 3, "C25": 3, "C26": 3, "C27": 2, "C28": 5}


def stressed(name="slugsstress"):
    return B.build(name, extra_sources=[B.ROOT + "/harness/stress.c"], link=["-Wl,--wrap=" + w for w in WRAP])


class StressCtx(harness.Ctx):
    """runs slugs with forced events; everything else as in the other checks"""
    def arm(self, r):
        self.r, self.events, self.forced = r, 0, set()

    def run(self, args, files=None, bin="slugs", exe=None, env=None, outputs=(), crash_ok=False, **kw):
        if bin != "slugs" or exe is not None:
            return super().run(args, files, bin=bin, exe=exe, env=env, outputs=outputs, crash_ok=crash_ok, **kw)
        conf = "%d %d %d" % (self.r.randrange(1, 10**9), self.r.choice([5, 20, 60, 150, 300]), self.r.choice([3, 10, 30]))
        if kw.get("timeout", 25) < 100:
            kw["timeout"] = 100
        q = super().run(args, files, bin=bin, env=dict(env or {}, SLUGS_STRESS=conf), outputs=tuple(outputs) + ("stress.log",), crash_ok=crash_ok, **kw)
        log = q.files.pop("stress.log", None)
        if isinstance(log, bytes):
            log = log.decode()
        opt = "+".join(a for a in args if a.startswith("--"))
        if q.rc == 79 or "MANAGER-INCONSISTENT" in q.err:
            raise Violation("inconsistent:" + opt, "SLUGS_STRESS='%s' %s\n%s" % (conf, args, q.err[-1500:]))
        if "referenced nodes in the BDD manager left" in q.err:
            raise Violation("nodes-left:" + opt, "SLUGS_STRESS='%s' %s\n%s" % (conf, args, q.err[-500:]))
        if log:
            t = log.split()
            v = {k: int(n) for k, n in zip(t[::2], t[1::2])}
            for k, n in v.items():
                self.stats[k] += n
            self.events += v["moved"] + v["freed"] + v["flushes"]
            if v["moved"] and v["freed"]:
                self.forced.add(harness.hashstr(repr((args, files, conf))))
            if v["moved"]:
                self.sample = {"args": args, "stress": conf, "observed": v}
        return q


class C15(Check):
    id = "C15"
    technique = "fault-like schedule injection at link time (random garbage collections, cache flushes, reorderings, small tables) in sanitized runs; manager consistency checks at the events; results judged by the oracles of the other properties"
    rule = ("cases of the checks " + ", ".join(sorted(BASES)) + " with the diagram manager made to collect, flush, resize and reorder (random, sifting, symmetric, group, window methods) at random calls. "
            "Non-trivial: a run in which variables really moved and nodes were really freed; distinct by inputs, options and event seed.")
    quick_n = 1500
    thorough_n = 40000
    min_nontrivial = 300

    def bins(self):
        self.mods = {k: importlib.import_module("checks." + k).check for k in BASES}
        b = {}
        for m in self.mods.values():
            b.update(m.bins())
        b["slugs"] = stressed()
        return b

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        base = r.choices(sorted(BASES), [BASES[k] for k in sorted(BASES)])[0]
        m = self.mods[base]
        known = [k["key"] for k in harness.load_known() if base == k["property"] or base in k.get("also", [])]
        c = StressCtx(ctx.prop, "%s-%s" % (ctx.seed, idx), ctx.tier, ctx.bins)
        c.arm(r)
        sub = r.randrange(10**9)
        try:
            m.case(c, sub)
        except Violation as v:
            c.viol(v.key, v.msg, **v.files)
        finally:
            ctx.evals += c.evals
            ctx.stats += c.stats
            ctx.keys |= c.forced
            ctx.sample = {"monitor": base, "run": c.sample}
        ctx.stats["cases with the monitor of " + base] += 1
        for v in c.viols:
            if v["key"] in known:
                ctx.stats["known findings of the monitors"] += 1
                continue
            ctx.viol(base + ":" + v["key"], v["msg"], **v["files"])


check = C15()
