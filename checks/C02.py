"""C02: robotics initialisation semantics."""
from vlib.harness import Check
from vlib.spec import *
from vlib import gen, strat
from vlib import opts as opts_

COMBOS = [sorted(set(c) - {"--sysInitRoboticsSemantics"}) for c in opts_.STANDARD if "--sysInitRoboticsSemantics" in c and "--cooperativeGR1Strategy" not in c]
COMBOS += [[]] * 5


class C02(Check):
    id = "C02"
    rule = ("random specifications, initial conditions often rewritten so that exactly the winning region, or it plus one losing position, is initial; run with --sysInitRoboticsSemantics alone and with every other "
            "combinable option; verdict compared with the explicit reference game; explicit strategies must have a state for every initial position. Non-trivial: mixed winning region.")
    quick_n = 1600
    thorough_n = 25000
    min_nontrivial = 200
    assumptions = ["the explicit solver in /verif/vlib"]

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        s, g = gen.hard_spec(r, tries=r.choice([1, 4, 8]))
        w = g.win()
        if r.random() < 0.6 and g.mixed():
            s = gen.robotics_probe(r, s, g)
            g.__init__(s)
        exp = g.realizable_robotics()
        w = g.win()
        opts = COMBOS[r.randrange(len(COMBOS))]
        args = ["--sysInitRoboticsSemantics"] + opts
        r.shuffle(args)
        files = ["s.slugsin"] + (["out"] if any("ymbolicStrategy" in o for o in opts) else [])
        txt = s.slugsin()
        run = ctx.run(args + files, {"s.slugsin": txt})
        ctx.stats[" ".join(sorted(opts)) or "verdict only"] += 1
        ctx.stats["realizable" if exp else "unrealizable"] += 1
        if g.mixed():
            ctx.nontrivial(txt)
        if exp != g.realizable():
            ctx.stats["standard and robotics verdicts differ"] += 1
        ctx.sample = {"spec": txt[:500], "options": args, "expected": exp, "reported": run.verdict}
        if run.rc != 0 or run.verdict is None:
            return ctx.viol("no-verdict", "rc=%d %s" % (run.rc, run.err[-300:]))
        if run.verdict != exp:
            return ctx.viol("verdict:reported-%s" % ("realizable" if run.verdict else "unrealizable"), "options %s: tool says %s, reference %s\n%s" % (args, run.verdict, exp, txt))
        if "--explicitStrategy" in opts and exp:
            st, _ = (strat.parse_json if "--jsonOutput" in opts else strat.parse_text)(run.out)
            pos = strat.positions(g, st)
            have = {(pos[n], st[n][0]) for n in st}
            for p in range(g.N):
                if g.sys_init[p] and g.env_init[p] and (p, 0) not in have:
                    return ctx.viol("initial-missing", "no strategy state for initial position %r\n%s\n%s" % (g.posname(p), txt, run.out[:1500]))


check = C02()
