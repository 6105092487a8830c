"""C01: the verdict against an explicit-state solver of the same game."""
from vlib.harness import Check, Inconclusive
from vlib.spec import *
from vlib.game import Game
from vlib import gen


class C01(Check):
    id = "C01"
    rule = ("random specifications in 12 styles plus parametric families, up to 7 variables; the tool (ASan+UBSan build) is run and its verdict compared with an explicit-state "
            "numpy solver of the GR(1) game (for small cases additionally with a parity-game reduction solved by Zielonka's algorithm). In 60% of the cases the initial condition is rewritten so that "
            "the verdict hinges on single winning or losing positions. A case is non-trivial if the winning region is neither empty nor everything; distinctness is by specification text.")
    quick_n = 1500
    thorough_n = 25000
    min_nontrivial = 200
    assumptions = ["the explicit solver and the specification evaluator in /verif/vlib"]

    def extra_cases(self):
        return ["edge:%d" % k for k in range(len(gen.EDGE))]

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        if isinstance(idx, str):
            s = gen.EDGE[int(idx.split(":")[1])]
            g = Game(s)
        else:
            s, g = gen.hard_spec(r, tries=r.choice([1, 4, 8]))
        w = g.win()
        exp = g.realizable()
        if r.random() < 0.6 and not isinstance(idx, str):
            q, e = gen.probe(r, s, g)
            if q is not None:
                s, exp = q, e
                ctx.stats["initial condition probes single positions"] += 1
        txt = s.slugsin(omit_empty=r.random() < 0.5)
        run = ctx.run(["s.slugsin"], {"s.slugsin": txt})
        if run.rc != 0:
            return ctx.viol("rejected", "well-formed specification rejected: rc=%d %s" % (run.rc, run.err[-500:]))
        ctx.stats["realizable" if exp else "unrealizable"] += 1
        ctx.stats["goals=%d" % len(s.sys_live)] += 1
        ctx.stats["assumptions=%d" % len(s.env_live)] += 1
        for n, d in zip(("outer", "middle", "inner"), g.depth):
            ctx.stats["%s fixed point needed %s iterations" % (n, d if d < 5 else ">=5")] += 1
        if 0 < w.sum() < g.N:
            ctx.nontrivial(txt)
            ctx.stats["mixed winning region"] += 1
        ctx.sample = {"spec": txt[:600], "expected": exp, "reported": run.verdict, "winning": int(w.sum()), "positions": int(g.N)}
        if run.verdict is None:
            return ctx.viol("no-verdict", "no RESULT line: " + run.err[-300:])
        if g.N <= 16 and r.random() < 0.3:
            ctx.stats["cross-checked by the parity solver"] += 1
            if not (g.win_parity() == w).all():
                raise Inconclusive("reference solvers disagree")
        if run.verdict != exp:
            ctx.viol("verdict:reported-%s" % ("realizable" if run.verdict else "unrealizable"),
                     "tool says %s, the game is %s (%d of %d positions winning)\n%s" % (run.verdict, exp, w.sum(), g.N, txt))


check = C01()
