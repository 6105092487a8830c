"""C09: flattened symbolic strategy files."""
from vlib.harness import Check
from vlib import gen, opts
from . import symbolic_common as sc

COMBOS = [c for c in opts.STANDARD if "--simpleSymbolicStrategy" in c and "--cooperativeGR1Strategy" not in c]


class C09(Check):
    id = "C09"
    technique = "monitoring of exported strategy files: independent decision-diagram reader + explicit game oracle, loader cross-check, ASan/UBSan"
    rule = ("random realizable specifications under every option combination with --simpleSymbolicStrategy; the written relation over (position, goal, next position, next goal) is expanded explicitly and checked against the explicit game: goal counter updates, safety, winning preservation, completeness, no fair cycle that keeps the goal number. "
            "Non-trivial: the counter both stays and advances somewhere and the winning region is not everything; distinct by file.")
    quick_n = 1500
    thorough_n = 12000
    min_nontrivial = 120

    def bins(self):
        return sc.bins()

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        c = list(r.choice(COMBOS))
        rob = "--sysInitRoboticsSemantics" in c
        s, g = gen.hard_spec(r, tries=6, want=(lambda g: g.realizable_robotics() if rob else g.realizable()) if r.random() < 0.95 else None)
        exp = g.realizable_robotics() if rob else g.realizable()
        r.shuffle(c)
        txt = s.slugsin()
        q = ctx.run(c + ["s.slugsin", "o"], {"s.slugsin": txt}, outputs=["o"])
        if q.rc != 0 or q.verdict != exp:
            return ctx.viol("verdict", "options %s rc %d verdict %s reference %s\n%s" % (c, q.rc, q.verdict, exp, txt))
        if not exp:
            if "o" in q.files:
                ctx.viol("strategy-for-unrealizable", txt)
            return
        f = q.files.get("o")
        if f is None:
            return ctx.viol("no-file", "options %s\n%s" % (c, txt))
        bad = []
        try:
            b, rel = sc.decode(g, f, True)
        except sc.FormatError as e:
            return ctx.viol("format", "%s\n%s\n%s" % (e, txt, f[:3000]))
        W = g.win()
        both = sc.judge_flat(ctx, g, W, rel, bad)
        for k, m in bad[:2]:
            return ctx.viol(k, "%s\noptions %s\n%s\n%s" % (m, c, txt, f[:2500]))
        if r.random() < 0.3:
            sc.check_loader(ctx, r, f, b)
        ctx.stats["+".join(sorted(c))] += 1
        if both and g.mixed():
            ctx.nontrivial(f)
        ctx.sample = {"spec": txt[:300], "options": c, "file": f[-300:]}


check = C09()
