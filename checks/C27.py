"""C27: fast/slow semantics (verdicts and strategies)."""
import numpy as np
from vlib.harness import Check
from vlib.spec import *
from vlib import gen, opts, strat
from vlib.game import Game
from . import symbolic_common as sc

COMBOS = [c for c in opts.COMBOS if "--IROSfastslow" in c and "--interactiveStrategy" not in c]


class FSGame(Game):
    """steps whose intermediate position (new inputs, new fast outputs, old slow outputs) is not traversable are forbidden"""
    def restrict(self, slow):
        S = self.sys_safe
        has_succ = S.any(axis=(1, 2))
        has_pred = S.any(axis=0).reshape(self.N)
        ok = has_succ & has_pred
        m = sum(1 << k for k, n in enumerate(self.spec.outputs) if n in slow)
        p, x, y = np.ogrid[:self.N, :self.I, :self.O]
        mid = x * self.O + ((y & ~m) | ((p % self.O) & m))
        self.base_safe = S
        self.sys_safe = S & ok[mid]
        self._win = None
        return self


class C27(Check):
    id = "C27"
    technique = "monitoring of verdicts, explicit, permissive and symbolic strategies against an explicit-state solver of the game with traversable intermediate positions; ASan/UBSan"
    rule = "random specifications whose outputs are split into fast and slow ones, under every option combination with --IROSfastslow. Non-trivial: forbidding untraversable intermediate positions changes the winning region and the region is neither empty nor everything; distinct by specification."
    quick_n = 1500
    thorough_n = 25000
    min_nontrivial = 100

    def bins(self):
        return sc.bins()

    def spec(self, r, want):
        best = None
        for _ in range(8):
            s = gen.spec_for(r, max_total=5)
            slow = [o for o in s.outputs if r.random() < 0.5]
            if s.outputs and r.random() < 0.5:
                # positions that are never to be visited
                A = [x for x in s.inputs + s.outputs if r.random() < 0.6] or s.outputs
                c = clause(r, A, min(len(A), r.choice([1, 2, 2, 3])))
                s = s.copy()
                s.sys_trans = s.sys_trans + [r.choice([c, post_of(c)])]
            full = Game(s)
            g = FSGame(s).restrict(slow)
            diff = bool((full.win() != g.win()).any())
            ok = want is None or want(g)
            score = 3 * ok + 2 * diff + g.mixed()
            if best is None or score > best[0]:
                best = (score, s, slow, g, full)
            if score == 6:
                break
        return best[1:]

    def render(self, r, s, slow):
        out = []
        fast = [o for o in s.outputs if o not in slow]
        secs = [("INPUT", s.inputs), ("OUTPUT_F", fast), ("OUTPUT_S", [o for o in s.outputs if o in slow])]
        r.shuffle(secs)
        rest = [(k, [text(f) for f in x]) for k, x in s.parts().items()]
        r.shuffle(rest)
        for k, b in secs + rest:
            if b or r.random() < 0.3:
                out += ["[%s]" % k] + b + [""]
        return "\n".join(out) + "\n"

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        c = list(r.choice(COMBOS)) if r.random() < 0.8 else ["--IROSfastslow"]
        rob = "--sysInitRoboticsSemantics" in c
        rec = "--simpleRecovery" in c
        verd = (lambda g: g.realizable_robotics()) if rob else (lambda g: g.realizable())
        s, slow, g, full = self.spec(r, verd if len(c) > 2 or r.random() < 0.5 else None)
        if r.random() < 0.5:
            q = gen.robotics_probe(r, s, g) if rob else gen.probe(r, s, g)[0]
            if q is not None:
                s = q
                g, full = FSGame(s).restrict(slow), Game(s)
        exp = verd(g)
        if len(c) > 2 and not exp and r.random() < 0.8:
            c = ["--IROSfastslow"] + (["--sysInitRoboticsSemantics"] if rob else [])
        r.shuffle(c)
        sym = [x for x in c if "ymbolicStrategy" in x]
        txt = self.render(r, s, slow)
        tofile = bool(sym) or (("--explicitStrategy" in c or "--extractExplicitPermissiveStrategy" in c) and r.random() < 0.3)
        q = ctx.run(c + ["s.slugsin"] + (["o"] if tofile else []), {"s.slugsin": txt}, outputs=["o"])
        ctx.stats["+".join(sorted(x[2:] for x in c))] += 1
        if q.rc != 0 or q.verdict != exp:
            return ctx.viol("verdict", "options %s rc %d verdict %s reference %s %s\n%s" % (c, q.rc, q.verdict, exp, q.err[-200:], txt))
        ctx.stats["realizable" if exp else "unrealizable"] += 1
        diff = bool((full.win() != g.win()).any())
        ctx.stats["winning region differs from the ordinary game"] += diff
        if diff and g.mixed():
            ctx.nontrivial(txt)
        ctx.sample = {"options": c, "spec": txt[:400], "slow": slow, "verdict": exp}
        out = q.files.get("o", "") if tofile else q.out
        if not exp:
            if out.strip():
                ctx.viol("strategy-for-unrealizable", "%s\n%s" % (txt, out[:500]))
            return
        W, bad = g.win(), []
        try:
            if "--explicitStrategy" in c:
                noinit = not (W & g.sys_init & (g.env_init | rec)).any()
                js = "--jsonOutput" in c
                if not out.strip():
                    if not noinit or js:
                        ctx.viol("no-strategy", txt)
                    return
                st, _ = (strat.parse_json if js else strat.parse_text)(out)
                bad = strat.check_explicit(g, st, robotics=rob, recovery=rec, win=W)
                ctx.stats["explicit transitions checked"] += sum(len(x[2] or []) for x in st.values())
            elif "--extractExplicitPermissiveStrategy" in c:
                st, _ = strat.parse_permissive(out)
                bad = strat.check_explicit(g, st, win=W, deterministic=False, initial=False)
                ctx.stats["permissive transitions checked"] += sum(len(x[2] or []) for x in st.values())
            elif sym:
                simple = sym[0] == "--simpleSymbolicStrategy"
                b, rel = sc.decode(g, out, simple)
                (sc.judge_flat if simple else sc.judge_split)(ctx, g, W, rel, bad)
        except (strat.FormatError, sc.FormatError) as e:
            return ctx.viol("format", "%s\n%s\n%s" % (e, txt, out[:1500]))
        for k, m in bad[:1]:
            ctx.viol(k, "%s\noptions %s, slow outputs %s\n%s\n%s" % (m, c, slow, txt, out[:2500]))


def post_of(f):
    if isinstance(f, tuple) and f[0] == "v":
        return ("v", f[1] + "'")
    return tuple(post_of(x) if isinstance(x, tuple) else x for x in f)


check = C27()
