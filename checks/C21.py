"""C21: interleaving analysis (which outputs can be fixed before the inputs of the same step)."""
import re
import numpy as np
from vlib.harness import Check
from vlib.spec import *
from vlib import gen
from vlib.game import Game
from checks.C19 import variant


class EarlyGame(Game):
    """outputs with indices in self.early are chosen before the next input"""
    early = ()

    def cpre(self, Tr):
        ok = ~self.env_safe | Tr
        ok = np.broadcast_to(ok, self.shape)
        n = len(self.spec.outputs)
        # y' axis: axis for bit n-1 first
        a = ok.reshape((self.N, self.I) + (2,) * n)
        ax = {k: 2 + (n - 1 - k) for k in range(n)}
        late = tuple(ax[k] for k in range(n) if k not in self.early)
        a = a.any(axis=late, keepdims=True) if late else a
        a = a.all(axis=1, keepdims=True)
        return a.reshape(self.N, -1).any(axis=1)


class C21(Check):
    id = "C21"
    technique = "monitoring of the printed report: the reported set of outputs must win, and no larger set may win, the game with those outputs chosen first (explicit-state solver); ASan/UBSan"
    rule = "random specifications with 1-4 outputs. Non-trivial: a realizable specification for which some, but not all outputs can be fixed early; distinct by specification."
    quick_n = 2000
    thorough_n = 30000
    min_nontrivial = 150

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        if idx < len(gen.EDGE):
            s = gen.EDGE[idx].copy()
        else:
            best = None
            for _ in range(6):
                s, g = gen.hard_spec(r, tries=3, plain_names=True)
                if r.random() < 0.4 and s.inputs and s.outputs:
                    o = r.choice(s.outputs)
                    s.sys_trans.append(Not(("^", v(o + "'"), v(r.choice(s.inputs) + r.choice(["'", "'", ""])))))
                g = Game(s)
                if not g.realizable():
                    if r.random() < 0.02:
                        best = (0, s)
                        break
                    continue
                e = [self.early(s, [k]).realizable() for k in range(len(s.outputs))]
                sc = 2 * (any(e) and not all(e)) + (len(set(e)) > 1)
                both = self.early(s, range(len(s.outputs)))
                if all(e) and e and not both.realizable():
                    sc += 5
                if best is None or sc > best[0]:
                    best = (sc, s)
            if best:
                s = best[1]
        txt = s.slugsin()
        q = ctx.run(["--analyzeInterleaving", "s.slugsin"], {"s.slugsin": txt}, timeout=60)
        if q.rc != 0:
            return ctx.viol("rc", "rc %d %s\n%s" % (q.rc, q.err[-400:], txt))
        g = Game(s)
        if not g.realizable():
            ctx.stats["unrealizable"] += 1
            if "Starting point is an unrealizable specification" not in q.out or "- " in q.out.replace("--> ", ""):
                ctx.viol("verdict", "unrealizable specification\n%s\n%s" % (txt, q.out))
            return
        if "Starting point is a realizable specification" not in q.out:
            return ctx.viol("verdict", "realizable specification not recognised\n%s\n%s" % (txt, q.out))
        names = re.findall(r"^- (.*)$", q.out, re.M)
        none = "The specification becomes unrealizable when some output variable" in q.out
        if len(set(names)) != len(names) or not set(names) <= set(s.outputs) or none == bool(names):
            return ctx.viol("format", "listed %r\n%s\n%s" % (names, txt, q.out))
        B = [s.outputs.index(n) for n in names]
        ctx.stats["outputs listed"] += len(B)
        ctx.stats["outputs"] += len(s.outputs)
        if B and not self.early(s, B).realizable():
            ctx.viol("not-realizable", "unrealizable when %r are fixed first\n%s\n%s" % (names, txt, q.out))
        for k in range(len(s.outputs)):
            if k not in B and self.early(s, B + [k]).realizable():
                ctx.viol("not-maximal", "%r could be fixed early in addition to %r\n%s\n%s" % (s.outputs[k], names, txt, q.out))
        if 0 < len(B) < len(s.outputs):
            ctx.nontrivial(txt)
            if any(self.early(s, [k]).realizable() for k in range(len(s.outputs)) if k not in B):
                ctx.stats["outputs early alone but not together"] += 1
        ctx.sample = {"spec": txt[:300], "report": q.out}

    def early(self, s, ks):
        h = EarlyGame(s)
        h.early = set(ks)
        return h


check = C21()
