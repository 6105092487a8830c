"""C07: simple recovery."""
from vlib.harness import Check
from .strategy_common import *


class C07(Check):
    id = "C07"
    rule = ("random specifications with safety assumptions, --explicitStrategy --simpleRecovery with every combinable option; the monitor checks the ordinary guarantees on allowed inputs and, for every state and every input that violates the safety "
            "assumptions, that an answer exists exactly if some safe reaction to a winning position exists, and that every printed answer is one. Non-trivial: at least one recovery transition was printed.")
    quick_n = 1300
    thorough_n = 20000
    min_nontrivial = 150
    assumptions = ["the explicit game model in /verif/vlib"]

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        res = run_case(self, ctx, r, SAFETY_KEYS | LIVE_KEYS, recovery=True)
        ctx.keys.clear()
        if res is None:
            return
        s, g, st, pos, args, txt, out = res
        W = g.win()
        nrec = 0
        for n, (rank, d, succ) in st.items():
            p = pos[n]
            have = {pos[t] // g.O for t in succ}
            for x in range(g.I):
                if g.env_safe[p, x].any():
                    continue
                can = any(g.sys_safe[p, x, y] and W[x * g.O + y] for y in range(g.O))
                ctx.stats["violating inputs examined"] += 1
                if can != (x in have):
                    return ctx.viol("recovery-missing" if can else "recovery-bogus", "state %d %r, forbidden input %d: reaction %s\noptions %s\n%s\n%s" % (n, d, x, "possible but absent" if can else "present but none is sound", args, txt, out[:2000]))
                nrec += can
        ctx.stats["recovery transitions"] += nrec
        if nrec:
            ctx.nontrivial(txt + out)


check = C07()
