"""C16: CNF export."""
import numpy as np
from vlib.harness import Check
from vlib.spec import *
from vlib import gen
from vlib.game import Game, sccs


def gf_equal(g, f, p):
    """Do 'infinitely often f' and 'infinitely often p' agree on all infinite position sequences? (f, p: [N][I][O])"""
    for a, b in ((f, p), (p, f)):
        E = np.argwhere(~a)
        adj = {}
        for q, x, y in E:
            adj.setdefault(int(q), set()).add(int(x) * g.O + int(y))
        for comp in sccs(list(adj), lambda u: adj.get(u, ())):
            for u in comp:
                for w in adj.get(u, ()):
                    if w in comp and b[u, w // g.O, w % g.O]:
                        return False
    return True


class C16(Check):
    id = "C16"
    technique = "monitoring of exported files: exported clauses/cubes re-evaluated on all valuations against the input specification, ASan/UBSan"
    rule = ("random specifications (incl. constant, empty and redundant parts); the export is parsed, each part expanded over all valuations and compared with the independently evaluated input part; liveness lines are compared as 'infinitely often' conditions over all infinite sequences. Non-trivial: at least 4 clauses; distinct by export.")
    quick_n = 1500
    thorough_n = 25000
    min_nontrivial = 300

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        s = gen.spec_for(r, max_total=5) if r.random() < 0.85 else rand_spec(r, max_total=3)
        if idx < len(gen.EDGE):
            s = gen.EDGE[idx]
        elif r.random() < 0.1:
            s.env_trans.append(r.choice([T, F]))
        g = Game(s)
        txt = s.slugsin()
        q = ctx.run(["--computeCNFFormOfTheSpecification", "s.slugsin"], {"s.slugsin": txt})
        if q.rc != 0:
            return ctx.viol("rejected", "rc %d %s\n%s" % (q.rc, q.err[-400:], txt))
        num, kinds = {}, {}
        cl = {"SafetyGuarantee": [], "SafetyAssumption": [], "Init": []}
        live = {"LivenessGuarantee": [], "LivenessAssumption": []}
        for l in q.out.split("\n"):
            if not l.strip():
                continue
            k, _, rest = l.partition(":")
            w = rest.split()
            if k in ("Input", "Output"):
                if len(w) != 3 or w[0] in kinds or int(w[1]) in num or int(w[2]) in num:
                    return ctx.viol("numbering", "%r\n%s" % (l, txt))
                kinds[w[0]] = k
                num[int(w[1])] = w[0]
                num[int(w[2])] = w[0] + "'"
            elif k in cl or k in live:
                try:
                    ns = [int(x) for x in w]
                except ValueError:
                    return ctx.viol("format", "%r" % l)
                groups, cur = [], []
                for n in ns:
                    if n == 0:
                        groups.append(cur)
                        cur = []
                    else:
                        cur.append(n)
                if cur or (k in cl and len(groups) != 1):
                    return ctx.viol("format", "%r" % l)
                (cl if k in cl else live)[k].append(groups)
            else:
                return ctx.viol("format", "unknown line %r" % l)
        if sorted(kinds.items()) != sorted([(n, "Input") for n in s.inputs] + [(n, "Output") for n in s.outputs]) or sorted(num) != list(range(1, 2 * len(kinds) + 1)):
            return ctx.viol("numbering", "variables %r numbers %r\n%s" % (kinds, num, txt))

        def litv(n):
            if abs(n) not in num:
                raise KeyError
            a = g.env[num[abs(n)]]
            return a if n > 0 else ~a
        try:
            for k, ref in (("SafetyGuarantee", s.sys_trans), ("SafetyAssumption", s.env_trans), ("Init", s.env_init + s.sys_init)):
                got = np.ones(g.shape, bool)
                for c in cl[k]:
                    o = np.zeros(g.shape, bool)
                    for n in c[0]:
                        o = o | litv(n)
                    got = got & o
                exp = g.conj(ref)
                if (got != exp).any():
                    p, x, y = np.argwhere(got != exp)[0]
                    return ctx.viol("models:" + k, "at %r -> %r the clauses say %s, the input says %s\n%s\n%s" % (g.posname(p), g.posname(x * g.O + y), got[p, x, y], exp[p, x, y], txt, q.out))
                ctx.stats["clauses"] += len(cl[k])
            for k, ref in (("LivenessGuarantee", s.sys_live), ("LivenessAssumption", s.env_live)):
                fs = [g.full(f) for f in ref] or [g.full(T)]
                L = live[k]
                if len(L) != len(fs) and not (not ref and not L):
                    return ctx.viol("liveness-count", "%s: %d lines for %d conditions\n%s\n%s" % (k, len(L), len(fs), txt, q.out))
                for f, c in zip(fs, L):
                    got = np.zeros(g.shape, bool)
                    for cub in c:
                        o = np.ones(g.shape, bool)
                        for n in cub:
                            o = o & litv(n)
                        got = got | o
                    if not gf_equal(g, f, got):
                        return ctx.viol("liveness:" + k, "line %r does not mean 'infinitely often' its condition\n%s\n%s" % (c, txt, q.out))
                    ctx.stats["liveness lines"] += 1
        except KeyError:
            return ctx.viol("numbering", "literal without declared variable\n%s\n%s" % (txt, q.out))
        if sum(len(x) for x in cl.values()) >= 4:
            ctx.nontrivial(q.out)
        ctx.sample = {"spec": txt[:300], "export": q.out[:400]}


check = C16()
