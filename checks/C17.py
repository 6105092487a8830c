"""C17: weakened safety assumptions."""
import numpy as np
from vlib.harness import Check
from vlib.spec import *
from vlib import gen
from vlib.game import Game


def with_env(g, E):
    """same game, safety assumptions replaced by the relation E ([N][I][O], independent of the next outputs)"""
    import copy
    h = copy.copy(g)
    h._win = None
    h.env_safe = E
    return h


class C17(Check):
    id = "C17"
    technique = "monitoring of the report: printed clauses re-judged by solving the changed games explicitly, ASan/UBSan"
    rule = ("random specifications biased towards ones that need their safety assumptions; the printed clause list is parsed and judged by the explicit solver: implied by the original assumptions, sufficient, every literal necessary for the list's meaning, and every clause necessary for realizability up to dropped redundant literals. Non-trivial: at least one clause printed; distinct by specification.")
    quick_n = 900
    thorough_n = 12000
    min_nontrivial = 200

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)

        def want(g):
            if not g.realizable():
                return False
            return not with_env(g, np.ones(g.shape, bool)).realizable()
        if idx < len(gen.EDGE):
            s = gen.EDGE[idx]
            g = Game(s)
        else:
            for _ in range(6):
                s, g = gen.hard_spec(r, tries=10, want=want if r.random() < 0.85 else None)
                vs = s.inputs + s.outputs + [i + "'" for i in s.inputs]
                if want(g) or r.random() < 0.2:
                    break
                if s.inputs:
                    for _ in range(r.randint(1, 3)):
                        s.env_trans.append(clause(r, vs, 3))
                    g = Game(s)
                    if want(g):
                        break
        exp = g.realizable()
        txt = s.slugsin()
        q = ctx.run(["--computeWeakenedSafetyAssumptions", "s.slugsin"], {"s.slugsin": txt}, timeout=40)
        if q.rc != 0:
            return ctx.viol("rc", "rc %d %s\n%s" % (q.rc, q.err[-400:], txt))
        lines = q.out.split("\n")
        a = [k for k, l in enumerate(lines) if l.startswith("# Simplified safety assumption CNF clauses")]
        b = [k for k, l in enumerate(lines) if l.startswith("# End of list")]
        if not exp:
            ctx.stats["unrealizable"] += 1
            return
        if len(a) != 1 or len(b) != 1 or b[0] < a[0]:
            return ctx.viol("no-list", "%s\n%s" % (txt, q.out))
        cls = []
        for l in lines[a[0] + 1:b[0]]:
            c = np.zeros(g.shape, bool)
            for t in l.split():
                neg = t.startswith("!")
                n = t[neg:]
                if n not in g.env or n in [o + "'" for o in s.outputs]:
                    return ctx.viol("literal", "%r in %r\n%s" % (t, l, txt))
                c = c | (~g.env[n] if neg else g.env[n])
            cls.append((l, c))
        orig = g.env_safe
        for l, c in cls:
            if (orig & ~c).any():
                return ctx.viol("not-implied", "clause %r does not follow from the safety assumptions\n%s\n%s" % (l, txt, q.out))
        E = np.ones(g.shape, bool)
        for l, c in cls:
            E = E & c
        if not with_env(g, E).realizable():
            return ctx.viol("insufficient", "the list does not make the specification realizable\n%s\n%s" % (txt, q.out))
        K = E
        lits = {n: g.env[n] for n in g.env if n != "#1" and n not in [o + "'" for o in s.outputs]}
        sets = [{t for t in l.split()} for l, c in cls]
        if len(set(map(frozenset, sets))) != len(sets):
            return ctx.viol("duplicate-clause", "%s\n%s" % (txt, q.out))

        def conj(skip):
            E = np.ones(g.shape, bool)
            for j, (l, c) in enumerate(cls):
                if j not in skip:
                    E = E & c
            return E
        for k, (l, c) in enumerate(cls):
            # every literal is needed: without it the list would mean something else
            for t in sets[k]:
                c2 = np.zeros(g.shape, bool)
                for u in sets[k] - {t}:
                    c2 = c2 | (~lits[u[1:]] if u.startswith("!") else lits[u])
                if (conj({k}) & c2 == K).all():
                    return ctx.viol("redundant-literal", "literal %r of clause %r can be dropped without changing the list\n%s\n%s" % (t, l, txt, q.out))
                ctx.stats["literals shown necessary"] += 1
            # dropping the clause must lose realizability, even if the other clauses are first given back every literal that may have been dropped as redundant
            # (the clauses the list stems from agree with it in conjunction, so each of them lies within K or the complement of the rest)
            D = K | ~c
            for i in range(len(cls)):
                if i != k:
                    D = D & (K | ~conj({i}))
            if with_env(g, D).realizable():
                return ctx.viol("not-minimal", "clause %r can be dropped\n%s\n%s" % (l, txt, q.out))
            ctx.stats["clauses shown necessary"] += 1
        ctx.stats["lists of %d clauses" % len(cls)] += 1
        if cls:
            ctx.nontrivial(txt)
        ctx.sample = {"spec": txt[:400], "list": "\n".join(l for l, c in cls)}


check = C17()
