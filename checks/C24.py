"""C24: cooperative synthesis."""
import numpy as np
from vlib.harness import Check
from vlib import gen, opts, strat
from vlib.game import sccs, Game
from . import symbolic_common as sc

COMBOS = [c for c in opts.STANDARD if "--cooperativeGR1Strategy" in c and "--interactiveStrategy" not in c]


def win_coop(g):
    """positions from which the system can play so that every run meeting all assumptions meets all guarantees, and after
    every finite play some continuation meets all assumptions infinitely often"""
    live = g.env_safe.any(axis=(1, 2))
    S = g.sys_safe & g.nxt(live) & np.broadcast_to(g.env_safe, g.shape)
    Z = np.ones(g.N, bool)
    depth = 0
    while True:
        depth += 1
        new = Z.copy()
        for G in g.G:
            # within Z: reach G, or avoid one assumption forever; and while waiting, G stays possible
            Y = np.zeros(g.N, bool)
            while True:
                base = S & (g.nxt(Y) | (G & g.nxt(Z)))
                Y2 = Y.copy()
                for A in g.A:
                    X = np.ones(g.N, bool)
                    while True:
                        M = np.zeros(g.N, bool)
                        while True:
                            fp = base | (S & ~A & g.nxt(X & M))
                            M2 = M | fp.any(axis=(1, 2))
                            if (M2 == M).all():
                                break
                            M = M2
                        X2 = X & g.cpre(fp)
                        if (X2 == X).all():
                            break
                        X = X2
                    Y2 |= X
                if (Y2 == Y).all():
                    break
                Y = Y2
            new &= Y
        for A in g.A:
            M = np.zeros(g.N, bool)
            stay = S & new.reshape(g.N, 1, 1) & g.nxt(new)
            while True:
                M2 = M | (stay & (A | g.nxt(M))).any(axis=(1, 2))
                if (M2 == M).all():
                    break
                M = M2
            new &= M
        if (new == Z).all():
            return Z, S
        Z = new


def verdict(g, W, rob):
    if rob:
        return bool((~(g.env_init & g.sys_init) | W).all())
    ok = (W & g.sys_init).reshape(g.I, g.O).any(axis=1)
    ei = g.env_init.reshape(g.I, g.O).any(axis=1)
    return bool((~ei | ok).all())


class C24(Check):
    id = "C24"
    technique = "runtime monitoring: verdicts and strategies of instrumented runs judged by an explicit-state oracle for cooperative games (fair bad cycles, fair-continuation reachability), ASan/UBSan"
    rule = ("random and family specifications (also with initial conditions placed so that the verdict hinges on single positions), every option combination with --cooperativeGR1Strategy. Verdict vs. explicit cooperative solver; explicit strategies are judged like ordinary ones and additionally searched for states without a continuation meeting all assumptions; symbolic ones are expanded. "
            "Non-trivial: the cooperative winning region is neither empty nor everything, or differs from the ordinary one; distinct by specification and options.")
    quick_n = 2500
    thorough_n = 15000
    min_nontrivial = 250

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        c = list(r.choice(COMBOS))
        rob = "--sysInitRoboticsSemantics" in c
        if idx < len(gen.EDGE):
            s = gen.EDGE[idx].copy()
            g = Game(s)
        else:
            best = None
            for _ in range(r.choice([3, 8, 14])):
                s, g = gen.hard_spec(r, tries=1, max_total=r.choice([4, 5, 5]))
                W, S = win_coop(g)
                sc_ = 2 * (0 < W.sum() < g.N) + 2 * bool((W != g.win()).any()) + verdict(g, W, rob) * 1.5 + 0.3 * len(g.A)
                if best is None or sc_ > best[0]:
                    best = (sc_, s, g)
            _, s, g = best
        W, S = win_coop(g)
        if 0 < W.sum() < g.N and r.random() < 0.6:
            if rob:
                q = s.copy()
                keep = [p for p in range(g.N) if W[p] and r.random() < 0.8]
                if r.random() < 0.25:
                    keep.append(r.choice([p for p in range(g.N) if not W[p]]))
                allv = s.inputs + s.outputs
                ni = len(s.inputs)
                from vlib.spec import table_formula, T, F
                q.sys_init = [table_formula(allv, lambda b: T if sum(t << i for i, t in enumerate(b[:ni])) * g.O + sum(t << i for i, t in enumerate(b[ni:])) in keep else F)]
                s = q
            else:
                q, e = gen.probe(r, s, g, win=W)
                if q is not None:
                    s = q
            g = Game(s)
            W, S = win_coop(g)
        exp = verdict(g, W, rob)
        r.shuffle(c)
        txt = s.slugsin()
        sym = any("ymbolicStrategy" in o for o in c)
        q = ctx.run(c + ["s.slugsin"] + (["o"] if sym else []), {"s.slugsin": txt}, outputs=["o"])
        if q.rc != 0 or q.verdict != exp and not "--explicitStrategy" in c:
            return ctx.viol("verdict", "options %s rc %d verdict %s reference %s (ordinary game: %s)\n%s" % (c, q.rc, q.verdict, exp, g.realizable_robotics() if rob else g.realizable(), txt))
        if q.verdict is not None and q.verdict != exp:
            return ctx.viol("verdict", "options %s verdict %s reference %s\n%s" % (c, q.verdict, exp, txt))
        ctx.stats["realizable" if exp else "unrealizable"] += 1
        if bool((W != g.win()).any()):
            ctx.stats["regions differ from the ordinary game"] += 1
        if (g.realizable_robotics() if rob else g.realizable()) != exp:
            ctx.stats["verdict differs from the ordinary game"] += 1
        if 0 < W.sum() < g.N or (W != g.win()).any():
            ctx.nontrivial(txt + str(sorted(c)))
        if "--explicitStrategy" in c:
            self.explicit(ctx, g, W, S, c, q, exp, txt)
        elif sym:
            self.symbolic(ctx, g, W, S, c, q, exp, txt)
        ctx.sample = {"options": c, "spec": txt[:300], "verdict": exp}

    def explicit(self, ctx, g, W, S, c, q, exp, txt):
        js, rec = "--jsonOutput" in c, "--simpleRecovery" in c
        noinit = not (W & g.sys_init & (g.env_init | rec)).any()
        if not exp:
            if q.out.strip():
                ctx.viol("strategy-for-unrealizable", "options %s\n%s" % (c, txt))
            return
        if not q.out.strip():
            if not (noinit and not js):
                ctx.viol("no-strategy", "options %s, reference says realizable, verdict %s\n%s" % (c, q.verdict, txt))
            return
        try:
            st, _ = (strat.parse_json if js else strat.parse_text)(q.out)
            pos = strat.positions(g, st)
            bad = strat.check_explicit(g, st, recovery=rec, win=W, ranks=False, safe=S if not rec else g.sys_safe)
        except strat.FormatError as e:
            return ctx.viol("format", "%s\n%s\n%s" % (e, txt, q.out[:1500]))
        nG, n = len(g.G), len(g.G) + len(g.A)
        adj, edges = {}, []
        for k, (rank, d, succ) in st.items():
            if not 0 <= rank < n:
                bad.append(("rank-range", "state %d has rank %r" % (k, rank)))
                continue
            for t in succ or []:
                if t not in st or not 0 <= st[t][0] < n:
                    continue
                p, x, y = pos[k], pos[t] // g.O, pos[t] % g.O
                if not g.env_safe[p, x].any():
                    continue
                adj.setdefault(k, set()).add(t)
                edges.append((k, t, (p, x, y)))
                j = rank
                while j != st[t][0]:
                    if j < nG and not g.G[j][p, x, y]:
                        bad.append(("goal-skipped", "transition %d -> %d leaves guarantee %d without satisfying it" % (k, t, j)))
                        break
                    j = (j + 1) % n
        good = set()
        for comp in sccs(list(adj), lambda u: adj.get(u, ())):
            inner = [l for (u, w, l) in edges if u in comp and w in comp]
            if all(any(A[l] for l in inner) for A in g.A):
                good |= comp
        pred = {}
        for u, w, l in edges:
            pred.setdefault(w, set()).add(u)
        todo = list(good)
        while todo:
            w = todo.pop()
            for u in pred.get(w, ()):
                if u not in good:
                    good.add(u)
                    todo.append(u)
        lost = sorted(set(st) - good)
        if lost:
            bad.append(("trap", "from state %d %r no continuation meets all assumptions infinitely often" % (lost[0], st[lost[0]][1])))
        ctx.stats["strategy states judged"] += len(st)
        for k, m in bad[:1]:
            ctx.viol(k, "%s\noptions %s\n%s\n%s" % (m, c, txt, q.out[:3000]))

    def symbolic(self, ctx, g, W, S, c, q, exp, txt):
        f = q.files.get("o")
        if not exp:
            if f is not None:
                ctx.viol("strategy-for-unrealizable", "options %s\n%s" % (c, txt))
            return
        if f is None:
            return ctx.viol("no-file", "options %s\n%s" % (c, txt))
        simple = "--simpleSymbolicStrategy" in c
        bad = []
        nG, n = len(g.G), len(g.G) + len(g.A)
        try:
            b, rel = sc.decode(g, f, simple, ngoals=n)
        except sc.FormatError as e:
            return ctx.viol("format", "%s\n%s\n%s" % (e, txt, f[:3000]))
        for i, R in enumerate(rel):
            if simple:
                alln = np.zeros(g.shape, bool)
                for k, Z in R.items():
                    alln = alln | Z
                    if i < nG:
                        legal = (g.G[i] if k == (i + 1) % n else np.zeros(g.shape, bool)) | (~g.G[i] if k == i else np.zeros(g.shape, bool))
                        m = Z & W.reshape(g.N, 1, 1) & g.env_safe & ~legal
                        if m.any():
                            bad.append(("counter", "goal %d -> %d wrongly on %r" % (i, k, tuple(np.argwhere(m)[0]))))
                stay = alln & ~g.G[i] if i < nG else None
            else:
                stay, go = R
                alln = stay | go
                if i < nG:
                    m = go & W.reshape(g.N, 1, 1) & g.env_safe & ~g.G[i]
                    if m.any():
                        bad.append(("goal-mark", "goal %d: transition %r is marked as reaching the goal" % (i, tuple(np.argwhere(m)[0]))))
            sc.judge_relation(g, W, i, alln, S, g.env_safe, bad)
            if i < nG:
                sc.nongoal_cycles(g, W, i, stay, g.G[i], bad)
            ctx.stats["symbolic transitions judged"] += int((alln & W.reshape(g.N, 1, 1) & g.env_safe).sum())
        for k, m in bad[:1]:
            ctx.viol(k, "%s\noptions %s\n%s\n%s" % (m, c, txt, f[:2500]))


check = C24()
