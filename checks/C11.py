"""C11: counter-strategies."""
from vlib.harness import Check
from vlib.spec import *
from vlib import gen, strat
from vlib.game import sccs


class C11(Check):
    id = "C11"
    rule = ("random specifications (unrealizable ones preferred), --counterStrategy with and without robotics semantics and output file; verdict compared with the reference game, and the printed automaton monitored: initial states, allowed inputs only, one input per state, "
            "an answer to every safe system move, dead ends are real, every cycle satisfies all assumptions infinitely often and misses some guarantee. Non-trivial: a strategy with at least three states; distinct by output.")
    quick_n = 1500
    thorough_n = 25000
    min_nontrivial = 200
    assumptions = ["the explicit game model in /verif/vlib"]

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        rob = r.random() < 0.4
        want = (lambda g: not (g.realizable_robotics() if rob else g.realizable())) if r.random() < 0.85 else None
        s, g = gen.hard_spec(r, tries=r.choice([4, 10]), want=want)
        if g.mixed() and r.random() < 0.4:
            q, e = gen.probe(r, s, g) if not rob else (gen.robotics_probe(r, s, g), None)
            if q is not None:
                s = q
                g.__init__(s)
        real = g.realizable_robotics() if rob else g.realizable()
        txt = s.slugsin()
        tofile = r.random() < 0.25
        args = ["--counterStrategy"] + (["--sysInitRoboticsSemantics"] if rob else [])
        q = ctx.run(args + ["s.slugsin"] + (["o"] if tofile else []), {"s.slugsin": txt}, outputs=["o", "s.slugsin"])
        if tofile and q.files.get("s.slugsin") != txt:
            return ctx.viol("input-overwritten", "the input file was changed by %s s.slugsin o: now %r; %s" % (args, q.files.get("s.slugsin", "")[:100], q.err[-200:]))
        out = q.files.get("o", "") if tofile else q.out
        ctx.stats["realizable" if real else "unrealizable"] += 1
        if q.rc != 0 or q.verdict is None:
            return ctx.viol("no-verdict", "rc=%d %s\n%s" % (q.rc, q.err[-300:], txt))
        if q.verdict != real:
            return ctx.viol("verdict:reported-%s" % ("realizable" if q.verdict else "unrealizable"), "options %s reference %s\n%s" % (args, real, txt))
        if real:
            if out.strip():
                ctx.viol("strategy-for-realizable", out[:300])
            return
        try:
            st, _ = strat.parse_text(out)
        except strat.FormatError as e:
            return ctx.viol("format", "%s\n%s\n%s" % (e, txt, out[:1000]))
        self.judge(ctx, g, st, rob, txt, out, args)

    def judge(self, ctx, g, st, rob, txt, out, args):
        s = g.spec
        nI, nO = len(s.inputs), len(s.outputs)
        L = ~g.win()

        def fail(k, m):
            ctx.viol(k, "%s\noptions %s\n%s\n%s" % (m, args, txt, out[:3000]))
        pos, xin = {}, {}
        for n, (rank, d, succ) in st.items():
            if succ is None:
                if set(d) != set(s.inputs):
                    return fail("dead-end-valuation", "dead end %d assigns %r" % (n, d))
            else:
                if set(d) != set(s.inputs) | set(s.outputs):
                    return fail("valuation", "state %d assigns %r" % (n, d))
                pos[n] = strat.position(s, d, g.O)
                if not L[pos[n]]:
                    return fail("winning-state", "state %d %r is winning for the system" % (n, d))
            xin[n] = sum(d[v] << k for k, v in enumerate(s.inputs))
            if not (0 <= rank[0] < len(g.A) and 0 <= rank[1] < len(g.G)):
                return fail("rank-range", "state %d rank %r" % (n, rank))
        if sorted(st) != list(range(len(st))):
            return fail("numbering", "states %r" % sorted(st))
        init = {p for p in range(g.N) if L[p] and g.env_init[p] and g.sys_init[p]}
        first = [pos.get(n) for n in range(len(init))]
        if set(first) != init:
            return fail("initial", "the first %d states are not the initial positions won by the environment" % len(init))
        edges = {}
        ntr = 0
        for n in pos:
            succ = st[n][2]
            p = pos[n]
            if not succ:
                return fail("stuck", "state %d has no successor but is no dead end for the system" % n)
            if any(t not in st for t in succ):
                return fail("dangling", "state %d refers to a missing state" % n)
            xs = {xin[t] for t in succ}
            if len(xs) != 1:
                return fail("several-inputs", "state %d uses several inputs %r" % (n, xs))
            x = xs.pop()
            if not g.env_safe[p, x].any():
                return fail("disallowed-input", "state %d takes input %d, forbidden by the safety assumptions" % (n, x))
            ysafe = {y for y in range(g.O) if g.sys_safe[p, x, y]}
            dead = [t for t in succ if st[t][2] is None]
            if dead:
                if ysafe or len(succ) != 1:
                    return fail("false-dead-end", "state %d leads to a dead end, but the system has a safe move" % n)
                ctx.stats["dead ends"] += 1
                continue
            ys = [pos[t] % g.O for t in succ]
            if set(ys) != ysafe or len(ys) != len(set(ys)):
                return fail("answers", "state %d input %d answers outputs %r, the safe system moves are %r" % (n, x, sorted(ys), sorted(ysafe)))
            edges[n] = [(t, (p, x, pos[t] % g.O)) for t in succ]
            ntr += len(succ)
        # every cycle: (a) no cycle avoids an assumption, (b) no cyclic part satisfies all guarantees
        for i, A in enumerate(g.A):
            sub = {n: [t for t, l in e if not A[l]] for n, e in edges.items()}
            c = sccs(list(sub), lambda u: sub.get(u, ()))
            if c:
                return fail("assumption-missed", "states %r form a cycle on which assumption %d never holds" % (sorted(c[0])[:12], i))
        adj = {n: [t for t, l in e] for n, e in edges.items()}
        for comp in sccs(list(adj), lambda u: adj.get(u, ())):
            inner = [l for n in comp for t, l in edges.get(n, ()) if t in comp]
            if all(any(G[l] for l in inner) for G in g.G):
                return fail("guarantees-met", "the system can satisfy every guarantee infinitely often within states %r" % sorted(comp)[:12])
        ctx.stats["states checked"] += len(st)
        ctx.stats["transitions checked"] += ntr
        ctx.stats["strategies with %s guarantees and %s assumptions" % (min(3, len(g.G)), min(3, len(g.A)))] += 1
        if len(st) > 2:
            ctx.nontrivial(out)
        ctx.sample = {"spec": txt[:300], "strategy": out[:300]}


check = C11()
