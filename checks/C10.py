"""C10: permissive explicit strategies."""
from vlib.harness import Check
from vlib.spec import *
from vlib import gen, strat
from vlib.game import fair_bad_cycle


class C10(Check):
    id = "C10"
    rule = ("random realizable specifications, --extractExplicitPermissiveStrategy with bias/recycling/robotics and an optional output file; the printed nondeterministic automaton is checked against the explicit game (positions, safety, winning, allowed inputs answered, "
            "all goal-reaching moves offered, goal numbers, no fair run missing a goal) and against the deterministic strategy printed for the same options, which must be contained in it. Non-trivial: at least one input is answered by several successors; distinct by output.")
    quick_n = 700
    thorough_n = 12000
    min_nontrivial = 150
    assumptions = ["the explicit game model in /verif/vlib"]

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        rob = r.random() < 0.35
        opts = r.choice([[], [], ["--biasForAction"], ["--fixedPointRecycling"]]) + (["--sysInitRoboticsSemantics"] if rob else [])
        s, g = gen.hard_spec(r, tries=6, want=(lambda g: g.realizable_robotics() if rob else g.realizable()) if r.random() < 0.9 else None)
        exp = g.realizable_robotics() if rob else g.realizable()
        txt = s.slugsin()
        tofile = r.random() < 0.3
        q = ctx.run(["--extractExplicitPermissiveStrategy"] + opts + ["s.slugsin"] + (["o"] if tofile else []), {"s.slugsin": txt}, outputs=["o"])
        out = q.files.get("o", "") if tofile else q.out
        if q.rc != 0 or q.verdict != exp or (tofile and q.out):
            return ctx.viol("verdict", "rc %d verdict %s reference %s\n%s" % (q.rc, q.verdict, exp, txt))
        ctx.stats["realizable" if exp else "unrealizable"] += 1
        if not exp:
            if out:
                ctx.viol("strategy-for-unrealizable", out[:300])
            return
        W = g.win()
        try:
            st, _ = strat.parse_permissive(out)
            pos = strat.positions(g, st)
            bad = strat.check_explicit(g, st, win=W, deterministic=False, initial=False)
        except strat.FormatError as e:
            return ctx.viol("format", "%s\n%s\n%s" % (e, txt, out[:1000]))
        have = {(pos[n], st[n][0]): n for n in st}
        for p in range(g.N):
            if W[p] and (p, 0) not in have:
                bad.append(("missing-position", "winning position %r is not listed" % g.posname(p)))
                break
        multi = 0
        for n, (rank, d, succ) in st.items():
            p = pos[n]
            dest = {pos[t] for t in succ}
            for x in range(g.I):
                if not g.env_safe[p, x].any():
                    continue
                ys = [y for y in range(g.O) if x * g.O + y in dest]
                multi += len(ys) > 1
                for y in range(g.O):
                    if g.G[rank][p, x, y] and g.sys_safe[p, x, y] and W[x * g.O + y] and y not in ys:
                        bad.append(("goal-move-missing", "state %d lacks the goal-reaching safe move to %r" % (n, g.posname(x * g.O + y))))
        for k, m in bad[:2]:
            return ctx.viol(k, "%s\noptions %s\n%s\n%s" % (m, opts, txt, out[:2500]))
        # the deterministic strategy of the same options is contained
        e = ctx.run(["--explicitStrategy"] + opts + ["s.slugsin"], {"s.slugsin": txt})
        ex, _ = strat.parse_text(e.out)
        ep = strat.positions(g, ex)
        for n, (rank, d, succ) in ex.items():
            a = have.get((ep[n], rank))
            dest = {(pos[t], st[t][0]) for t in st[a][2]} if a is not None else None
            for t in succ:
                if dest is None or (ep[t], ex[t][0]) not in dest:
                    return ctx.viol("not-permissive", "move %r -> %r of the deterministic strategy is not offered\noptions %s\n%s\n%s" % (d, ex[t][1], opts, txt, out[:2500]))
                ctx.stats["deterministic moves found in the permissive strategy"] += 1
        ctx.stats["states checked"] += len(st)
        ctx.stats["inputs with several answers"] += multi
        if multi and g.mixed() or multi > 3:
            ctx.nontrivial(out)
        ctx.sample = {"spec": txt[:300], "strategy": out[:300]}


check = C10()
