"""C25: two-dimensional cost optimisation."""
import numpy as np
from vlib.harness import Check
from vlib import gen, opts, strat
from vlib.spec import *
from vlib.game import Game, fair_bad_cycle

EXPL = [c for c in opts.COMBOS if "--twoDimensionalCost" in c and "--explicitStrategy" in c]
OTHER = [c for c in opts.COMBOS if "--twoDimensionalCost" in c and "--explicitStrategy" not in c and "--interactiveStrategy" not in c]


def cost_file(r, s, overlap=False):
    """text, [(value, formula)]"""
    names = s.inputs + s.outputs
    prim = names + [n + "'" for n in names]
    k = r.choice([0, 1, 1, 1, 2, 2, 3])
    vals = r.sample([0.5, 1.0, 2.0, 3.5, 10.0, 0.0, 1e-3], k)
    lines = []
    rest = T
    pieces = []
    for val in vals:
        q = r.random()
        ys = s.outputs or names
        if q < 0.4:
            n = r.choice(ys)
            f = ("^", v(n), v(n + "'"))
        elif q < 0.7:
            f = And(Not(v(r.choice(ys))), v(r.choice(ys) + "'"))
        else:
            f = cube(r.sample(prim, min(len(prim), r.randint(1, 3))), [r.randrange(2) for _ in range(3)])
        g = And(f, rest) if not overlap else f
        rest = And(rest, Not(f))
        pieces.append((val, g))
    if overlap:
        f = cube(r.sample(prim, 1), [1])
        pieces.append((17.0, f))
        pieces.append((18.0, Or(f, v(r.choice(prim)))))
    for val, f in pieces:
        if r.random() < 0.2:
            lines.append("# comment")
        lines.append("%s %s" % (repr(val), text(f)))
    w = r.choice([(1, 1), (1, 0), (0, 1), (2.5, 1), (1, 3), (0.1, 10)])
    head = "%s %s %s" % (w[0], w[1], r.choice("<>"))
    return "\n".join([head] + lines) + ("\n" if r.random() < 0.9 else ""), pieces


def pure(g):
    """every goal can be reached from every winning position without relying on liveness assumptions"""
    W = g.win()
    for G in g.G:
        Y = np.zeros(g.N, bool)
        while True:
            Y2 = Y | g.cpre(g.sys_safe & (g.nxt(Y) | (G & g.nxt(W))))
            if (Y2 == Y).all():
                break
            Y = Y2
        if (W & ~Y).any():
            return False
    return True


def cheapest(g, G, C):
    """worst-case accumulated cost until the goal transition (inclusive) when the system plays best: float[N], inf where it cannot be enforced"""
    W = g.win()
    V = np.full(g.N, np.inf)
    while True:
        step = np.where(np.broadcast_to(G, g.shape), np.where(g.nxt(W), 0.0, np.inf), np.broadcast_to(V.reshape(1, g.I, g.O), g.shape))
        step = np.where(np.broadcast_to(g.sys_safe, g.shape), C + step, np.inf)
        best = step.min(axis=2)
        al = np.broadcast_to(g.env_safe, g.shape).any(axis=2)
        V2 = np.where(al, best, 0.0).max(axis=1)
        # least solution from above: positive loops are excluded by working downwards from infinity
        V2 = np.minimum(V, V2)
        if (V2 == V).all():
            return V
        V = V2


def walk_spec(r):
    """a walk on a weighted graph whose vertices are the values of three output bits: paths of several steps with different accumulated costs (cheap detours, dear shortcuts),
    edges that only one input value opens; no liveness assumptions. Returns spec, cost file text, pieces"""
    ys, ins = ["y0", "y1", "y2"], ["a"] if r.random() < 0.6 else []
    s = Spec(ins, ys)
    V = list(range(8))
    r.shuffle(V)
    n = r.randint(5, 8)
    V = V[:n]
    at = lambda k, p="": cube([y + p for y in ys], [k >> b & 1 for b in range(3)])
    vals = sorted(r.sample([0.5, 1.0, 1.0, 2.0, 3.0, 3.5, 7.0], 3))
    if len(set(vals)) < 3:
        vals = [1.0, 2.0, 7.0]
    edges = {}
    for i in range(n):
        edges[(V[i], V[(i + 1) % n])] = r.choice([vals[0], vals[0], vals[1], 0.0])
        if r.random() < 0.5:
            edges[(V[i], V[(i + r.randint(2, n - 1)) % n])] = r.choice(vals[1:])
    for i in range(n):
        if r.random() < 0.3:
            edges[(V[i], V[i])] = r.choice(vals + [0.0])
    step = []
    for (a, b), c in edges.items():
        f = And(at(a), at(b, "'"))
        if ins and r.random() < 0.25 and (b - a) % 8 != 1:
            f = And(f, v("a'") if r.random() < 0.5 else Not(v("a'")))
        step.append(f)
    s.sys_trans = [Or(*step)]
    goals = r.sample(V, r.choice([1, 1, 2, 2, 3]))
    s.sys_live = [at(k, r.choice(["", "'"])) for k in goals]
    if r.random() < 0.6:
        s.sys_init = [Or(*[at(k) for k in r.sample(V, r.randint(1, 3))])]
    pieces = []
    for c in vals:
        l = [And(at(a), at(b, "'")) for (a, b), d in edges.items() if d == c]
        if l:
            pieces.append((c, Or(*l) if len(l) > 1 else l[0]))
    w = r.choice([(1, 1), (1, 0), (0, 1), (2.5, 1), (1, 3)])
    return s, "%s %s %s\n" % (w[0], w[1], r.choice("<>")) + "".join("%r %s\n" % (c, text(f)) for c, f in pieces), pieces


def _known():
    a, p, q, x, y = v("a"), v("p"), v("q"), v("x"), v("y")
    s = Spec(["a"], [])
    s.env_live, s.sys_live = [a], [v("a'")]
    E = ["--explicitStrategy", "--twoDimensionalCost"]
    res = {"fixed-one-input": (s, E, "0 1 >\n")}

    def hs(el, sl, si=()):
        s = Spec(["p", "q"], ["x", "y"])
        s.sys_trans = [Or(x, Not(v("x'")), v("p'")), Or(y, Not(v("y'")), And(x, v("q'")))]
        s.env_live, s.sys_live, s.sys_init = list(el), list(sl), list(si)
        return s
    res["fixed-handshake-liveness"] = (hs([p, q], [y, Not(v("x'"))]), E, "1 1 >\n")
    res["fixed-handshake-no-strategy"] = (hs([v("q'"), p, Or(v("q'"), Not(x))], [And(v("y'"), v("p'")), And(x, y)], [Not(x), Not(y)]), E + ["--sysInitRoboticsSemantics"], "1 0 >\n0.5 ^ x x'\n10.0 & q' ! ^ x x'\n")
    return res


KNOWN = _known()


class C25(Check):
    id = "C25"
    rule = ("random specifications x random cost files (0 to 3 disjoint cost classes, all weightings and both preferences), every option combination with --twoDimensionalCost; verdicts vs. explicit solver; explicit strategies are projected to the declared variables and judged like ordinary ones (their bookkeeping bits stay part of the state); cost files with overlapping classes or broken lines must be rejected. "
            "Non-trivial: a judged strategy with at least one transition of non-zero cost, or a rejected cost file; distinct by input.")
    quick_n = 700
    thorough_n = 8000
    min_nontrivial = 120

    def extra_cases(self):
        return sorted(KNOWN)

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        if isinstance(idx, str):
            s, c, cost = KNOWN[idx]
            return self.judge(ctx, r, s, Game(s), list(c), cost, [], fixed=idx)
        c = list(r.choice(EXPL) if r.random() < 0.8 else r.choice(OTHER))
        rob = "--sysInitRoboticsSemantics" in c
        rec = "--simpleRecovery" in c
        if idx < len(gen.EDGE):
            s = gen.EDGE[idx].copy()
            g = Game(s)
        elif r.random() < 0.25:
            s, cost, pieces = walk_spec(r)
            ctx.stats["walks on weighted graphs"] += 1
            return self.judge(ctx, r, s, Game(s), [o for o in c if "ecovery" not in o], cost, pieces)
        else:
            s, g = gen.hard_spec(r, tries=6, max_total=r.choice([3, 4, 4, 5]), plain_names=True, want=(lambda g: g.realizable_robotics() if rob else g.realizable()) if r.random() < 0.9 else None)
        exp = g.realizable_robotics() if rob else g.realizable()
        txt = s.slugsin()
        names = s.inputs + s.outputs
        if r.random() < 0.2 and names:
            return self.bad_costs(ctx, r, s, g, exp, c, txt)
        cost, pieces = cost_file(r, s) if names else ("1 1 <\n", [])
        self.judge(ctx, r, s, g, c, cost, pieces)

    def judge(self, ctx, r, s, g, c, cost, pieces, fixed=None):
        """everything is judged where the strategy neither needs liveness assumptions nor can save costs with them, and on the fixed inputs; otherwise
        (known finding: such strategies can be incomplete) only what every printed state and transition must satisfy"""
        rob, rec = "--sysInitRoboticsSemantics" in c, "--simpleRecovery" in c
        exp = g.realizable_robotics() if rob else g.realizable()
        names = s.inputs + s.outputs
        txt = s.slugsin()
        full = fixed or pure(g) and (not s.env_live or self.waiting_dear(g, cost, pieces))
        pre = fixed + ":" if fixed else ""
        ctx.stats["judged in full" if full else "judged without completeness and liveness"] += 1
        sym = any("ymbolicStrategy" in o for o in c)
        r.shuffle(c)
        q = ctx.run(c + ["s.slugsin", "cost"] + (["o"] if sym else []), {"s.slugsin": txt, "cost": cost}, timeout=60)
        info = "options %s\n%s\n--- cost file\n%s" % (c, txt, cost)
        if q.rc != 0 or q.verdict is not None and q.verdict != exp or q.verdict is None and "--explicitStrategy" not in c:
            return ctx.viol("verdict", "rc %d verdict %s reference %s %s\n%s" % (q.rc, q.verdict, exp, q.err[-300:], info))
        ctx.stats["realizable" if exp else "unrealizable"] += 1
        if "--explicitStrategy" not in c:
            return
        js = "--jsonOutput" in c
        if not exp:
            if q.out.strip():
                ctx.viol("strategy-for-unrealizable", info)
            return
        W = g.win()
        noinit = not (W & g.sys_init & (g.env_init | rec)).any()
        if not q.out.strip():
            if not noinit and full:
                ctx.viol(pre + "no-strategy", info)
            return
        try:
            st, _ = (strat.parse_json if js else strat.parse_text)(q.out)
            proj = {}
            for n, (rank, d, succ) in st.items():
                if not set(names) <= set(d):
                    raise strat.FormatError("variables missing in state %d" % n)
                proj[n] = (rank, {k: x for k, x in d.items() if k in names}, succ)
            pos = strat.positions(g, proj)
            seen = {}
            bad = []
            for n, (rank, d, succ) in st.items():
                key = (rank, tuple(sorted(d.items())))
                if key in seen:
                    bad.append(("duplicate-state", "%d and %d" % (n, seen[key])))
                seen[key] = n
            bad += [(k, m) for k, m in strat.check_explicit(g, proj, robotics=rob, recovery=rec, win=W, initial=False) if k != "duplicate-state"]
        except strat.FormatError as e:
            return ctx.viol("format", "%s\n%s\n%s" % (e, info, q.out[:1500]))
        starts = {pos[n] for n in pos if st[n][0] == 0}
        for x in range(g.I):
            ps = [p for p in range(x * g.O, (x + 1) * g.O) if g.sys_init[p] and W[p] and (rec or g.env_init[p])]
            if rob:
                miss = [p for p in ps if p not in starts]
            else:
                miss = ps if ps and not any(p in starts for p in ps) else []
            if miss:
                bad.append(("initial-missing", "no start state for %r" % g.posname(miss[0])))
        cost_used = 0
        for n, (rank, d, succ) in st.items():
            for t in succ or []:
                if t in pos:
                    for val, f in pieces:
                        if val and bool(np.broadcast_to(evalf(f, g.env), g.shape)[pos[n], pos[t] // g.O, pos[t] % g.O]):
                            cost_used += 1
        if not rec and not bad and pure(g) and not s.env_live:
            self.costs(ctx, g, pieces, pos, st, bad, rob)
        ctx.stats["strategies judged"] += 1
        ctx.stats["strategy states judged"] += len(st)
        ctx.stats["transitions with a cost"] += cost_used
        if cost_used:
            ctx.nontrivial(txt + cost + str(sorted(c)))
        ctx.sample = {"options": c, "spec": txt[:300], "cost": cost, "states": len(st)}
        bad = [(k, m) for k, m in bad if full or k not in ("initial-missing", "missing-input", "liveness")]
        for k, m in bad[:1]:
            ctx.viol(pre + k, "%s\n%s\n%s" % (m, info, q.out[:3000]))

    def waiting_dear(self, g, cost, pieces):
        """with the weights of the cost file, waiting once costs more than the dearest of the cheapest ways to the goals (which do not wait)"""
        w, a = (float(x) for x in cost.split()[:2])
        C = np.zeros(g.shape)
        for val, f in pieces:
            C[np.broadcast_to(evalf(f, g.env), g.shape)] = val
        W = g.win()
        most = max([cheapest(g, G, C)[W].max() if W.any() else 0.0 for G in g.G])
        return most == 0 or a * most < w

    def costs(self, ctx, g, pieces, pos, st, bad, rob):
        """no state may have a worst-case cost to its goal above the cheapest one"""
        C = np.zeros(g.shape)
        for val, f in pieces:
            C[np.broadcast_to(evalf(f, g.env), g.shape)] = val
        V = [cheapest(g, G, C) for G in g.G]
        # longest path to leaving the rank: no fair bad cycle exists, so the part within a rank is acyclic
        memo = {}

        def worst(n):
            if n not in memo:
                memo[n] = 0.0
                rank, d, succ = st[n]
                w = 0.0
                for t in succ:
                    tr = (pos[n], pos[t] // g.O, pos[t] % g.O)
                    w = max(w, C[tr] + (0.0 if g.G[rank][tr] else worst(t)))
                memo[n] = w
            return memo[n]
        for n in st:
            a, b = worst(n), V[st[n][0]][pos[n]]
            ctx.stats["state costs compared"] += 1
            if b:
                ctx.stats["state costs compared, positive"] += 1
            if a > b + 1e-9:
                bad.append(("cost", "state %d %r: worst-case cost %g until goal %d, %g is possible" % (n, st[n][1], a, st[n][0], b)))
                return
            if b >= 4:
                ctx.stats["state costs compared, 4 or more"] += 1
        if rob:
            return
        # a state without predecessors is a start state: for its input it has to be a cheapest one among the allowed initial positions
        hit = {t for _, _, succ in st.values() for t in succ}
        W = g.win()
        for n in st:
            if n not in hit and st[n][0] == 0:
                x = pos[n] // g.O
                m = min(V[0][p] for p in range(x * g.O, (x + 1) * g.O) if g.sys_init[p] and g.env_init[p] and W[p])
                ctx.stats["start state costs compared"] += 1
                if V[0][pos[n]] > m + 1e-9:
                    bad.append(("start-cost", "start state %d %r: worst-case cost %g until the first goal, starting with %g is possible for that input" % (n, st[n][1], V[0][pos[n]], m)))
                    return

    def bad_costs(self, ctx, r, s, g, exp, c, txt):
        kind = r.choice(["overlap", "head", "formula", "value", "nospace", "missing"])
        names = s.inputs + s.outputs
        cost, pieces = cost_file(r, s, overlap=kind == "overlap")
        if kind == "overlap" and not exp:
            return   # costs play no role
        lines = cost.rstrip("\n").split("\n")
        f = "& %s %s" % (names[0], names[0] + "'")
        if kind == "head":
            lines[0] = r.choice(["", "1 <", "1 1", "a b <", "1 1 =", "< 1 1", "1 1.0.0 <"])
        elif kind == "formula":
            lines.append(r.choice(["1.5 & %s" % names[0], "1.5 undeclared", "1.5 %s %s" % (names[0], names[0]), "1.5 ? 0", "1.5 "]))
        elif kind == "value":
            lines.append("x " + f)
        elif kind == "nospace":
            lines.append(r.choice(["1.5", names[0]]))
        cost = "\n".join(lines) + "\n"
        files = {"s.slugsin": txt}
        if kind != "missing":
            files["cost"] = cost
        sym = any("ymbolicStrategy" in o for o in c)
        q = ctx.run(c + ["s.slugsin", "cost"] + (["o"] if sym else []), files, outputs=["o"])
        info = "options %s kind %s\n%s\n--- cost file\n%s" % (c, kind, txt, cost)
        if q.rc != 1 or q.verdict is not None or q.out.strip() or "o" in q.files:
            return ctx.viol("accepted-" + kind, "rc %d verdict %s output %r\n%s" % (q.rc, q.verdict, q.out[:200], info))
        if "rror" not in q.err:
            return ctx.viol("no-message-" + kind, "%s\n%s" % (q.err[-300:], info))
        ctx.stats["rejected: " + kind] += 1
        ctx.nontrivial(kind + cost + txt)


check = C25()
