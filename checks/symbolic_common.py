"""Monitors for symbolic strategy files (C08, C09; also reused with other semantics)."""
import random
import numpy as np
from vlib import build as B
from vlib.dddmp import BDD, FormatError
from vlib.game import fair_bad_cycle, sccs


def bins():
    return {"slugs": B.slugs(), "bddload": B.build("bddload", what="slugslib", extra_sources=[B.ROOT + "/harness/bddload.cpp"])}


def decode(g, text, simple, ngoals=None, extra=()):
    """list over goals of arrays [N][I][O] (non-simple: (stay, go)), (simple: {next goal: array})"""
    s = g.spec
    b = BDD(text)
    n = ngoals if ngoals is not None else len(g.G)
    if b.goals != n:
        raise FormatError("header says %r goals, expected %d" % (b.goals, n))
    nb = 0
    while (1 << nb) <= n:
        nb += 1
    pre = "in_" if simple else ""
    want = [pre + x for x in s.inputs] + [pre + x + "'" for x in s.inputs] + s.outputs + [x + "'" for x in s.outputs]
    cnt = ["_jx_b%d" % k for k in range(64) if "_jx_b%d" % k in b.names.values()]
    if (1 << len(cnt)) < n:
        raise FormatError("too few counter variables for %d goals: %r" % (n, cnt))
    want += cnt + ([c + "'" for c in cnt] if simple else ["strat_type"]) + list(extra)
    if sorted(b.names.values()) != sorted(want) or len(set(b.names.values())) != len(b.names):
        raise FormatError("variable list %r, expected %r" % (sorted(b.names.values()), sorted(want)))
    num = {nm: k for k, nm in b.names.items()}
    base = {}
    for x in s.inputs:
        base[num[pre + x]] = g.env[x]
        base[num[pre + x + "'"]] = g.env[x + "'"]
    for x in s.outputs:
        base[num[x]] = g.env[x]
        base[num[x + "'"]] = g.env[x + "'"]
    res = []

    def at(goal, nxt, st):
        val = dict(base)
        for k, c in enumerate(cnt):
            val[num[c]] = bool(goal >> k & 1)
            if simple:
                val[num[c + "'"]] = bool(nxt >> k & 1)
        if not simple:
            val[num["strat_type"]] = bool(st)
        return np.broadcast_to(b.eval(val), g.shape)
    for i in range(n):
        if simple:
            res.append({k: at(i, k, 0) for k in range(1 << len(cnt))})
        else:
            res.append((at(i, 0, 0), at(i, 0, 1)))
    return b, res


def check_loader(ctx, r, text, b):
    """the tool's own loader must read the same function"""
    n = max(b.names) + 1
    asg = [[r.random() < 0.5 for _ in range(n)] for _ in range(48)]
    # also assignments on which the function is true, found by random descent
    for _ in range(48):
        a = [r.random() < 0.5 for _ in range(n)]
        node, want = abs(b.root), b.root > 0
        guard = 0
        while b.nodes[node] is not None and guard < 10000:
            guard += 1
            x, t, e = b.nodes[node]
            if r.random() < 0.5:
                a[x] = True
                node = t
            else:
                a[x] = False
                node = abs(e)
        asg.append(a)
    q = ctx.run(["f", str(n)], {"f": text}, stdin="".join("".join("01"[t] for t in a) + "\n" for a in asg), bin="bddload")
    out = q.out.split("\n")
    if q.rc != 0 or not out[-2].startswith("LOADED"):
        return ctx.viol("loader-rejects", q.out[-300:] + q.err[-300:] + text[:3000])
    for a, o in zip(asg, out):
        exp = bool(b.eval({k: a[k] for k in range(n)}))
        if o != "01"[exp]:
            return ctx.viol("loader-differs", "assignment %r: file says %d, loader says %s\n%s" % (a, exp, o, text[:3000]))
    if out[-2] != "LOADED refs=0":
        return ctx.viol("loader-leaks", out[-2])
    ctx.stats["loader evaluations compared"] += len(asg)


def judge_relation(g, W, i, Rel, safe, env_safe, bad):
    src = W.reshape(g.N, 1, 1)
    al = env_safe
    used = Rel & src & al
    if (used & ~safe).any():
        p, x, y = np.argwhere(used & ~safe)[0]
        bad.append(("unsafe", "goal %d: unsafe transition %r -> %r" % (i, g.posname(p), g.posname(x * g.O + y))))
    if (used & ~g.nxt(W)).any():
        p, x, y = np.argwhere(used & ~g.nxt(W))[0]
        bad.append(("leaves-winning", "goal %d: transition %r -> %r leaves the winning region" % (i, g.posname(p), g.posname(x * g.O + y))))
    miss = src[:, :, 0] & al.any(axis=2) & ~Rel.any(axis=2)
    if miss.any():
        p, x = np.argwhere(miss)[0]
        bad.append(("no-reaction", "goal %d: no reaction in winning position %r to allowed next input %d" % (i, g.posname(p), x)))


def nongoal_cycles(g, W, i, Rel, G, bad, key="goal-avoiding-cycle", A=None):
    E = np.argwhere(Rel & ~G & W.reshape(g.N, 1, 1) & g.env_safe & g.nxt(W))
    edges = [(int(p), int(x) * g.O + int(y), (int(p), int(x), int(y))) for p, x, y in E]
    c = fair_bad_cycle(edges, [lambda l, Z=Z: bool(Z[l]) for Z in (A if A is not None else g.A)], [lambda l: False])
    if c:
        bad.append((key, "goal %d: positions %r form a cycle that meets every assumption and never the goal" % (i, [g.posname(p) for p in list(c[0])[:6]])))


def judge_split(ctx, g, W, rel, bad):
    """monitors for the format with separate stay / go transitions; returns the number of non-trivial transitions"""
    nt = 0
    for i, (stay, go) in enumerate(rel):
        judge_relation(g, W, i, stay | go, g.sys_safe, g.env_safe, bad)
        m = go & W.reshape(g.N, 1, 1) & g.env_safe & ~g.G[i]
        if m.any():
            bad.append(("goal-mark", "goal %d: transition %r is marked as reaching the goal but does not satisfy it" % (i, tuple(np.argwhere(m)[0]))))
        nongoal_cycles(g, W, i, stay, g.G[i], bad)
        # every reaction is available in one of the two kinds; goal-reaching ones are marked
        m = stay & g.G[i] & ~go & W.reshape(g.N, 1, 1) & g.env_safe
        if m.any():
            bad.append(("goal-unmarked", "goal %d: transition %r reaches the goal but is not offered as goal transition" % (i, tuple(np.argwhere(m)[0]))))
        nt += int((stay & ~g.G[i] & W.reshape(g.N, 1, 1)).sum())
        ctx.stats["transitions judged"] += int(((stay | go) & W.reshape(g.N, 1, 1) & g.env_safe).sum())
    return nt


def judge_flat(ctx, g, W, rel, bad):
    """monitors for the format with next goal numbers; returns whether the goal number both stays and advances"""
    n = len(rel)
    src = W.reshape(g.N, 1, 1) & g.env_safe
    stays = goes = 0
    for i, byn in enumerate(rel):
        alln = np.zeros(g.shape, bool)
        for k, R in byn.items():
            alln = alln | R
            legal = np.zeros(g.shape, bool)
            if k == (i + 1) % n:
                legal = legal | g.G[i]
            if k == i:
                legal = legal | ~g.G[i]
            m = R & src & ~legal
            if m.any():
                p, x, y = np.argwhere(m)[0]
                bad.append(("counter", "goal %d -> %d on a transition that %s goal %d: %r -> %r" % (i, k, "reaches" if g.G[i][p, x, y] else "does not reach", i, g.posname(p), g.posname(x * g.O + y))))
            if k == i:
                stays += int((R & src).sum())
            elif k == (i + 1) % n:
                goes += int((R & src).sum())
        judge_relation(g, W, i, alln, g.sys_safe, g.env_safe, bad)
        nongoal_cycles(g, W, i, alln, g.G[i], bad)
        ctx.stats["transitions judged"] += int((alln & src).sum())
    return bool(stays and goes)
