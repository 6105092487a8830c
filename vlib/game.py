"""Explicit-state GR(1) games: the reference model the tool's answers are compared with.

Positions are numbered  x * 2^|out| + y  where bit k of x is input k and bit k of y is output k.
Transition sets are numpy arrays  [position][next input x'][next output y']."""
import numpy as np
from .spec import evalf, T


class Game:
    def __init__(self, spec, parts=None):
        self.spec = spec
        ni, no = len(spec.inputs), len(spec.outputs)
        self.I, self.O = 1 << ni, 1 << no
        self.N = self.I * self.O
        pos = np.arange(self.N)
        env = {"#1": np.ones((1, 1, 1), dtype=bool)}
        for k, n in enumerate(spec.inputs):
            env[n] = (((pos // self.O) >> k) & 1).astype(bool).reshape(self.N, 1, 1)
            env[n + "'"] = ((np.arange(self.I) >> k) & 1).astype(bool).reshape(1, self.I, 1)
        for k, n in enumerate(spec.outputs):
            env[n] = (((pos % self.O) >> k) & 1).astype(bool).reshape(self.N, 1, 1)
            env[n + "'"] = ((np.arange(self.O) >> k) & 1).astype(bool).reshape(1, 1, self.O)
        self.env = env
        self._win = None
        self.shape = (self.N, self.I, self.O)
        self.env_init = self.conj(spec.env_init).any(axis=(1, 2))
        self.sys_init = self.conj(spec.sys_init).any(axis=(1, 2))
        self.env_safe = self.conj(spec.env_trans)
        self.sys_safe = self.conj(spec.sys_trans)
        self.A = [self.full(f) for f in spec.env_live] or [self.full(T)]
        self.G = [self.full(f) for f in spec.sys_live] or [self.full(T)]

    def full(self, f):
        return np.broadcast_to(evalf(f, self.env), self.shape)

    def conj(self, fs):
        r = np.ones(self.shape, dtype=bool)
        for f in fs:
            r = r & evalf(f, self.env)
        return r

    def posname(self, p):
        return valuation(self.spec, p, self.O)

    def nxt(self, Z):
        """positions set (bool[N]) as a set of transitions leading to it"""
        return Z.reshape(1, self.I, self.O)

    def cpre(self, Tr):
        """positions from which the system can, for every allowed next input, pick an output with the transition in Tr"""
        if self.I * self.O == 0:
            return np.ones(self.N, bool)
        return (~self.env_safe | Tr).any(axis=2).all(axis=1)

    def win(self):
        """nu Z . AND_j mu Y . OR_i nu X . cpre(safe & (G_j & Z' | Y' | !A_i & X'))"""
        if getattr(self, "_win", None) is not None:
            return self._win
        Z = np.ones(self.N, bool)
        nz = my = mx = 0
        while True:
            newZ = Z.copy()
            nz += 1
            for G in self.G:
                goal = self.sys_safe & G & self.nxt(Z)
                Y = np.zeros(self.N, bool)
                ny = 0
                while True:
                    ny += 1
                    my = max(my, ny)
                    base = goal | (self.sys_safe & self.nxt(Y))
                    newY = Y.copy()
                    for A in self.A:
                        stay = self.sys_safe & ~A
                        X = np.ones(self.N, bool)
                        nx = 0
                        while True:
                            nx += 1
                            mx = max(mx, nx)
                            X2 = self.cpre(base | (stay & self.nxt(X)))
                            if (X2 == X).all():
                                break
                            X = X2
                        newY |= X
                    if (newY == Y).all():
                        break
                    Y = newY
                newZ &= Y
            if (newZ == Z).all():
                break
            Z = newZ
        self._win = Z
        self.depth = (nz, my, mx)
        return Z

    def mixed(self):
        return 0 < int(self.win().sum()) < self.N

    def realizable(self):
        ok = (self.win() & self.sys_init).reshape(self.I, self.O).any(axis=1)
        ei = self.env_init.reshape(self.I, self.O).any(axis=1)
        return bool((~ei | ok).all())

    def realizable_robotics(self):
        return bool((~(self.env_init & self.sys_init) | self.win()).all())

    # ---------------------------------------------------------------- independent second solver
    def win_parity(self):
        """Winning positions through a reduction to a 3-priority parity game solved by Zielonka's algorithm.
        Counter c in 0..a-1 waits for assumption c, counter g in 0..b-1 waits for goal g."""
        a, b, N, I, O = len(self.A), len(self.G), self.N, self.I, self.O
        # vertices: env vertex (p,c,g,prio)  -> sys vertex (p,x,c,g) -> env vertex; prio of the last transition on env vertices
        ids = {}
        succ, owner, prio = [], [], []

        def node(key, own, pr):
            if key not in ids:
                ids[key] = len(succ)
                succ.append(None)
                owner.append(own)
                prio.append(pr)
                work.append(key)
            return ids[key]
        work = []
        start = [node(("e", p, 0, 0, 0), 0, 0) for p in range(N)]
        WIN, LOSE = len(succ), None
        while work:
            key = work.pop()
            n = ids[key]
            if key[0] == "e":
                _, p, c, g, _pr = key
                ss = []
                for x in range(I):
                    # allowed if some output completes it (safetyEnv does not depend on outputs)
                    if self.env_safe[p, x].any():
                        ss.append(node(("s", p, x, c, g), 1, 0))
                succ[n] = ss
            else:
                _, p, x, c, g = key
                ss = []
                for y in range(O):
                    if self.sys_safe[p, x, y]:
                        pr = 0
                        c2, g2 = c, g
                        if self.A[c][p, x, y]:
                            c2 = (c + 1) % a
                            if c2 == 0:
                                pr = 1
                        if self.G[g][p, x, y]:
                            g2 = (g + 1) % b
                            if g2 == 0:
                                pr = 2
                        ss.append(node(("e", x * O + y, c2, g2, pr), 0, pr))
                succ[n] = ss
        M = len(succ)
        pred = [[] for _ in range(M)]
        for u in range(M):
            for w in succ[u]:
                pred[w].append(u)

        def attr(player, target, verts):
            res = set(target)
            q = list(target)
            cnt = {}
            while q:
                w = q.pop()
                for u in pred[w]:
                    if u not in verts or u in res:
                        continue
                    if owner[u] == player:
                        res.add(u)
                        q.append(u)
                    else:
                        cnt[u] = cnt.get(u, 0) + 1
                        if cnt[u] == sum(1 for z in succ[u] if z in verts):
                            res.add(u)
                            q.append(u)
            return res

        # dead ends: the owner loses
        verts = set(range(M))
        w1 = attr(1, [u for u in verts if owner[u] == 0 and not succ[u]], verts)
        verts -= w1
        w0 = attr(0, [u for u in verts if owner[u] == 1 and not succ[u]], verts)
        # a sys dead end is attracted for the env; recompute on the whole remaining graph
        verts -= w0

        def zielonka(vs):
            if not vs:
                return set(), set()   # (sys wins, env wins)
            d = max(prio[u] for u in vs)
            pl = 1 if d % 2 == 0 else 0
            A = attr(pl, [u for u in vs if prio[u] == d], vs)
            s, e = zielonka(vs - A)
            opp = e if pl == 1 else s
            if not opp:
                return (vs, set()) if pl == 1 else (set(), vs)
            B = attr(1 - pl, opp, vs)
            s, e = zielonka(vs - B)
            return (s, e | B) if pl == 1 else (s | B, e)
        s, e = zielonka(verts)
        res = s | w1
        return np.array([n in res for n in start])


def valuation(spec, p, O):
    d = {}
    for k, n in enumerate(spec.inputs):
        d[n] = (p // O >> k) & 1
    for k, n in enumerate(spec.outputs):
        d[n] = (p % O >> k) & 1
    return d


def position(spec, d, O):
    x = sum(d[n] << k for k, n in enumerate(spec.inputs))
    y = sum(d[n] << k for k, n in enumerate(spec.outputs))
    return x * O + y


def sccs(nodes, succ):
    """Tarjan, iterative; returns list of components that contain at least one edge."""
    index, low, onst, st, out, cnt = {}, {}, set(), [], [], [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ(root)))]
        index[root] = low[root] = cnt[0]; cnt[0] += 1
        st.append(root); onst.add(root)
        while work:
            u, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]; cnt[0] += 1
                    st.append(w); onst.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in onst:
                    low[u] = min(low[u], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[u])
            if low[u] == index[u]:
                comp = set()
                while True:
                    w = st.pop(); onst.discard(w); comp.add(w)
                    if w == u:
                        break
                if len(comp) > 1 or u in succ(u):
                    out.append(comp)
    return out


def fair_bad_cycle(edges, assumptions, goals):
    """edges: list of (u, w, label); assumptions/goals: predicates on label.
    Returns (component, goal index) if some cycle satisfies every assumption infinitely often but misses a goal."""
    for j, G in enumerate(goals):
        sub = [(u, w, l) for (u, w, l) in edges if not G(l)]
        adj = {}
        for u, w, l in sub:
            adj.setdefault(u, set()).add(w)
        for comp in sccs(list(adj), lambda u: adj.get(u, ())):
            inner = [l for (u, w, l) in sub if u in comp and w in comp]
            if all(any(A(l) for l in inner) for A in assumptions):
                return comp, j
    return None
