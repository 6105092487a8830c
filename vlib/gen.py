"""Shared specification workloads: edge cases and mixtures."""
from .spec import *


def _s(i, o, **kw):
    s = Spec(i, o)
    for k, x in kw.items():
        setattr(s, k, x)
    return s


a, x, y = v("a"), v("x"), v("y")
ap, xp, yp = v("a'"), v("x'"), v("y'")
EDGE = [
    _s(["a"], []), _s([], ["x"]), _s(["a"], ["x"]),
    _s(["a"], ["x"], sys_live=[F]), _s(["a"], ["x"], env_live=[F], sys_live=[F]),
    _s(["a"], ["x"], sys_trans=[F]), _s(["a"], ["x"], env_trans=[F], sys_trans=[F]), _s(["a"], ["x"], env_trans=[F], sys_live=[F]),
    _s(["a"], ["x"], env_init=[F], sys_trans=[F]), _s(["a"], ["x"], sys_init=[F]), _s(["a"], ["x"], env_init=[F], sys_init=[F]),
    _s(["a"], [], sys_live=[a]), _s(["a"], [], env_live=[a], sys_live=[a]), _s(["a"], [], env_live=[a], sys_live=[ap]), _s(["a"], [], sys_trans=[Or(a, ap)], env_trans=[Or(a, ap)]),
    _s([], ["x"], sys_live=[x, Not(x)]), _s([], ["x"], sys_live=[And(x, xp), Not(x)]), _s([], ["x"], sys_trans=[("^", x, xp)], sys_live=[x, Not(xp)]),
    _s([], ["x"], sys_trans=[("^", x, xp)], sys_live=[And(x, xp)]),
    _s(["a"], ["x"], sys_trans=[Not(("^", ap, xp))], sys_live=[x], env_live=[a]),
    _s(["a"], ["x"], sys_trans=[Not(("^", a, xp))], sys_live=[x], env_live=[a]),
    _s(["a"], ["x"], sys_trans=[Not(("^", a, xp))], sys_live=[x, Not(x)], env_live=[a, Not(a)]),
    _s(["a"], ["x"], sys_trans=[Not(("^", a, xp))], sys_live=[x, Not(x)], env_live=[a]),
    _s(["a"], ["x"], sys_init=[Not(("^", a, x))], sys_trans=[xp], sys_live=[x]), _s(["a"], ["x"], sys_init=[a]), _s(["a"], ["x"], env_init=[a], sys_init=[a]),
    _s(["a"], ["x", "y"], sys_trans=[Or(Not(x), yp), Or(ap, Not(yp))], sys_live=[xp]), _s(["a"], ["x", "y"], sys_trans=[Or(Not(x), yp), Or(ap, Not(yp))], sys_live=[xp], env_trans=[ap]),
    _s(["a"], ["x"], sys_live=[x] * 5 + [Not(x)] * 4), _s(["a"], ["x"], env_live=[a] * 4 + [Not(a)] * 4, sys_live=[And(a, xp)]),
    _s([], ["x"], env_live=[x], sys_live=[Not(x)]), _s([], ["x"], env_live=[x], sys_live=[F]), _s([], ["x"], env_trans=[x], sys_live=[F]), _s([], ["x"], env_trans=[x], sys_live=[F], sys_trans=[xp]),
]


def counter_spec(r):
    """The system counts through 2^k values only when the environment ticks; needs long ranked attractors."""
    k = r.choice([2, 3, 4])
    bits = ["c%d" % i for i in range(k)]
    s = Spec(["tick"] + (["res"] if r.random() < 0.5 else []), bits)
    carry = v("tick'")
    for b in bits:
        s.sys_trans.append(Not(("^", v(b + "'"), ("^", v(b), carry))) if len(s.inputs) == 1 or r.random() < 0.5 else
                           Not(("^", v(b + "'"), And(Not(v("res'")), ("^", v(b), carry)))))
        carry = And(carry, v(b))
    if r.random() < 0.7:
        s.env_live.append(v("tick'"))
    if len(s.inputs) == 2 and r.random() < 0.6:
        s.env_trans.append(Or(Not(v("res'")), v(r.choice(bits))))
    for _ in range(r.randint(1, 3)):
        n = r.randrange(1 << k)
        s.sys_live.append(cube(bits, [n >> i & 1 for i in range(k)]))
    s.sys_init.append(And(*[Not(v(b)) for b in bits]))
    if r.random() < 0.5:
        s.env_init.append(Not(v("tick")))
    return s


def arbiter_spec(r):
    k = r.choice([2, 2, 3])
    R, G = ["r%d" % i for i in range(k)], ["g%d" % i for i in range(k)]
    s = Spec(R, G)
    for i in range(k):
        for j in range(i):
            s.sys_trans.append(Or(Not(v(G[i] + "'")), Not(v(G[j] + "'"))))
        if r.random() < 0.5:
            s.sys_trans.append(Or(Not(v(G[i] + "'")), v(R[i] + "'"), v(G[i])))
        if r.random() < 0.6:
            s.env_trans.append(Or(Not(v(R[i])), v(G[i]), v(R[i] + "'")))
        if r.random() < 0.4:
            s.env_live.append(Or(Not(v(R[i])), Not(v(G[i]))))
        if r.random() < 0.8:
            s.sys_live.append(Or(Not(v(R[i])), v(G[i])) if r.random() < 0.7 else Or(Not(v(R[i] + "'")), v(G[i] + "'")))
    s.sys_init += [Not(v(g)) for g in G]
    s.env_init += [Not(v(q)) for q in R] if r.random() < 0.6 else []
    return s


def buffer_spec(r):
    """Handshakes where several assumptions must be waited for one after the other."""
    s = Spec(["p", "q"], ["x", "y"])
    s.sys_trans = [Or(v("x"), Not(v("x'")), v("p'")), Or(v("y"), Not(v("y'")), And(v("x"), v("q'")))]
    if r.random() < 0.5:
        s.sys_trans.append(Or(Not(v("y")), Not(v("x'")), Not(v("y'"))))
    if r.random() < 0.5:
        s.env_trans.append(Or(Not(v("p'")), Not(v("q'"))))
    if r.random() < 0.3:
        s.env_trans.append(clause(r, ["p", "q", "x", "y", "p'", "q'"], 3))
    s.env_live = r.sample([v("p"), v("q"), v("p'"), v("q'"), Or(v("q'"), Not(v("x")))], r.randint(1, 3))
    s.sys_live = r.sample([v("y"), Not(v("y")), v("x"), Not(v("x'")), And(v("y'"), v("p'")), And(v("x"), v("y"))], r.randint(1, 3))
    s.sys_init = [Not(v("x")), Not(v("y"))][: r.randint(0, 2)]
    return s


def graph_spec(r):
    """One player walks on a graph (the values of two or three bits) and has to visit several vertices again and again; the other player opens and closes some edges.
    Needs long attractors in which the wrong of two successors leads nowhere, for either player."""
    k = r.choice([2, 3, 3])
    env = r.random() < 0.55
    w, d = ["p%d" % i for i in range(k)], ["d"]
    s = Spec(w, d) if env else Spec(d, w)
    if r.random() < 0.4:
        r.shuffle(w)
    V = list(range(1 << k))
    r.shuffle(V)
    n = r.randint(max(3, len(V) - 3), len(V))
    V = V[:n]
    at = lambda m, q="": cube([b + q for b in w], [m >> i & 1 for i in range(k)])
    edges = {}
    for i in range(n):
        edges[V[i], V[(i + 1) % n]] = None
        if r.random() < 0.6:
            edges[V[i], V[(i + r.randint(2, n - 1)) % n]] = r.choice([None, None, v("d"), Not(v("d"))])
        if r.random() < 0.6:
            edges[V[i], V[(i - 1) % n]] = r.choice([None, None, None, v("d"), Not(v("d"))])
        if r.random() < 0.35:
            edges[V[i], V[i]] = r.choice([None, None, v("d")])
    step = Or(*[And(at(a), at(b, "'")) if c is None else And(at(a), at(b, "'"), c) for (a, b), c in edges.items()])
    (s.env_trans if env else s.sys_trans).append(step)
    live = [at(m, r.choice(["", "", "'"])) for m in r.sample(V, r.randint(1, min(4, n)))]
    other = [r.choice([v("d"), Not(v("d")), And(v("d"), at(r.choice(V))), Or(v("d"), at(r.choice(V))), at(r.choice(V)), Not(at(r.choice(V))), v("d'"), And(Not(v("d'")), at(r.choice(V), "'"))])
             for _ in range(r.randint(0 if not env else 1, 3))]
    (s.env_live if env else s.sys_live).extend(live)
    (s.sys_live if env else s.env_live).extend(other)
    if r.random() < 0.3:
        (s.sys_trans if env else s.env_trans).append(Or(Not(at(r.choice(V))), r.choice([v("d'"), Not(v("d'")), Not(("^", v("d"), v("d'")))])))
    if r.random() < 0.7:
        (s.env_init if env else s.sys_init).append(Or(*[at(m) for m in r.sample(V, r.randint(1, 3))]))
    return s


FAMILIES = [counter_spec, arbiter_spec, buffer_spec, graph_spec, graph_spec]


def spec_for(r, idx=0, max_total=5, **kw):
    q = r.random()
    if q < 0.2:
        return r.choice(FAMILIES)(r)
    if q < 0.28 and max_total >= 5:
        return rand_spec(r, max_in=4, max_out=4, max_total=7, **kw)
    return rand_spec(r, max_total=max_total, **kw)


def hard_spec(r, max_total=5, tries=8, want=None, **kw):
    """A random specification together with its game, biased (not restricted) towards mixed winning regions and deep fixed points."""
    from .game import Game
    best = None
    for k in range(tries):
        s = spec_for(r, 0, max_total=max_total, **kw)
        g = Game(s)
        ok = want is None or want(g)
        w = g.mixed()
        d = g.depth
        score = (3 * ok) + (1 if w else 0) + min(2.5, 0.4 * (d[0] - 1) + 0.3 * (d[1] - 2) + 0.3 * (d[2] - 2))
        if best is None or score > best[0]:
            best = (score, s, g)
        if ok and (w or r.random() < 0.12) and r.random() < 0.5:
            break
    return best[1], best[2]


def probe(r, s, g, win=None):
    """Same game, initial condition chosen so that the verdict hinges on single positions: (spec, expected verdict)."""
    W = g.win() if win is None else win
    Wm = W.reshape(g.I, g.O)
    I, O = s.inputs, s.outputs

    def sets(ys):   # x -> list of y
        return table_formula(I, lambda b: Or(*[cube(O, [y >> i & 1 for i in range(len(O))]) for y in ys[sum(t << i for i, t in enumerate(b))]]))
    q = s.copy()
    all_ = {x: list(range(g.O)) for x in range(g.I)}
    wins = [x for x in range(g.I) if Wm[x].any()]
    lose = [x for x in range(g.I) if not Wm[x].all()]
    if wins and (not lose or r.random() < 0.5):
        q.env_init = [table_formula(I, lambda b: T if sum(t << i for i, t in enumerate(b)) in wins else F)] if I else []
        ys = {x: [r.choice([y for y in range(g.O) if Wm[x, y]])] if x in wins else r.choice([[], list(range(g.O))]) for x in range(g.I)}
        # a few losing alternatives must not disturb
        for x in wins:
            ys[x] = ys[x] + [y for y in range(g.O) if not Wm[x, y] and r.random() < 0.3]
        q.sys_init = [sets(ys)]
        return q, True
    if not lose:
        return None, None
    x0 = r.choice(lose)
    ys = {x: [y for y in range(g.O) if Wm[x, y]] if x != x0 else [y for y in range(g.O) if not Wm[x, y]] for x in range(g.I)}
    q.sys_init = [sets(ys)]
    q.env_init = []
    keep = [x for x in range(g.I) if x == x0 or (Wm[x].any() and r.random() < 0.7)]
    if I:
        q.env_init = [table_formula(I, lambda b: T if sum(t << i for i, t in enumerate(b)) in keep else F)]
    return q, False


def robotics_probe(r, s, g):
    """Initial positions = some winning positions, sometimes plus exactly one losing one."""
    W = g.win()
    q = s.copy()
    P = [p for p in range(g.N) if W[p] and r.random() < 0.8]
    if r.random() < 0.5:
        L = [p for p in range(g.N) if not W[p]]
        if L:
            P.append(r.choice(L))
    allv = s.inputs + s.outputs
    ni = len(s.inputs)

    def inP(b):
        x = sum(t << i for i, t in enumerate(b[:ni]))
        y = sum(t << i for i, t in enumerate(b[ni:]))
        return T if x * g.O + y in P else F
    q.sys_init = [table_formula(allv, inP)]
    q.env_init = [] if r.random() < 0.7 else q.env_init
    return q
