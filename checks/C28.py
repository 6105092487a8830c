"""C28: belief-space abstraction (estimator synthesis)."""
import re
import numpy as np
from vlib.harness import Check
from vlib.spec import *
from vlib.game import Game

SEC = {"OBSERVABLE_INPUT": "b", "CONTROLLABLE_INPUT": "c", "UNOBSERVABLE_INPUT": "u", "OUTPUT": "e"}
INT = re.compile(r"^(.*)@0\.(\d+)\.(\d+)$")


class Estimator:
    """Boolean arrays with one axis of size 2 per variable (pre axes 0..n-1, post axes n..2n-1)."""
    def __init__(self, sp):
        self.vars = [n for g in sp["order"] for n in sp[SEC[g]]]
        n = self.n = len(self.vars)
        self.kind = {x: k for k in "bcue" for x in sp[k]}
        self.env = {"#1": np.ones((1,) * 2 * n, bool)}
        for i, x in enumerate(self.vars):
            for k, s in ((i, ""), (n + i, "'")):
                self.env[x + s] = np.array([False, True]).reshape(tuple(2 if j == k else 1 for j in range(2 * n)))
        conj = lambda fs: self.full(And(*fs))
        f = sp["f"]
        self.E, self.S = conj(f["ENV_TRANS"]), conj(f["SYS_TRANS"])
        self.init = conj(f["ENV_INIT"]) & conj(f["SYS_INIT"])

    def full(self, f):
        return np.broadcast_to(evalf(f, self.env), (2,) * 2 * self.n).copy()

    def ax(self, pre, post):
        return tuple([i for i, x in enumerate(self.vars) if self.kind[x] in pre] + [self.n + i for i, x in enumerate(self.vars) if self.kind[x] in post])

    def reach(self, step):
        n = self.n
        R = self.init.any(axis=tuple(range(n, 2 * n)))       # pre part
        while True:
            N = R | (R.reshape((2,) * n + (1,) * n) & step).any(axis=tuple(range(n)))
            if (N == R).all():
                return R.reshape((2,) * n + (1,) * n)
            R = N

    def solve(self):
        full = (2,) * 2 * self.n
        ex = lambda A, pre, post: np.broadcast_to(A, full).any(axis=self.ax(pre, post), keepdims=True) if self.ax(pre, post) else A
        R = self.reach(self.E & self.S)
        st = np.broadcast_to(~ex(R & self.E & ~self.S, "u", "u"), full)
        for x in reversed(self.vars):
            if self.kind[x] == "e" and x[:4] in ("min_", "max_"):
                p = self.env[x + "'"] if x[:4] == "min_" else ~self.env[x + "'"]
                st = st & (~ex(st & p, "", "e") | p)
        self.sys = st
        self.loose = np.broadcast_to(~ex(R & self.E & ~self.S, "u", "u"), full)
        R2 = self.reach(self.E & self.S & st)
        self.R2 = R2
        self.envass = np.broadcast_to(ex(R2 & self.E, "u", "uec"), full)
        live = np.broadcast_to(self.envass.any(axis=tuple(range(self.n, 2 * self.n)), keepdims=True), full)
        R2f = np.broadcast_to(R2, full)
        self.envdead = bool((R2f & ~live).any())
        self.sysdead = bool((R2f & live & self.envass & ~np.broadcast_to(ex(st, "", "e"), full)).any())
        self.trans = self.E & self.envass & st & R2f

    def diffs(self):
        """(reference, simulated) -> interval of differences over the remaining transitions"""
        out = []
        names = [y for x in self.vars for y in (x, x + "'")]
        val = {}
        for y in names:
            m = INT.match(y.rstrip("'"))
            if m:
                lo, hi, q = int(m.group(2)), int(m.group(3)), "'" if y.endswith("'") else ""
                bits = [y] + ["%s@%d%s" % (m.group(1), i, q) for i in range(1, max(1, (hi - lo).bit_length()))]
                val[y] = (m.group(1), lo, hi, sum((self.env[b] << i) if i else self.env[b].astype(int) for i, b in enumerate(bits)) + lo)
        for ref in names:
            if ref not in val:
                continue
            for sim in names:
                if sim == ref or sim not in val or not sim.endswith("'") or self.kind[sim[:-1]] != "e":
                    continue
                a, b = val[sim], val[ref]
                ok = self.trans & (a[3] <= a[2]) & (b[3] <= b[2])
                d = np.broadcast_to(a[3] - b[3], ok.shape)[ok]
                r = (2147483647, -2147483648) if not d.size else (int(d.min()), int(d.max()))
                out.append("%s'= %s%s + [%d,%d]" % (a[0], b[0], "'" if ref.endswith("'") else "", r[0], r[1]))
        return out


def rand_case(r):
    while True:
        nb, nc, nu, ne = r.choice([0, 1, 1, 2]), r.choice([0, 0, 0, 1]), r.choice([0, 1, 1, 2]), r.choice([1, 2, 2, 3])
        if nb + nc + nu + ne <= 6:
            break
    sp = {"b": ["obs%d" % i for i in range(nb)], "c": ["act%d" % i for i in range(nc)], "u": ["h%d" % i for i in range(nu)]}
    est = []
    style = r.choice(["plain", "plain", "int", "dots"])
    if style == "int" and ne >= 2:
        lo = r.choice([0, 0, 1, 3])
        p = r.choice(["min_", "max_", "", "min_"])
        two = ne == 3 or r.random() < 0.5
        if two:
            hi = lo + r.choice([2, 3])
            est = [p + "pos@0.%d.%d" % (lo, hi), p + "pos@1"]
        else:
            est = [p + "pos@0.%d.%d" % (lo, lo + r.choice([0, 1, 1]))]
        if ne - len(est):
            q = r.choice(["min_", "max_", ""])
            est.append(q + r.choice(["e", "e.1", "q@0.0.1", "q@0.2.3"]))
        if nb and r.random() < 0.5:
            sp["b"][0] = "z@0.0.1"
        if nb > 1 and r.random() < 0.5:
            sp["b"] = ["z@0.1.%d" % r.choice([3, 4]), "z@1"]
        if nu and r.random() < 0.3:
            sp["u"][0] = "h@0.1.2"
    else:
        est = [r.choice(["min_", "max_", "", ""]) + ("e.%d" % i if style == "dots" else "e%d" % i) for i in range(ne)]
    sp["e"] = est
    sp["order"] = list(SEC)
    r.shuffle(sp["order"])
    P = lambda ns: [n + "'" for n in ns]
    b, c, u, e = sp["b"], sp["c"], sp["u"], sp["e"]
    rf = lambda vs: rand_formula(r, vs, r.choice([1, 2, 3])) if r.random() < 0.4 else clause(r, vs, r.choice([1, 2, 2, 3]))
    f = {k: [] for k in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS")}
    pre = b + c + u + e
    if r.random() < 0.8 and b + c + u:
        f["ENV_INIT"].append(cube(b + c + u, [r.random() < 0.5 for _ in b + c + u]) if r.random() < 0.6 else rf(b + c + u))
    if r.random() < 0.8:
        f["SYS_INIT"].append(cube(e, [r.random() < 0.5 for _ in e]) if r.random() < 0.6 else rf(pre))
    for _ in range(r.choice([0, 1, 2, 3])):
        f["ENV_TRANS"].append(rf(pre + P(b + c + u)))
    for _ in range(r.choice([0, 1, 2, 2])):
        f["SYS_TRANS"].append(rf(pre + P(pre)))
    if u and r.random() < 0.6:
        # the estimate (partially) tracks the hidden state
        for x in r.sample(e, r.choice([1, min(2, len(e))])):
            h = r.choice(u)
            f["SYS_TRANS"].append(Or(Not(v(h + "'")), v(x + "'")) if r.random() < 0.5 else Or(v(h + "'"), Not(v(x + "'"))))
    if u and b and r.random() < 0.5:
        f["ENV_TRANS"].append(Not(("^", v(r.choice(b) + "'"), ("^", v(r.choice(u)), v(r.choice(P(u) + u))))))
    sp["f"] = f
    return sp


def render(r, sp):
    out = []
    fs = [(k, [text(x) for x in v_]) for k, v_ in sp["f"].items()]
    r.shuffle(fs)
    for k, body in [(k, sp[SEC[k]]) for k in sp["order"]] + fs:
        if body or r.random() < 0.3:
            out += ["[%s]" % k] + (["# note"] if r.random() < 0.1 else []) + body + [""]
    return "\n".join(out) + "\n"


class C28(Check):
    id = "C28"
    technique = "monitoring of the printed estimator constraints, warnings and difference table against an explicit-state reference on all assignments; the abstraction is fed back into slugs and the verdict compared; ASan/UBSan"
    rule = "random estimator models (up to 6 variables: observable, controllable, hidden, estimates with min_/max_ prefixes and integer encodings). Non-trivial: the system or the environment constraint is not constant; distinct by model."
    quick_n = 1000
    thorough_n = 30000
    min_nontrivial = 300

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        for k in range(6):
            sp = rand_case(r)
            e = Estimator(sp)
            e.solve()
            if (0 < e.sys.mean() < 1 and 0 < e.envass.mean() < 1) or r.random() < 0.1:
                break
        txt = render(r, sp)
        q = ctx.run(["--computeIncompleteInformationEstimator", "s.in"], {"s.in": txt})
        ctx.stats["minmax"] += any(x[:4] in ("min_", "max_") for x in sp["e"])
        ctx.stats["tightened"] += bool((e.sys != e.loose).any())
        ctx.stats["hidden"] += bool(sp["u"])
        ctx.stats["assignments compared"] += 2 * e.sys.size
        ctx.sample = {"model": txt[:600], "out": q.out[-300:]}
        if q.rc != 0:
            return ctx.viol("rejected", "rc %d\n%s\n%s" % (q.rc, q.err[-800:], txt))
        m = re.search(r"^\[SYS_TRANS\]\n(.*)\n\[ENV_TRANS\]\n(.*)$", q.out, re.M)
        if not m:
            return ctx.viol("format", "%s\n%s" % (q.out[-500:], txt))
        got = []
        for w in m.groups():
            try:
                got.append(e.full(parse_prefix(w)))
            except (KeyError, IndexError, ValueError) as x:
                return ctx.viol("format", "%r in %s\n%s" % (x, w, txt))
        for what, g, x in (("system", got[0], e.sys), ("environment", got[1], e.envass)):
            if (g != x).any():
                i = np.argwhere(g != x)[0]
                ctx.viol(what + "-constraint", "wrongly %s: %s\n%s\n%s" % ("allowed" if g[tuple(i)] else "forbidden", dict(zip(e.vars + [y + "'" for y in e.vars], i.tolist())), txt, q.out))
        if (0 < e.sys.mean() < 1) or (0 < e.envass.mean() < 1):
            ctx.nontrivial(txt)
        for key, exp, msg in (("environment-dead-end", e.envdead, "There are environment dead-ends"), ("system-dead-end", e.sysdead, "There are system dead-ends"),
                              ("no-initial-state", not e.init.any(), "There is no initial state")):
            ctx.stats[key] += exp
            if (msg in q.err) != exp:
                ctx.viol(key, "expected %s\n%s\n%s" % (exp, q.err, txt))
        d = e.diffs()
        tail = [l for l in q.err.split("Analysis (not considering the initial state):\n", 1)[-1].splitlines() if "'= " in l]
        ctx.stats["differences"] += len(d)
        if sorted(d) != sorted(tail):
            ctx.viol("difference-analysis", "expected %s got %s\n%s" % (d, tail, txt))
        self.feed(ctx, r, sp, e, m.groups(), txt)

    def feed(self, ctx, r, sp, e, lines, txt):
        """the abstraction is usable as part of a specification over the observable variables"""
        if not sp["b"] or len(sp["c"] + sp["e"] + sp["b"]) > 5 or any("@" in x for x in sp["b"] + sp["e"]):
            return
        s = Spec(sp["b"], sp["c"] + sp["e"])
        s.sys_live = [cube(r.sample(sp["e"], 1), [r.random() < 0.5])]
        s.env_trans, s.sys_trans = [parse_prefix(lines[1])], [parse_prefix(lines[0])]
        s.env_init = [cube(sp["b"], [r.random() < 0.5 for _ in sp["b"]])]
        s.sys_init = [cube(sp["e"], [r.random() < 0.5 for _ in sp["e"]])] if r.random() < 0.7 else []
        try:
            g = Game(s)
        except KeyError:
            return
        q = ctx.run(["s.slugsin"], {"s.slugsin": s.slugsin()})
        ctx.stats["fed back"] += 1
        if q.rc != 0 or q.verdict != g.realizable():
            ctx.viol("feedback", "rc %d verdict %s reference %s\n%s\nmodel:\n%s" % (q.rc, q.verdict, g.realizable(), s.slugsin(), txt))


check = C28()
