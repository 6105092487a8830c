"""C26: synthesis over a nondeterministic motion abstraction."""
import numpy as np
from vlib.harness import Check
from vlib.spec import *
from vlib import ddwrite


class MotionGame:
    """positions: inputs x, motion state m, other outputs o; a step: environment picks x', system picks motion command c' and o', then m' is picked among the
    results that the abstraction allows for (m, c')"""
    def __init__(self, sp):
        self.sp = sp
        nx, nm, no, nc = len(sp["x"]), len(sp["m"]), len(sp["o"]), len(sp["c"])
        X, M, O, C = 1 << nx, 1 << nm, 1 << no, 1 << nc
        self.dim = (X, M, O, X, C, O, M)          # x m o x' c' o' m'
        env = {"#1": np.ones((1,) * 7, bool)}

        def axis(a, k):
            v = ((np.arange(self.dim[a]) >> k) & 1).astype(bool)
            return v.reshape(tuple(self.dim[a] if i == a else 1 for i in range(7)))
        for grp, pre, post in (("x", 0, 3), ("m", 1, 6), ("o", 2, 5), ("c", None, 4)):
            for k, n in enumerate(sp[grp]):
                if pre is not None:
                    env[n] = axis(pre, k)
                env[n + "'"] = axis(post, k)
        for n, ms in sp["regions"].items():
            t = np.zeros(M, bool)
            t[list(ms)] = True
            env[n] = t.reshape(1, M, 1, 1, 1, 1, 1)
            env[n + "'"] = t.reshape(1, 1, 1, 1, 1, 1, M)
        R = np.zeros((M, C, M), bool)
        for m, c, m2 in sp["robot"]:
            R[m, c, m2] = True
        self.R = R.reshape(1, M, 1, 1, C, 1, M)
        self.allowed = R.any(axis=2).reshape(1, M, 1, 1, C, 1, 1)
        diff = ~np.eye(M, dtype=bool)
        can = (R & diff.reshape(M, 1, M)).any(axis=2).reshape(1, M, 1, 1, C, 1, 1)
        self.auto = ~can | diff.reshape(1, M, 1, 1, 1, 1, M)
        self.env = env
        one = np.ones((1,) * 7, bool)

        def conj(fs):
            r = one
            for f in fs:
                r = r & evalf(f, env)
            return r
        f = sp["f"]
        self.S, self.E = conj(f["SYS_TRANS"]), conj(f["ENV_TRANS"])
        self.A = [evalf(x, env) & one for x in f["ENV_LIVENESS"]] + [self.auto]
        self.G = [evalf(x, env) & one for x in f["SYS_LIVENESS"]] or [one]
        pos = (X, M, O, 1, 1, 1, 1)
        self.ei = np.broadcast_to(conj(f["ENV_INIT"]), pos).reshape(X, M, O)
        self.si = np.broadcast_to(conj(f["SYS_INIT"]), pos).reshape(X, M, O)
        self.P = (X, M, O)

    def nxt(self, Z):
        return Z.transpose(0, 2, 1).reshape(1, 1, 1, self.P[0], 1, self.P[2], self.P[1])

    def cpre(self, T):
        T = T & self.S | ~self.E
        ok = (~self.R | T).all(axis=6, keepdims=True) & self.allowed
        ok = ok.any(axis=(4, 5), keepdims=True) | (~self.E).all(axis=(5, 6), keepdims=True)
        return np.broadcast_to(ok.all(axis=3), self.P + (1, 1, 1)).reshape(self.P)

    def win(self):
        Z = np.ones(self.P, bool)
        self.its = 0
        while True:
            N = Z.copy()
            for G in self.G:
                Y = np.zeros(self.P, bool)
                while True:
                    base = (G & self.nxt(Z)) | self.nxt(Y)
                    N2 = Y.copy()
                    for A in self.A:
                        Xs = np.ones(self.P, bool)
                        while True:
                            self.its += 1
                            X2 = self.cpre(base | (~A & self.nxt(Xs)))
                            if (X2 == Xs).all():
                                break
                            Xs = X2
                        N2 |= Xs
                    if (N2 == Y).all():
                        break
                    Y = N2
                N &= Y
            if (N == Z).all():
                return Z
            Z = N

    def realizable(self, W):
        e, ok = self.ei.any(axis=(1, 2)), (W & self.si & self.ei).any(axis=(1, 2))
        return bool((~e | ok).all())

    def realizable_robotics(self, W):
        return bool((~self.ei | W).all())


def rand_case(r):
    nm = r.choice([1, 1, 2, 2, 3])
    nx, no, nc = r.choice([0, 1, 1, 2]), r.choice([0, 0, 1]), r.choice([0, 1, 1, 2])
    nx = min(nx, 5 - nm - no)
    sp = {"x": ["ia", "ib"][:nx], "m": ["p%d" % k for k in range(nm)], "o": ["oa"][:no], "c": ["u%d" % k for k in range(nc)], "regions": {}}
    M, C = 1 << nm, 1 << nc
    robot = set()
    style = r.choice(["graph", "random", "dense"])
    for m in range(M):
        for c in range(C):
            if style == "random":
                s = [t for t in range(M) if r.random() < 0.4]
            elif style == "dense":
                s = [t for t in range(M) if r.random() < 0.7]
            else:
                s = [] if r.random() < 0.12 else [r.randrange(M)]
                if s and r.random() < 0.4:
                    s.append(m)
                if s and r.random() < 0.2:
                    s.append(r.randrange(M))
            robot |= {(m, c, t) for t in s}
    sp["robot"] = sorted(robot)
    for n in ["Region1", "home", "R"][:r.choice([0, 1, 1, 2])]:
        sp["regions"][n] = sorted(set(r.randrange(M) for _ in range(r.choice([1, 2, M]))))
    P = lambda ns: [n + "'" for n in ns]
    reg = list(sp["regions"])
    pre = sp["x"] + sp["m"] + sp["o"] + reg
    sysv = pre + P(sp["x"]) + P(sp["c"]) + P(sp["o"]) + P(sp["m"]) + P(reg)
    f = {k: [] for k in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS")}
    rf = lambda vs: rand_formula(r, vs, r.choice([1, 2, 3])) if r.random() < 0.5 else clause(r, vs, r.choice([1, 2, 2, 3]))
    if r.random() < 0.5 and sp["x"]:
        f["ENV_INIT"].append(rf(sp["x"]))
    if r.random() < 0.1:
        f["ENV_INIT"].append(rf(pre))
    for _ in range(r.choice([0, 0, 1, 2])):
        f["SYS_INIT"].append(rf(pre))
    for _ in range(r.choice([0, 1, 1, 2])):
        f["ENV_TRANS"].append(rf(pre + P(sp["x"])))
    if r.random() < 0.08:
        f["ENV_TRANS"].append(rf(pre + P(sp["x"]) + P(sp["m"]) + P(sp["o"])))
    for _ in range(r.choice([0, 1, 1, 2])):
        f["SYS_TRANS"].append(rf(sysv))
    if r.random() < 0.3:
        # a state to be avoided
        f["SYS_TRANS"].append(Not(cube(sp["m"], [r.random() < 0.5 for _ in sp["m"]])))
    for _ in range(r.choice([0, 0, 1, 2])):
        f["ENV_LIVENESS"].append(rf(pre + P(sp["x"])))
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        f["SYS_LIVENESS"].append(cube(r.choice([sp["m"], P(sp["m"])]), [r.random() < 0.5 for _ in sp["m"]]) if r.random() < 0.5 else rf(sysv))
    sp["f"] = f
    return sp


def render(r, sp):
    files = {}
    nm, nc = len(sp["m"]), len(sp["c"])
    val = lambda bits: sum(1 << (len(bits) - 1 - k) for k, b in enumerate(bits) if b)     # files list the last declared variable first
    rob = set(sp["robot"])
    files["robot.bdd"] = ddwrite.write(lambda b: (val(b[:nm]), val(b[nm:nm + nc]), val(b[nm + nc:])) in rob, 2 * nm + nc)
    out = []
    secs = [("INPUT", sp["x"]), ("MOTION STATE OUTPUT", sp["m"]), ("MOTION CONTROLLER OUTPUT", sp["c"]), ("OTHER OUTPUT", sp["o"])]
    r.shuffle(secs)
    regs = []
    for n, ms in sp["regions"].items():
        files[n + ".bdd"] = ddwrite.write(lambda b, ms=set(ms): val(b) in ms, nm)
        regs.append("%s %s.bdd" % (n, n))
    fs = [(k, [text(x) for x in v_]) for k, v_ in sp["f"].items()]
    r.shuffle(fs)
    for k, b in secs + [("ABSTRACTION_REGION_BDDS", regs)] + fs:
        if b or r.random() < 0.3:
            out += ["[%s]" % k] + b + [""]
    files["s.slugsin"] = "\n".join(out) + "\n"
    return files


class C26(Check):
    id = "C26"
    technique = "monitoring of verdicts against an explicit-state solver of the game with a nondeterministic motion abstraction; generated decision diagram files; ASan/UBSan"
    rule = "random motion abstractions (1-3 motion bits, 0-2 command bits; dead ends, stuttering, nondeterminism), regions given as diagram files, random conditions, both initialisation semantics. Non-trivial: the winning region is neither empty nor everything; distinct by specification and abstraction."
    quick_n = 2500
    thorough_n = 25000
    min_nontrivial = 150

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        best = None
        for _ in range(6):
            sp = rand_case(r)
            g = MotionGame(sp)
            W = g.win()
            sc = (0 < W.sum() < W.size) * 3 + min(g.its, 40) / 20.0
            if best is None or sc > best[0]:
                best = (sc, sp, g, W)
            if r.random() < 0.3:
                break
        _, sp, g, W = best
        rob = r.random() < 0.35
        if rob or r.random() < 0.5:
            # let the verdict hinge on few positions
            X, M, O = g.P
            wx = [x for x in range(X) if (W[x].all() if rob else W[x].any())]
            if wx and sp["x"]:
                xs = wx if r.random() < 0.6 else wx + [r.randrange(X)]
                sp["f"]["ENV_INIT"] = [table_formula(sp["x"], lambda b: T if sum(t << i for i, t in enumerate(b)) in xs else F)]
            if not rob and r.random() < 0.5:
                P = [tuple(p) for p in np.argwhere(W) if r.random() < 0.6] + [tuple(p) for p in np.argwhere(~W) if r.random() < 0.6]
                al = sp["x"] + sp["m"] + sp["o"]
                nx, nm = len(sp["x"]), len(sp["m"])
                num = lambda b: sum(t << i for i, t in enumerate(b))
                sp["f"]["SYS_INIT"] = [table_formula(al, lambda b: T if (num(b[:nx]), num(b[nx:nx + nm]), num(b[nx + nm:])) in P else F)]
            g = MotionGame(sp)
        exp = g.realizable_robotics(W) if rob else g.realizable(W)
        files = render(r, sp)
        if r.random() < 0.04:
            return self.unusable(ctx, r, files)
        q = ctx.run(["--nonDeterministicMotion"] + (["--sysInitRoboticsSemantics"] if rob else []) + ["s.slugsin", "robot.bdd"], files)
        ctx.stats["robotics" if rob else "standard"] += 1
        ctx.stats["realizable" if exp else "unrealizable"] += 1
        ctx.stats["with other outputs"] += bool(sp["o"])
        ctx.stats["with regions"] += bool(sp["regions"])
        ctx.stats["positions decided"] += int(W.size)
        key = files["s.slugsin"] + repr(sp["robot"])
        if 0 < W.sum() < W.size:
            ctx.nontrivial(key)
        ctx.sample = {"spec": files["s.slugsin"][:500], "robot": sp["robot"][:20], "verdict": exp}
        if q.rc != 0 or q.verdict != exp:
            ctx.viol("verdict" if q.rc == 0 else "rejected", "rc %d verdict %s reference %s (%d of %d positions winning)\nrobot %r regions %r rob=%s\n%s\n%s" % (q.rc, q.verdict, exp, W.sum(), W.size, sp["robot"], sp["regions"], rob, files["s.slugsin"], q.err[-400:]))

    def unusable(self, ctx, r, files):
        """unreadable or unsuitable diagram files end in an error report"""
        f = r.choice([x for x in files if x.endswith(".bdd")])
        how = r.choice(["empty", "text", "cut", "missing", "too many variables"])
        if how == "empty":
            files[f] = ""
        elif how == "text":
            files[f] = "no diagram\n"
        elif how == "cut":
            files[f] = "\n".join(files[f].split("\n")[:-3]) + "\n"
        elif how == "missing":
            del files[f]
        else:
            files[f] = ddwrite.write(lambda b: b[0] != b[1], 2, [0, r.choice([13, 40, 1000])])
        q = ctx.run(["--nonDeterministicMotion", "s.slugsin", "robot.bdd"], files)
        ctx.stats["diagram file: " + how] += 1
        if q.rc != 1 or q.verdict is not None or "Error" not in q.err:
            ctx.viol("unusable-file", "%s %s: rc %d %s" % (f, how, q.rc, q.err[-500:]))


check = C26()
