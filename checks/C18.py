"""C18: initial-position analysis."""
import re
import numpy as np
from vlib.harness import Check
from vlib.spec import *
from vlib import gen
from vlib.game import Game

SETS = ["winning positions", "non-winning positions", "winning positions satisfying the initialization assumptions", "non-winning positions satisfying the initialization assumptions",
        "winning positions satisfying the initialization guarantees", "non-winning positions satisfying the initialization guarantees",
        "winning positions satisfying the initialization assumptions & guarantees", "non-winning positions satisfying the initialization assumptions & guarantees"]
COUNTS = ["winning positions", "winning positions satisfying the initialization assumptions", "winning positions satisfying the initialization guarantees", "winning positions satisfying the initialization assumptions and guarantees",
          "initial input assignments that are allowed for the environment", "initial input assignments that force the system to move to a losing position"]


def int_groups(r, s):
    """renames some variables to the bits of one or two encoded integers: (spec, {name: (lo, bit names)})"""
    ren, groups = {}, {}
    sides = [L for L in (s.inputs, s.outputs) if L]
    heads = r.sample(["num", "num2", "nu", "pos"], 2)
    r.shuffle(sides)
    for L, head in zip(sides[:r.choice([1, 1, 2])], heads):
        k = len(L) if r.random() < 0.4 else r.randint(1, len(L))
        start = r.randint(0, len(L) - k)
        lo = r.choice([0, 0, 1, 5])
        bits = ["%s@0.%d.%d" % (head, lo, lo + (1 << k) - 1) if j == 0 else "%s@%d" % (head, j) for j in range(k)]
        ren.update(zip(L[start:start + k], bits))
        groups[head] = (lo, bits)
    return (rename(s, ren), groups) if ren else (s, {})


class C18(Check):
    id = "C18"
    technique = "monitoring of the report: counts and cubes recomputed from the explicit game, ASan/UBSan"
    rule = ("random specifications, with and without --restrictToReachableStates, with and without variable-limit comments and integer-coded variable groups; all reported counts and every printed cube are recomputed from the explicit game. Non-trivial: both winning and losing positions exist in the analysed set; distinct by specification.")
    quick_n = 1200
    thorough_n = 20000
    min_nontrivial = 250

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        if idx < len(gen.EDGE):
            s = gen.EDGE[idx].copy()
        else:
            s, _ = gen.hard_spec(r, tries=5, plain_names=True)
        # integer-coded groups: rename some variables of one kind
        groups = {}
        if r.random() < 0.4:
            s, groups = int_groups(r, s)
        lines = s.slugsin().rstrip("\n").split("\n")
        limits = []
        restrict = r.random() < 0.45
        if r.random() < 0.25:
            sec, ins = None, []
            for k, l in enumerate(lines):
                if l.startswith("["):
                    sec = l
            f = rand_formula(r, s.inputs, 2) if r.random() < 0.5 and s.inputs else rand_formula(r, s.inputs + s.outputs, 2)
            onlyin = not (vars_of(f) - set(s.inputs))
            sec = "ENV_INIT" if onlyin and r.random() < 0.6 else "SYS_INIT"
            (s.env_init if sec == "ENV_INIT" else s.sys_init).append(f)
            limits.append(f)
            lines = s.slugsin().rstrip("\n").split("\n")
            k = max(i for i, l in enumerate(lines) if l == "[%s]" % sec)
            while k + 1 < len(lines) and lines[k + 1] != "":
                k += 1
            assert lines[k] == text(f)
            lines.insert(k, "## Variable limits: something")
        txt = "\n".join(lines) + "\n"
        g = Game(s)
        q = ctx.run(["--analyzeInitialPositions"] + (["--restrictToReachableStates"] if restrict else []) + ["s.slugsin"], {"s.slugsin": txt}, timeout=40)
        if q.rc != 0:
            return ctx.viol("rc", "rc %d %s\n%s" % (q.rc, q.err[-400:], txt))
        W = g.win()
        L = g.conj(limits).any(axis=(1, 2)) if limits else np.ones(g.N, bool)
        EI = g.env_init
        SI = g.sys_init
        if restrict:
            R = EI & SI
            step = g.env_safe & g.sys_safe
            while True:
                R2 = R | step[R].any(axis=0).reshape(g.N) if R.any() else R
                if (R2 == R).all():
                    break
                R = R2
            L = L & R
        byin = lambda a: a.reshape(g.I, g.O).any(axis=1)
        Lin = byin(L)
        EIin = byin(EI)
        exp = [(int((W & L & e).sum()), int((L & e).sum())) for e in (np.ones(g.N, bool), EI, SI, EI & SI)]
        exp.append((int((EIin & Lin).sum()), int(Lin.sum())))
        exp.append((int((EIin & Lin & ~byin(W & SI)).sum()), int(Lin.sum())))
        for name, (a, b) in zip(COUNTS, exp):
            m = re.search(r"^Number of %s: (\S+) out of (\S+)$" % re.escape(name), q.out, re.M)
            if not m:
                return ctx.viol("format", "no count of %s\n%s\n%s" % (name, txt, q.out))
            try:
                got = (float(m.group(1)), float(m.group(2)))
            except ValueError:
                got = None
            if got != (a, b):
                return ctx.viol("count:" + name.replace(" ", "-"), "%s: reported %s out of %s, expected %d out of %d%s\n%s\n%s" % (name, m.group(1), m.group(2), a, b, " (restricted)" if restrict else "", txt, q.out))
            ctx.stats["counts compared"] += 1
        regs = [W, ~W, W & EI, ~W & EI, W & SI, ~W & SI, W & EI & SI, ~W & EI & SI]
        trap = W & ~g.env_safe.any(axis=(1, 2))
        secs = re.split(r"^Some ", q.out, flags=re.M)[1:]
        want = [("cubes of %s: " % n, z) for n, z in zip(SETS, regs)] + [("positions from which the environment player cannot prevent to violate some safety assumptions:", trap)]
        if len(secs) != len(want):
            return ctx.viol("format", "%d cube lists\n%s" % (len(secs), q.out))
        for t, (name, Z) in zip(secs, want):
            h, *ls = t.rstrip("\n").split("\n")
            if h.strip() != name.strip():
                return ctx.viol("format", "list %r, expected %r" % (h, name))
            key = name.split(":")[0].replace(" ", "-")[:60]
            if (Z | ~L).all():
                ok = ls == ["- TRUE"]
            elif not (Z & L).any():
                ok = ls == ["--(none)"]
            else:
                ok = 0 < len(ls) <= 7 and not any(l in ("- TRUE", "--(none)") for l in ls) and len(set(ls)) == len(ls)
                if ok:
                    for l in ls:
                        w = l.split()
                        if w[0] != "-":
                            ok = False
                            break
                        C = np.ones(g.N, bool)
                        for t2 in w[1:]:
                            m = re.match(r"^([^=]+)=(-?\d+)$", t2)
                            if m and m.group(1) in groups:
                                lo, bits = groups[m.group(1)]
                                val = int(m.group(2)) - lo
                                # free bits are shown as zero: only bits printed as one are known, so the true cube contains this value
                                for j, bname in enumerate(bits):
                                    e = g.env[bname].reshape(g.N)
                                    C = C & (e if val >> j & 1 else ~e)
                            else:
                                neg = t2.startswith("!")
                                if t2[neg:] not in g.env:
                                    return ctx.viol("literal", "%r\n%s" % (l, txt))
                                e = g.env[t2[neg:]].reshape(g.N)
                                C = C & (~e if neg else e)
                        if (C & L & ~Z).any():
                            return ctx.viol("cube:" + key, "cube %r of %r contains position %r%s\n%s\n%s" % (l, name, g.posname(int(np.argwhere(C & L & ~Z)[0][0])), " (restricted)" if restrict else "", txt, q.out))
                        if not (C & L).any() and not groups:
                            return ctx.viol("empty-cube:" + key, "cube %r of %r contains no analysed position\n%s\n%s" % (l, name, txt, q.out))
                        ctx.stats["cubes judged"] += 1
            if not ok:
                return ctx.viol("list:" + key, "list %r = %r, expected region size %d of %d\n%s\n%s" % (name, ls, int((Z & L).sum()), int(L.sum()), txt, q.out))
        if (W & L).any() and (~W & L).any():
            ctx.nontrivial(txt + str(restrict))
        ctx.stats["restricted" if restrict else "unrestricted"] += 1
        ctx.sample = {"spec": txt[:300], "report": q.out[:500]}


def vars_of(f):
    if f[0] == "v":
        return {f[1]}
    if f[0] == "$":
        return set().union(*[vars_of(x) for x in f[1]])
    if f[0] == "?":
        return set()
    return set().union(*[vars_of(x) for x in f[1:]]) if len(f) > 1 else set()


def rename_f(f, ren):
    if f[0] == "v":
        n = f[1]
        p = n.endswith("'")
        b = n[:-1] if p else n
        return v(ren.get(b, b) + ("'" if p else ""))
    if f[0] == "$":
        return ("$", [rename_f(x, ren) for x in f[1]])
    if f[0] == "?":
        return f
    return (f[0],) + tuple(rename_f(x, ren) for x in f[1:])


def rename(s, ren):
    q = Spec([ren.get(n, n) for n in s.inputs], [ren.get(n, n) for n in s.outputs])
    for a in ("env_init", "sys_init", "env_trans", "sys_trans", "env_live", "sys_live"):
        setattr(q, a, [rename_f(f, ren) for f in getattr(s, a)])
    return q


check = C18()
