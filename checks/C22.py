"""C22: interesting runs and abstract winning traces."""
import re
import numpy as np
from vlib.harness import Check
from vlib.spec import *
from vlib import gen
from vlib.game import Game
from checks.C18 import int_groups

NONE = "There is no position that is winning for the system and that satisfies both the initialization assumptions and the initialization guarantees."


class C22(Check):
    id = "C22"
    technique = "monitoring of printed runs: every step, flag and ending replayed in an explicit-state game; abstract traces checked for a forcing strategy that stays inside the printed values; ASan/UBSan"
    rule = "random specifications (with integer-coded groups); interesting runs of up to 100 steps and abstract traces for both players. Non-trivial: a run of at least 3 steps in a game with losing positions, or a trace of at least 2 rounds; distinct by specification and output."
    quick_n = 2000
    thorough_n = 30000
    min_nontrivial = 200

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        run = r.random() < 0.6
        if idx < len(gen.EDGE):
            s = gen.EDGE[idx].copy()
        else:
            best = None
            for _ in range(5):
                s, g = gen.hard_spec(r, tries=3, plain_names=True)
                if not run:
                    # finite-time falsification needs safety parts that conflict
                    for _ in range(r.randint(0, 2)):
                        s.sys_trans.append(clause(r, s.inputs + s.outputs + [n + "'" for n in s.inputs + s.outputs], r.randint(1, 2)))
                    if r.random() < 0.4 and s.inputs:
                        for _ in range(2):
                            s.env_trans.append(clause(r, s.inputs + s.outputs + [n + "'" for n in s.inputs], r.randint(1, 2)))
                    g = Game(s)
                sc = (g.win() & g.env_init & g.sys_init).any() * 2 + g.mixed() if run else self.rounds(g)
                if best is None or sc > best[0]:
                    best = (sc, s)
                if sc >= 3:
                    break
            s = best[1]
        groups = {}
        if r.random() < 0.35:
            s, groups = int_groups(r, s)
        txt = s.slugsin()
        g = Game(s)
        if run:
            self.judge_run(ctx, s, g, txt, groups)
        else:
            self.judge_trace(ctx, s, g, txt, groups)

    # ------------------------------------------------------------------ interesting run
    def judge_run(self, ctx, s, g, txt, groups):
        q = ctx.run(["--computeInterestingRunOfTheSystem", "s.slugsin"], {"s.slugsin": txt}, timeout=60)
        if q.rc != 0:
            return ctx.viol("rc", "rc %d %s\n%s" % (q.rc, q.err[-400:], txt))
        W = g.win()
        start = W & g.env_init & g.sys_init
        if not start.any():
            ctx.stats["no start"] += 1
            if NONE not in q.out or "|" in q.out:
                ctx.viol("start", "run printed although no initial position is winning\n%s\n%s" % (txt, q.out[:800]))
            return
        lines = q.out.rstrip("\n").split("\n")
        h = [k for k, l in enumerate(lines) if l.startswith("Env.L.A.")]
        if NONE in q.out or len(h) != 1 or not lines[h[0] + 1].startswith("---"):
            return ctx.viol("start", "no run although a winning initial position exists\n%s\n%s" % (txt, q.out[:800]))
        rows = []
        end = None
        for l in lines[h[0] + 2:]:
            c = [x.strip() for x in l.split("|")]
            if end is not None:
                return ctx.viol("format", "row after the end: %r\n%s" % (l, q.out))
            if c[2].startswith("Env.Loses") or c[2].startswith("Sys.Loses"):
                end = c[2]
                continue
            m1, m2 = re.match(r"^(\d+)(\+?)$", c[0]), re.match(r"^(\d+)(\+?)$", c[1])
            if "violation" in l:
                return ctx.viol("violation-flag", "a safety violation is reported: %r\n%s\n%s" % (l, txt, q.out[:3000]))
            if len(c) != 4 or not m1 or not m2:
                return ctx.viol("format", "row %r\n%s\n%s" % (l, txt, q.out[:800]))
            val = {}
            for side, toks in ((s.inputs, c[2].split()), (s.outputs, c[3].split())):
                for t in toks:
                    m = re.match(r"^([^=!]+)=(-?\d+)$", t)
                    if m and m.group(1) in groups:
                        lo, bits = groups[m.group(1)]
                        for j, b in enumerate(bits):
                            val[b] = (int(m.group(2)) - lo) >> j & 1
                            if b not in side:
                                return ctx.viol("format", "%r on the wrong side: %r" % (t, l))
                    else:
                        n = t.lstrip("!")
                        if n not in side or n in val:
                            return ctx.viol("format", "unexpected %r in row %r\n%s" % (t, l, txt))
                        val[n] = int(not t.startswith("!"))
            if set(val) != set(s.inputs + s.outputs):
                return ctx.viol("format", "row %r gives values of %r only" % (l, sorted(val)))
            x = sum(val[n] << k for k, n in enumerate(s.inputs))
            y = sum(val[n] << k for k, n in enumerate(s.outputs))
            rows.append((x, y, int(m1.group(1)), bool(m1.group(2)), int(m2.group(1)), bool(m2.group(2))))
        if not rows:
            return ctx.viol("format", "no rows\n%s" % q.out)
        p = [x * g.O + y for x, y, *_ in rows]
        if not start[p[0]]:
            return ctx.viol("initial", "starts in %r, which is not initial and winning\n%s\n%s" % (g.posname(p[0]), txt, q.out[:800]))
        ei = si = 0
        seen, rounds = set(), 0
        for k in range(len(rows)):
            x, y, e, es, d, ds = rows[k]
            if (e, d) != (ei, si):
                return ctx.viol("goal-number", "row %d waits for assumption %d and guarantee %d, expected %d and %d\n%s\n%s" % (k, e, d, ei, si, txt, q.out[:3000]))
            if k + 1 == len(rows):
                break
            x2, y2 = rows[k + 1][:2]
            tr = (p[k], x2, y2)
            ctx.stats["steps judged"] += 1
            if not g.env_safe[tr]:
                return ctx.viol("assumption", "step %d violates the safety assumptions\n%s\n%s" % (k, txt, q.out[:3000]))
            if not g.sys_safe[tr]:
                return ctx.viol("guarantee", "step %d violates the safety guarantees\n%s\n%s" % (k, txt, q.out[:3000]))
            if not W[p[k + 1]]:
                return ctx.viol("losing", "step %d reaches a losing position\n%s\n%s" % (k, txt, q.out[:3000]))
            if es != bool(g.A[ei][tr]) or ds != bool(g.G[si][tr]):
                return ctx.viol("goal-mark", "step %d: marks %s/%s, but assumption %d is %s and guarantee %d is %s\n%s\n%s" % (k, es, ds, ei, g.A[ei][tr], si, g.G[si][tr], txt, q.out[:3000]))
            for i, A in enumerate(g.A):
                if A[tr]:
                    seen.add(i)
            if len(seen) == len(g.A):
                rounds += 1
                seen = set()
            ei = (ei + es) % len(g.A)
            if ds:
                si = (si + 1) % len(g.G)
                seen, rounds = set(), 0
                ctx.stats["goals reached"] += 1
            if rounds > g.N + 1:
                return ctx.viol("no-progress", "guarantee %d is not reached although all assumptions were met %d times\n%s\n%s" % (si, rounds, txt, q.out[:3000]))
        if end is None:
            if len(rows) < 3:
                return ctx.viol("short", "run ends after %d rows\n%s\n%s" % (len(rows), txt, q.out[:800]))
        elif end.startswith("Sys"):
            return ctx.viol("sys-loses", "the system loses a run from a winning position\n%s\n%s" % (txt, q.out[-800:]))
        elif g.env_safe[p[-1]].any():
            return ctx.viol("env-loses", "the environment has an allowed input left\n%s\n%s" % (txt, q.out[-800:]))
        ctx.stats["runs ending in an environment deadlock" if end else "full runs"] += 1
        if g.mixed() and len(rows) >= 3:
            ctx.nontrivial(txt)
        ctx.sample = {"spec": txt[:300], "run": q.out[:500]}

    # ------------------------------------------------------------------ abstract traces
    def layers(self, g, env):
        W = np.zeros(g.N, bool)
        ei = g.env_init.reshape(g.I, g.O).any(axis=1)
        n = 0
        while True:
            W2 = W | self.pre(g, env, W)
            n += 1
            if env:
                f = (ei & (~g.sys_init | W2).reshape(g.I, g.O).all(axis=1)).any()
            else:
                f = (~ei | (W2 & g.sys_init).reshape(g.I, g.O).any(axis=1)).all()
            if f:
                return n, W2
            if (W2 == W).all():
                return None, W
            W = W2

    def pre(self, g, env, W):
        if env:
            return (g.env_safe & (g.nxt(W) | ~g.sys_safe).all(axis=2, keepdims=True)).any(axis=(1, 2))
        return (~g.env_safe | (g.sys_safe & g.nxt(W))).any(axis=2).all(axis=1)

    def rounds(self, g):
        a, _ = self.layers(g, True)
        b, _ = self.layers(g, False)
        return (a or 0) + (b or 0)

    def judge_trace(self, ctx, s, g, txt, groups):
        q = ctx.run(["--computeAbstractWinningTrace", "s.slugsin"], {"s.slugsin": txt}, timeout=60)
        if q.rc != 0:
            return ctx.viol("rc", "rc %d %s\n%s" % (q.rc, q.err[-400:], txt))
        for env in (True, False):
            who = "environment" if env else "system"
            n, W = self.layers(g, env)
            title = "Abstract countertrace:" if env else "Abstract trace:"
            nostart = "There is no strategy for the %s" % who in q.out
            m = re.search(r"^%s\n((?:[+|].*\n)+)" % title, q.out, re.M)
            start = W & g.env_init & g.sys_init
            exp = "none" if n is None else "trace" if start.any() else "nostart"
            got = "trace" if m else "nostart" if nostart else "none"
            ctx.stats["%s: %s" % (who, exp)] += 1
            if exp != got or (m and nostart):
                ctx.viol("trace-" + who, "%s: %s, expected %s\n%s\n%s" % (who, got, exp, txt, q.out[:1500]))
                continue
            if not m:
                continue
            cols = None
            tab = {}
            for l in m.group(1).split("\n"):
                if not l.startswith("|"):
                    continue
                c = [x.strip() for x in l.strip().strip("|").split("|")]
                name, vals = c[0], [x for x in c[1:]][1:] if c[1] == "" else c[1:]
                if name == "Atomic prop./Round":
                    cols = vals
                else:
                    tab[name] = vals
            if cols != [str(k) for k in range(n + 1)]:
                ctx.viol("trace-rounds", "%s: rounds %r, expected 0..%d\n%s\n%s" % (who, cols, n, txt, q.out[:1500]))
                continue
            want = [x for x in s.inputs + s.outputs if "@" not in x] + list(groups)
            if sorted(tab) != sorted(want) or any(len(x) != n + 1 for x in tab.values()):
                ctx.viol("format", "table rows %r, expected %r\n%s" % (sorted(tab), want, q.out[:1500]))
                continue

            def cube(k):
                C = np.ones(g.N, bool)
                for nm, vals in tab.items():
                    t = vals[k]
                    if nm in groups:
                        lo, bits = groups[nm]
                        if t not in "*X":
                            for j, b in enumerate(bits):
                                e = g.env[b].reshape(g.N)
                                C = C & (e if (int(t) - lo) >> j & 1 else ~e)
                    elif t in "01":
                        e = g.env[nm].reshape(g.N)
                        C = C & (e if t == "1" else ~e)
                    elif t not in "*X":
                        return None
                return C
            cubes = [cube(k) for k in range(n + 1)]
            if any(c is None for c in cubes):
                ctx.viol("format", "cell\n%s" % q.out[:1500])
                continue
            if cubes[0].sum() != 1 or not start[np.argmax(cubes[0])]:
                ctx.viol("trace-start", "%s: round 0 is not one winning initial position\n%s\n%s" % (who, txt, q.out[:1500]))
                continue
            # backwards: positions of round k from which the player forces an end or a position of round k+1 inside the printed values
            R = np.zeros(g.N, bool)
            for k in range(n - 1, -1, -1):
                R = cubes[k] & self.pre(g, env, R)
            if not (R & cubes[0]).any():
                ctx.viol("trace-strategy", "%s: cannot force a win inside the printed values\n%s\n%s" % (who, txt, q.out[:2000]))
            # the last column of a countertrace names an input that wins in the last but one round wherever the strategy may be
            if env and not all(tab[x][n] == "X" for x in tab):
                F = np.ones(g.N, bool)
                S = cubes[0]
                last = cubes[n].reshape(g.I, g.O).any(axis=1)
                ok = (g.env_safe & (~g.sys_safe).all(axis=2, keepdims=True))[:, last, :].any(axis=(1, 2))
                # some forcing strategy inside the printed values must end in positions where such an input wins
                R = cubes[n - 1] & ok & self.pre(g, True, np.zeros(g.N, bool))
                for k in range(n - 2, -1, -1):
                    R = cubes[k] & (g.env_safe & (g.nxt(R) | ~g.sys_safe).all(axis=2, keepdims=True)).any(axis=(1, 2))
                ctx.stats["final inputs judged"] += 1
                if not (R & cubes[0]).any():
                    ctx.viol("trace-last-input", "the input of the last round does not win\n%s\n%s" % (txt, q.out[:2000]))
            if n >= 2:
                ctx.nontrivial(txt + who)
            ctx.stats["trace rounds %d" % min(n, 6)] += 1
            ctx.sample = {"spec": txt[:300], "trace": q.out[:600]}


check = C22()
