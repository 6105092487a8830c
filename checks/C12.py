"""C12: input formulas denote their documented functions; file-level structure."""
from vlib.harness import Check, Inconclusive
from vlib.spec import *
from vlib.game import Game
from vlib import gen, strat
from .C03 import noise

EXOTIC = ["x@0.1.6", "x@1", "a-b", "_", "v.1", "x[0]", "10", "00", "?x", "$1", "!n", "a=b", "INPUT]", "A" * 120, "z''z", "01", "r1,", "next(x)", "\u00e4\u00f6", "a&b", "a|b", "=", "==>", "-", "TRUE"]


def names(r, n, k0=0):
    out = []
    while len(out) < n:
        c = r.choice(EXOTIC) if r.random() < 0.25 else r.choice("abcdefgh") + r.choice(["", "", "1", "_2", "Long"])
        if c not in out:
            out.append(c)
    return out


def formula(r, vs, depth=None):
    return rand_mem_formula(r, vs, r.randint(1, 5) if depth is None else depth)


class C12(Check):
    id = "C12"
    rule = ("random formulas (nested buffers and recalls, all operators and constants, exotic variable names) placed in each section; the complete function denoted is recovered from the tool's own output - transition formulas from the permissive automaton's edges, "
            "environment formulas from the inputs it answers, initialisation formulas from the initial states, liveness formulas from the goal numbers - and compared with direct evaluation on every assignment; whole files with comments, blank lines, repeated and reordered sections "
            "are compared by verdict with the reference game. Non-trivial: the recovered function is not constant; distinct by formula.")
    quick_n = 1200
    thorough_n = 20000
    min_nontrivial = 300

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        m = r.choice(["sys", "sys", "env", "init", "live", "whole", "whole"])
        ctx.stats["mode " + m] += 1
        if m == "whole":
            return self.whole(ctx, r)
        n = r.randint(1, 3)
        ns = names(r, n + 2)
        ni = r.randint(0, n) if m != "env" else r.randint(1, n)
        I, O = ns[:ni], ns[ni:n]
        zz, yy = ns[n], ns[n + 1]
        s = Spec(I, O)
        s.outputs = O + [zz] + ([yy] if m == "live" else [])
        allv = I + O + post(I) + post(O)
        if m == "sys":
            F = [formula(r, allv) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            s.sys_trans = [("|", v(zz + "'"), f) for f in F]
        elif m == "env":
            F = [formula(r, I + O + post(I)) for _ in range(r.choice([1, 1, 2]))]
            s.env_trans = F
        elif m == "init":
            F = [formula(r, I) for _ in range(r.choice([0, 1, 2]))] if I else []
            F2 = [formula(r, I + O) for _ in range(r.choice([0, 1, 2]))]
            s.env_init, s.sys_init = F, [("|", v(zz), f) for f in F2]
        else:
            F = [formula(r, allv)]
            s.sys_live = [("|", v(zz + "'"), F[0]), v(yy + "'")]
        t = s.slugsin(omit_empty=r.random() < 0.5)
        if r.random() < 0.4:
            t = "\n".join(noise(r, t.split("\n")))
        if r.random() < 0.1:
            t = t.replace("\n", "\r\n")
        g = Game(s)
        opt = "--explicitStrategy" if m == "init" else "--extractExplicitPermissiveStrategy"
        q = ctx.run([opt, "s.slugsin"], {"s.slugsin": t})
        if q.rc != 0 or q.verdict is not True:
            return ctx.viol("rejected:" + m, "rc=%d verdict=%s %s\n%s" % (q.rc, q.verdict, q.err[-300:], t))
        try:
            st, order = (strat.parse_text if m == "init" else strat.parse_permissive)(q.out)
            pos = strat.positions(g, st) if st else {}
        except (strat.FormatError, ValueError) as e:
            return ctx.viol("format", "%s\n%s\n%s" % (e, t, q.out[:500]))

        def fail(what, m_):
            ctx.viol("wrong-function:" + what, "%s\n%s\n%s" % (m_, t, q.out[:1500]))
        if m == "init":
            want = {p for p in range(g.N) if g.env_init[p] and g.sys_init[p]}
            got = {pos[k] for k in range(len(want)) if k in pos}
            if got != want or (not want and st):
                return fail("init", "initial states %r expected %r" % (sorted(got), sorted(want)))
            if 0 < len(want) < g.N:
                ctx.nontrivial(t)
        else:
            seen = 0
            for n_, (rank, d, succ) in st.items():
                p = pos[n_]
                dest = {pos[x]: st[x][0] for x in succ}
                for x in range(g.I):
                    al = bool(g.env_safe[p, x].any())
                    for y in range(g.O):
                        tgt = x * g.O + y
                        if m == "live":
                            if rank != 0:
                                continue
                            exp = bool(g.G[0][p, x, y])
                            both = exp and bool(g.G[1][p, x, y])
                            if (tgt in dest) != exp or (exp and dest[tgt] != (0 if both else 1)):
                                return fail("liveness", "transition %r -> %r (goal 0 %s)" % (d, g.posname(tgt), exp))
                        else:
                            exp = al and bool(g.sys_safe[p, x, y])
                            if (tgt in dest) != exp:
                                return fail(m, "transition %r -> %r should be %s" % (d, g.posname(tgt), "allowed" if exp else "forbidden"))
                        seen += exp
            ctx.stats["transitions compared"] += len(st) * g.I * g.O
            if 0 < seen < len(st) * g.I * g.O:
                ctx.nontrivial(t)
        ctx.sample = {"mode": m, "file": t[:400]}

    def whole(self, ctx, r):
        ns = names(r, 5)
        ni = r.randint(0, 3)
        no = r.randint(0 if ni else 1, 3)
        ns = names(r, ni + no)
        I, O = ns[:ni], ns[ni:]
        s = Spec(I, O)
        allv = I + O + post(I) + post(O)
        ev = I + O + post(I)
        D = r.choice([1, 2, 3])
        s.env_init = [formula(r, I, D) for _ in range(r.choice([0, 1]))] if I else []
        s.sys_init = [formula(r, I + O, D) for _ in range(r.choice([0, 1, 1]))]
        s.env_trans = [("|", formula(r, ev, D), clause(r, ev, 2)) for _ in range(r.choice([0, 1, 2]))]
        s.sys_trans = [("|", formula(r, allv, D), clause(r, allv, 2)) for _ in range(r.choice([0, 1, 2]))]
        s.env_live = [formula(r, allv, D) for _ in range(r.choice([0, 1, 2]))]
        s.sys_live = [formula(r, allv, D) for _ in range(r.choice([1, 1, 2, 3]))]
        # repeated and interleaved sections, declarations before uses
        chunks = [("INPUT", [n]) for n in I] + [("OUTPUT", [n]) for n in O]
        if r.random() < 0.5:
            chunks = [("INPUT", I), ("OUTPUT", O)]
        r.shuffle(chunks)
        rest = [(k, [text(f)]) for k, l in s.parts().items() for f in l]
        r.shuffle(rest)
        lines = []
        last = None
        for k, body in chunks + rest:
            if k != last or r.random() < 0.3:
                lines.append("[%s]" % k)
                last = k
            lines += body
            if r.random() < 0.1:
                lines.append("[%s]" % r.choice(SECTIONS))
                last = None
        t = "\n".join(noise(r, lines)) + r.choice(["", "\n", "\n\n#end"])
        g = Game(s)
        rob = r.random() < 0.3
        q = ctx.run((["--sysInitRoboticsSemantics"] if rob else []) + ["s.slugsin"], {"s.slugsin": t})
        exp = g.realizable_robotics() if rob else g.realizable()
        ctx.stats["whole files: realizable" if exp else "whole files: unrealizable"] += 1
        if q.rc != 0 or q.verdict is None:
            return ctx.viol("rejected:whole", "rc=%d %s\n%s" % (q.rc, q.err[-300:], t))
        if g.mixed():
            ctx.nontrivial(t)
        if q.verdict != exp:
            ctx.viol("verdict", "tool %s reference %s\n%s" % (q.verdict, exp, t))


check = C12()
