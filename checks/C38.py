"""C38: translators between specification formats (tools/translate*.py, Python 2 scripts run by Jython)."""
import itertools
import numpy as np
from vlib import py2, gen
from vlib.harness import Check
from vlib.spec import *
from vlib.game import Game


# ------------------------------------------------------------------ AIGER (ASCII), read strictly
class Aag:
    def __init__(self, txt):
        ls = txt.split("\n")
        h = ls[0].split(" ")
        if h[0] != "aag" or len(h) != 6:
            raise ValueError("header " + ls[0])
        self.M, I, L, O, A = map(int, h[1:])
        p, vals = 1, []
        for n, k in ((I, 1), (L, 2), (O, 1), (A, 3)):
            part = []
            for l in ls[p:p + n]:
                t = l.split(" ")
                if len(t) != k or not all(x.isdigit() for x in t):
                    raise ValueError("line '%s' has not %d numbers" % (l, k))
                part.append([int(x) for x in t])
            if len(part) != n:
                raise ValueError("too few lines")
            p += n
            vals.append(part)
        self.inputs, self.latches, self.outputs, ands = [x[0] for x in vals[0]], vals[1], [x[0] for x in vals[2]], vals[3]
        defs = [0] + self.inputs + [l[0] for l in self.latches] + [a[0] for a in ands]
        if len(set(defs)) != len(defs) or any(x & 1 for x in defs):
            raise ValueError("a variable is defined twice or with an odd literal")
        used = [l[1] for l in self.latches] + self.outputs + [x for a in ands for x in a[1:]]
        if not set(x & ~1 for x in used) <= set(defs):
            raise ValueError("literals without a definition: %s" % sorted(set(x & ~1 for x in used) - set(defs)))
        if max(used + defs) > 2 * self.M + 1:
            raise ValueError("literal above the maximum of the header")
        # order of the gates
        known, rest, self.ands = set(defs) - {a[0] for a in ands}, ands, []
        while rest:
            now = [a for a in rest if a[1] & ~1 in known and a[2] & ~1 in known]
            if not now:
                raise ValueError("the gates have a cycle")
            self.ands += now
            known |= {a[0] for a in now}
            rest = [a for a in rest if a[0] not in known]
        self.sym = {}
        while p < len(ls) and ls[p] != "c":
            k, n = ls[p].split(" ", 1)
            if k in self.sym:
                raise ValueError("symbol %s twice" % k)
            self.sym[k] = n
            p += 1

    def step(self, state, inputs):
        """state, inputs: lists of bits; returns outputs, next state (works on arrays, too)"""
        v = {0: 0}
        for l, x in zip(self.inputs, inputs):
            v[l] = x
        for l, x in zip(self.latches, state):
            v[l[0]] = x
        val = lambda q: v[q & ~1] ^ (q & 1)
        for o, a, b in self.ands:
            v[o] = val(a) & val(b)
        return [val(o) for o in self.outputs], [val(l[1]) for l in self.latches]

    def winnable(self, controllable):
        """Can the controllable inputs keep the output down, seeing the other inputs first?"""
        n = len(self.latches)
        C = [i for i, c in enumerate(controllable) if c]
        U = [i for i, c in enumerate(controllable) if not c]
        start, moves, todo = (0,) * n, {}, [(0,) * n]
        while todo:
            s = todo.pop()
            if s in moves:
                continue
            rows = []
            for u in itertools.product((0, 1), repeat=len(U)):
                row = set()
                for c in itertools.product((0, 1), repeat=len(C)):
                    x = [0] * len(controllable)
                    for i, b in zip(U, u):
                        x[i] = b
                    for i, b in zip(C, c):
                        x[i] = b
                    o, t = self.step(s, x)
                    if not o[0]:
                        row.add(tuple(t))
                rows.append(row)
                todo += [t for t in row if t not in moves]
            moves[s] = rows
        bad, change = set(), True
        while change:
            change = False
            for s, rows in moves.items():
                if s not in bad and any(row <= bad for row in rows):
                    bad.add(s)
                    change = True
        return start not in bad, len(moves)


# ------------------------------------------------------------------ infix formulas: ('v',n) ('!',f) ('X',f) ('&',..) ('|',..) ('->',a,b) ('<->',a,b) ('T',) ('F',)
PREC = {"<->": 0, "->": 1, "|": 2, "&": 3}


def rand_infix(r, cur, nxt, depth):
    """cur: variables usable as they are; nxt: those usable below a next operator"""
    q = r.random()
    if depth <= 0 or q < 0.2:
        if q < 0.02:
            return ("T",) if r.random() < 0.5 else ("F",)
        if nxt and (not cur or r.random() < 0.4):
            return ("X", rand_infix(r, nxt, [], r.choice([0, 0, 1, 2])))
        return ("v", r.choice(cur)) if cur else ("T",)
    if q < 0.35:
        return ("!", rand_infix(r, cur, nxt, depth - 1))
    if q < 0.45 and nxt:
        return ("X", rand_infix(r, nxt, [], depth - 1))
    o = r.choice(["&", "&", "|", "|", "->", "<->"])
    k = 2 if o in ("->", "<->") else r.choice([2, 2, 3, 4])
    return (o,) + tuple(rand_infix(r, cur, nxt, depth - 1) for _ in range(k))


def value(f, env, q=""):
    o = f[0]
    if o == "T":
        return env["#1"]
    if o == "F":
        return ~env["#1"]
    if o == "v":
        return env[f[1] + q]
    if o == "!":
        return ~value(f[1], env, q)
    if o == "X":
        return value(f[1], env, "'")
    xs = [value(x, env, q) for x in f[1:]]
    if o == "->":
        return ~xs[0] | xs[1]
    if o == "<->":
        return ~(xs[0] ^ xs[1])
    r = xs[0]
    for x in xs[1:]:
        r = r & x if o == "&" else r | x
    return r


class Printer:
    def __init__(self, r, ops, atom, sep, neg=None):
        self.r, self.ops, self.atom, self.sep, self.neg = r, ops, atom, sep, neg

    def sp(self, must=False):
        return self.r.choice(self.sep if not must else [x for x in self.sep if x])

    def p(self, f, need=-1):
        """need: binding strength of the context; 9 for operands of unary operators"""
        o, r = f[0], self.r
        if o in "TF":
            return self.ops[o]
        if o == "v":
            return self.par(self.atom(f[1])) if r.random() < 0.1 else self.atom(f[1])
        if o == "!" and f[1][0] == "v" and self.neg and r.random() < 0.6:
            return self.neg(f[1][1])
        if o in "!XGA":
            t = r.choice(self.ops[o])
            x = self.p(f[1], 9)
            s = t + (self.sp(True) if t[-1].isalpha() and (x[0].isalnum() or r.random() < 0.3) else self.sp()) + x
            return s
        xs = [self.p(x, PREC[o]) for x in f[1:]]
        t = r.choice(self.ops[o])
        s = xs[0]
        for x in xs[1:]:
            s += self.sp() + t + self.sp() + x
        return self.par(s) if need >= PREC[o] or r.random() < 0.15 else s

    def par(self, s):
        return "(" + self.sp() + s + self.sp() + ")"


OPS = {"!": ["!", "~"], "X": ["X", "next", "()"], "&": ["*", "&", "&&", "/\\"], "|": ["+", "|", "||", "\\/"], "->": ["->", "-->"], "<->": ["<->", "<-->"], "G": ["G", "[]"], "F": ["F", "<>"], "T": "TRUE"}
NAMES = ["req", "ack", "g0", "g1", "sw_1", "door", "next_room", "nextpos", "TRUEish", "FALSEalarm", "Xray", "Go", "F1", "a", "b", "bit0", "hazard_b", "U2", "n", "x.y"]


def tables(names):
    allv = [n + q for n in names for q in ("", "'")]
    env = {"#1": np.ones((1,) * len(allv), bool)}
    for i, b in enumerate(allv):
        env[b] = np.array([False, True]).reshape(tuple(2 if j == i else 1 for j in range(len(allv))))
    return env, (2,) * len(allv)


def read_slugsin(txt):
    out, cur = {k: [] for k in SECTIONS}, None
    for l in txt.split("\n"):
        l = l.strip()
        if l.startswith("[") and l[1:-1] in out:
            cur = l[1:-1]
        elif l and not l.startswith("#"):
            if cur is None:
                raise ValueError("line outside of the sections: " + l)
            out[cur].append(l)
    return out


class C38(Check):
    id = "C38"
    technique = "runtime monitoring: the real scripts on generated inputs; circuits judged by stepping them beside a monitor of the specification and by solving their game, translated formulas by evaluation on all assignments"
    rule = ("A case translates several random inputs: safety specifications to circuits in AIGER format (format rules, error output stepped beside a monitor of the specification over random traces that violate assumptions and guarantees at different times, verdict of the circuit's game against the explicit solver), "
            "and specifications in the formats of RATSY and LTLMoP (all operator spellings, nested next operators, spacings, line breaks, comments) to slugs' format, each translated section evaluated on all assignments. Unsupported inputs end with an error. Non-trivial: trace with an error output or a translation with next operators; distinct by input.")
    quick_n = 60
    thorough_n = 500
    min_nontrivial = 100
    assumptions = ["the explicit solver in /verif/vlib", "Jython runs the scripts as Python 2 does"]

    # -------------------------------------------------------------- AIGER
    def gen_aig(self, r):
        while True:
            s = gen.spec_for(r, 0, max_total=5, plain_names=True)
            if len(s.inputs) + len(s.outputs) > 5:
                continue
            s.env_live, s.sys_live = [], []
            break
        vs = s.inputs + s.outputs
        if r.random() < 0.4:
            for a, names in (("env_trans", vs + post(s.inputs)), ("sys_trans", vs + post(vs)), ("env_init", s.inputs), ("sys_init", vs)):
                if r.random() < 0.5:
                    getattr(s, a).append(rand_mem_formula(r, names, 3))
        if r.random() < 0.3:
            s.sys_trans += [clause(r, vs + post(vs), 3) for _ in range(r.randint(1, 3))]
        order = list(SECTIONS)
        if r.random() < 0.3:
            r.shuffle(order)
        txt = s.slugsin(order=order, omit_empty=r.random() < 0.6)
        bad = r.random() < 0.06
        if bad:
            txt += "[%s_LIVENESS]\n%s\n" % (r.choice(["ENV", "SYS"]), r.choice(vs) if vs else "1")
        if r.random() < 0.3:
            txt = "# c\n" + txt.replace("\n", "\n  # [INPUT]\n", 1)
        if r.random() < 0.25:
            txt = "\n".join("  ".join(l.split(" ")) if r.random() < 0.5 and not l.strip().startswith("#") else l + " " * r.randint(0, 2) for l in txt.split("\n"))
        return s, txt, bad

    def judge_aig(self, ctx, r, job, res):
        s, txt, bad = job
        info = "\nspecification:\n%s\ncircuit:\n%s\n%s" % (txt, res.out[:4000], res.err[-800:])
        if bad:
            ctx.stats["circuits refused"] += 1
            if res.rc == 0:
                ctx.viol("aig:liveness", "a specification with liveness conditions was translated" + info)
            return
        if res.rc != 0:
            return ctx.viol("aig:failed", "no circuit" + info)
        try:
            c = Aag(res.out)
        except (ValueError, IndexError) as e:
            return ctx.viol("aig:format", "%s" % e + info)
        vs = s.inputs + s.outputs
        want = {"i%d" % i: n for i, n in enumerate(s.inputs + ["controllable_" + x for x in s.outputs])}
        got = {k: x for k, x in c.sym.items() if k[0] == "i"}
        if got != want or len(c.inputs) != len(vs) or len(c.outputs) != 1 or any(int(k[1:]) >= len({"i": c.inputs, "l": c.latches, "o": c.outputs}[k[0]]) for k in c.sym):
            return ctx.viol("aig:symbols", "input symbols %s" % got + info)
        ctx.stats["circuits"] += 1
        ctx.stats["gates"] += len(c.ands)
        # a bundle of random traces at the same time
        W, T_ = 256, 12
        rng = np.random.RandomState(r.randrange(1 << 30))
        state = [np.zeros(W, int) for _ in c.latches]
        ok, prev = np.ones(W, bool), None
        one = np.ones(W, bool)
        conj = lambda fs, env: np.logical_and.reduce([one] + [evalf(f, env) for f in fs])
        for t in range(T_):
            for attempt in range(6):
                x = [rng.rand(W) < 0.5 for _ in vs]
                env = {"#1": one, **dict(zip(vs, x))}
                if prev is not None:
                    env = {"#1": one, **dict(zip(vs, prev)), **{n + "'": b for n, b in zip(vs, x)}}
                a = conj(s.env_init if t == 0 else s.env_trans, env)
                g = conj(s.sys_init if t == 0 else s.sys_trans, env)
                # rows that break something draw again most of the time
                again = ~(a & g) & (rng.rand(W) < 0.85)
                if attempt == 0:
                    keep = x
                else:
                    keep = [np.where(redo, n, k) for n, k in zip(x, keep)]
                    env = {"#1": one, **dict(zip(vs, keep))} if prev is None else {"#1": one, **dict(zip(vs, prev)), **{n + "'": b for n, b in zip(vs, keep)}}
                    a = conj(s.env_init if t == 0 else s.env_trans, env)
                    g = conj(s.sys_init if t == 0 else s.sys_trans, env)
                    again = ~(a & g) & (rng.rand(W) < 0.85)
                redo = again
            ok = ok & a
            err = ok & ~g
            o, state = c.step(state, [k.astype(int) for k in keep])
            o = np.broadcast_to(np.asarray(o[0]), (W,)).astype(bool)
            state = [np.broadcast_to(np.asarray(z), (W,)) for z in state]
            if (o != err).any():
                w = int(np.nonzero(o != err)[0][0])
                return ctx.viol("aig:output", "round %d: error output %d, the specification says %d; values %s" % (t, o[w], err[w], {n: int(k[w]) for n, k in zip(vs, keep)}) + info)
            ctx.stats["circuit steps judged"] += W
            ctx.stats["errors seen"] += int(err.sum())
            ctx.stats["steps after broken assumptions"] += int((~ok).sum())
            prev = keep
        win, n = c.winnable([0] * len(s.inputs) + [1] * len(s.outputs))
        ctx.stats["circuit games: %s" % ("winnable" if win else "lost")] += 1
        if win != Game(s).realizable():
            return ctx.viol("aig:game", "the circuit's game is %s" % ("winnable" if win else "lost") + info)
        ctx.nontrivial(txt)

    # -------------------------------------------------------------- RATSY and LTLMoP
    def gen_ltl(self, r, kind):
        names = r.sample(NAMES if kind == "ratsy" else [n for n in NAMES if "." not in n], r.choice([2, 3, 3, 4]))
        k = r.randint(0 if kind == "ltlmop" else 1, len(names) - 1)
        inp, outp = names[:k], names[k:]
        parts = {}
        for sec in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"):
            env = sec.startswith("ENV")
            if sec.endswith("INIT"):
                cur, nxt = (inp if env else names), []
            elif sec.endswith("TRANS"):
                cur, nxt = names, (inp if env else names)
            else:
                cur, nxt = names, ([] if not env else inp)
            parts[sec] = [rand_infix(r, cur, nxt, r.choice([0, 1, 2, 3])) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        one = lambda sec, f: f if sec.endswith("INIT") else ("G", f) if sec.endswith("TRANS") else ("G", ("A", f))
        ops = dict(OPS)
        ops["A"] = OPS["F"]
        ops["F"] = "FALSE"
        bad = None
        if r.random() < 0.1:
            at = lambda: (r.choice(names) + "=1") if kind == "ratsy" else ("e." if r.random() < 0 else "s.") + r.choice(names)
            bad = r.choice(["G(%s ^ %s)", "G(X X %s)", "G(X(%s -> X %s))", "G(%s U %s)", "F %s", "G F G %s", "G(%s -> F %s)", "G(%s", "G %s)", "%s %s", "G(%s & )", "G(%s & %%)", "G F X(X %s)"])
            bad = bad.replace("%%", "\0").replace("%s", "\1")
            while "\1" in bad:
                bad = bad.replace("\1", at(), 1)
            bad = bad.replace("\0", "%")
        if kind == "ratsy":
            atom = lambda n: n + r.choice(["=", " = ", "= "]) + "1"
            ops.update({"G": ["G"], "A": ["F"], "X": ["X", "X", "next"]})  # "[]" at the start of a line would be a section
            P = Printer(r, ops, atom, ["", " ", " ", "  "], lambda n: n + r.choice(["=", " = ", " ="]) + "0")
            decl = lambda vs: "".join("%s%s;%s" % (r.choice(["", " "]), n, r.choice(["\n", " "])) for n in vs) + "\n"
            body = {"INPUT_VARIABLES": decl(inp), "OUTPUT_VARIABLES": decl(outp)}
            for sec, fs in parts.items():
                t = ""
                for f in fs:
                    x = P.p(one(sec, f))
                    if r.random() < 0.3:
                        x = self.breaks(r, x)
                    t += x + r.choice(["", " "]) + ";" + r.choice(["\n", "\n", " ", "\n\n# G(a;b\n"])
                body[sec.replace("_INIT", "_INITIAL").replace("_TRANS", "_TRANSITIONS").replace("_LIVENESS", "_FAIRNESS")] = t + "\n"
            if bad:
                body[r.choice(["ENV_TRANSITIONS", "SYS_TRANSITIONS"])] += bad + ";\n"
            order = ["INPUT_VARIABLES", "ENV_INITIAL", "ENV_TRANSITIONS", "ENV_FAIRNESS", "OUTPUT_VARIABLES", "SYS_INITIAL", "SYS_TRANSITIONS", "SYS_FAIRNESS"]
            if r.random() < 0.3:
                r.shuffle(order)
            files = {"spec.rat": "".join("[%s]\n%s\n" % (k, body[k]) for k in order)}
            args = ["@spec.rat"]
        else:
            atom = lambda n: ("e." if n in inp else "s.") + n
            P = Printer(r, ops, atom, ["", " ", " ", "\n\t"])
            smv = "-- Skeleton SMV file\n\nMODULE main\n\tVAR\n\t\te : env();\n\t\ts : sys(e);\n\nMODULE env -- inputs\n\tVAR\n" + "".join("\t\t%s : boolean;\n" % n for n in inp) + "\nMODULE sys(e) -- outputs\n\tVAR\n" + "".join("\t\t%s : boolean;\n" % n for n in outp)
            t = ""
            for who in ("ENV", "SYS"):
                fs = [one(sec, f) for sec in (who + "_INIT", who + "_TRANS", who + "_LIVENESS") for f in parts[sec]] or [("T",)]
                r.shuffle(fs)
                x = " & ".join(P.p(f, PREC["&"]) for f in fs)
                if bad and who == "SYS":
                    x += " & " + bad
                t += "LTLSPEC -- %s\n" % ("Assumptions" if who == "ENV" else "Guarantees") + ("\t(\n\t%s\n\t);\n\n" if r.random() < 0.7 else "%s;\n") % x
            files = {"spec.smv": smv, "spec.ltl": t}
            args = ["@spec.smv", "@spec.ltl"]
        return kind, names, inp, outp, parts, files, args, bad

    def breaks(self, r, x):
        """line breaks instead of spaces between tokens"""
        return "".join("\n" if c == " " and r.random() < 0.4 else c for c in x)

    def judge_ltl(self, ctx, job, res):
        kind, names, inp, outp, parts, files, args, bad = job
        info = "\ninput:\n%s\ntranslation:\n%s\n%s" % ("\n".join(files.values()), res.out[:4000], res.err[-800:])
        if bad:
            ctx.stats["%s inputs refused" % kind] += 1
            if res.rc == 0:
                ctx.viol(kind + ":unsupported", "translated although '%s' is not supported" % bad + info)
            return
        if res.rc != 0:
            return ctx.viol(kind + ":failed", "no translation" + info)
        try:
            got = read_slugsin(res.out)
            forms = {k: [parse_prefix(l) for l in got[k]] for k in parts}
        except (ValueError, IndexError) as e:
            return ctx.viol(kind + ":format", "%s" % e + info)
        if got["INPUT"] != inp or got["OUTPUT"] != outp:
            return ctx.viol(kind + ":variables", "inputs %s, outputs %s" % (got["INPUT"], got["OUTPUT"]) + info)
        env, shape = tables(names)
        full = lambda x: np.broadcast_to(x, shape)
        for sec, fs in parts.items():
            try:
                g = [full(evalf(f, env)) for f in forms[sec]]
            except KeyError as e:
                return ctx.viol(kind + ":unknown-variable", "%s in %s" % (e, sec) + info)
            w = [full(value(f, env)) for f in fs]
            if sec.endswith("LIVENESS"):
                alt = [full(value(f, env, "'")) for f in fs] if sec[0] == "S" else w
                sig = lambda xs: sorted(x.tobytes() for x in xs)
                trivial = full(env["#1"]).tobytes()
                a, b, c = ([x for x in sig(z) if x != trivial] for z in (g, w, alt))
                if a != b and a != c:
                    return ctx.viol(kind + ":" + sec, "other liveness properties" + info)
            else:
                conj = lambda xs: np.logical_and.reduce([full(env["#1"])] + xs)
                if (conj(g) != conj(w)).any():
                    return ctx.viol(kind + ":" + sec, "another meaning of section %s" % sec + info)
            ctx.stats["%s sections judged" % kind] += 1
            ctx.stats["%s properties judged" % kind] += len(fs)
        ctx.stats["%s translations" % kind] += 1
        if "'" in res.out:
            ctx.nontrivial("\n".join(files.values()))

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        jobs, todo = [], []
        for _ in range(12):
            j = self.gen_aig(r)
            jobs.append(("translateSafetySlugsSpecToSyntCompAIGFormat.py", ["@spec.slugsin"], {"spec.slugsin": j[1]}))
            todo.append(("aig", j))
        for kind, script in (("ratsy", "translateFromRatsyFormatToSlugsFormat.py"), ("ltlmop", "translateFromLTLMopLTLFormatToSlugsFormat.py")):
            for _ in range(10):
                j = self.gen_ltl(r, kind)
                jobs.append((script, j[6], j[5]))
                todo.append((kind, j))
        for (kind, j), res in zip(todo, py2.batch(ctx, jobs)):
            if res is None:
                ctx.viol(kind + ":hang", "no end: %r" % (j,))
            elif kind == "aig":
                self.judge_aig(ctx, r, j, res)
            else:
                self.judge_ltl(ctx, j, res)
        ctx.sample = {"specification": todo[0][1][1][:300], "translated": len(jobs)}


check = C38()
