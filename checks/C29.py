"""C29: structured-slugs compiler."""
import re, sys
import numpy as np
from vlib import build as B
from vlib.harness import Check
from vlib.spec import *

LIM = ["bash", "-c", "ulimit -v 3000000; exec \"$@\"", "sh", sys.executable]
INSECS, OUTSEC = ["INPUT", "OBSERVABLE_INPUT", "UNOBSERVABLE_INPUT", "CONTROLLABLE_INPUT"], "OUTPUT"
SYN = {"&": ["&", "&&", "/\\"], "|": ["|", "||", "\\/"], "^": ["^"], "->": ["->", "-->"], "<->": ["<->", "<-->"]}
PREC = {"<->": 0, "->": 1, "^": 2, "|": 3, "&": 4}
CMP = {"=": np.equal, "!=": np.not_equal, "<": np.less, "<=": np.less_equal, ">": np.greater, ">=": np.greater_equal}


class Vars:
    def __init__(self, r):
        self.bools, self.ints, self.sec = [], {}, {}
        used = set()
        budget = 6
        for k in range(r.choice([1, 2, 3, 3, 4])):
            n = r.choice(["a", "b", "req", "x", "pos", "x_1", "x.y", "Xa", "nextOne", "_q", "T", "TRUEx", "aX"]) + r.choice(["", "", "1", "_b"])
            if n in used:
                continue
            used.add(n)
            if r.random() < 0.6 and budget >= 1:
                lo = r.choice([0, 0, 0, 1, 2, 3, 5, 9, 17])
                hi = lo + r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 12])
                w = (hi - lo).bit_length()
                if w > budget:
                    continue
                budget -= w
                self.ints[n] = (lo, hi, w)
            elif budget >= 1:
                self.bools.append(n)
                budget -= 1
            else:
                continue
            self.sec[n] = OUTSEC if r.random() < 0.45 else ("INPUT" if r.random() < 0.85 else r.choice(INSECS))
        if not self.sec:
            self.bools, self.sec = ["a"], {"a": "OUTPUT"}
        self.names = list(self.sec)

    def bits(self, n):
        if n in self.bools:
            return [n]
        lo, hi, w = self.ints[n]
        return [n + "@%d" % i + (".%d.%d" % (lo, hi) if i == 0 else "") for i in range(w)]

    def arrays(self):
        allb = [b + q for n in self.names for b in self.bits(n) for q in ("", "'")]
        k = len(allb)
        self.env = {"#1": np.ones((1,) * k, bool)}
        for i, b in enumerate(allb):
            self.env[b] = np.array([False, True]).reshape(tuple(2 if j == i else 1 for j in range(k)))
        self.shape = (2,) * k
        self.val, self.ok = {}, {}
        for n, (lo, hi, w) in self.ints.items():
            for q in ("", "'"):
                self.val[n + q] = lo + sum((self.env[b + q].astype(int) << i) for i, b in enumerate(self.bits(n))) if w else np.full((1,) * k, lo)
                self.ok[n + q] = self.val[n + q] <= hi


# ------------------------------------------------ random infix formulas: ('b',name) ('T',) ('F',) ('!',f) ('X',f) (op,f,g) ('cmp',op,sum,sum); sums are lists of names/numbers
class View:
    """variables whose current (and next) value a section may refer to"""
    def __init__(self, V, sec):
        inp = [n for n in V.names if V.sec[n] != OUTSEC]
        self.pre = inp if sec == "ENV_INIT" else V.names
        self.post = [] if sec.endswith("INIT") else inp if sec == "ENV_TRANS" else V.names
        self.V = V

    def pick(self, r, kind, post):
        k = self.V.bools if kind == "b" else self.V.ints
        c = [n for n in self.pre if n in k] if post < 2 else []
        if post:
            c = c + [n + ("'" if post == 1 else "") for n in self.post if n in k]
        return r.choice(c) if c else None


def rand_sum(r, V, post):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        n = V.pick(r, "i", post)
        if r.random() < 0.65 and n:
            out.append(n)
        else:
            out.append(r.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 11, 16, 20, 31, 40]))
    return out


def rand_infix(r, V, depth, post):
    """post: 0 no next values, 1 allowed, 2 inside a next operator"""
    if depth <= 0 or r.random() < 0.12:
        q = r.random()
        if q < 0.6:
            return ("cmp", r.choice(list(CMP)), rand_sum(r, V, post), rand_sum(r, V, post))
        n = V.pick(r, "b", post)
        if n and q < 0.93:
            return ("b", n)
        return r.choice([("T",), ("F",)])
    o = r.choice(["&", "&", "|", "|", "^", "->", "<->", "!", "!", "X"])
    if o == "X" and post != 1:
        o = "&"
    if o == "!":
        return ("!", rand_infix(r, V, depth - 1, post))
    if o == "X":
        return ("X", rand_infix(r, V, depth - 1, 2))
    return (o, rand_infix(r, V, depth - 1, post), rand_infix(r, V, depth - 1, post))


def ev(f, V, nxt=""):
    o = f[0]
    if o == "b":
        return V.env[f[1] + nxt]
    if o in "TF":
        return V.env["#1"] if o == "T" else ~V.env["#1"]
    if o == "!":
        return ~ev(f[1], V, nxt)
    if o == "X":
        return ev(f[1], V, "'")
    if o == "cmp":
        a, b = [sum(V.val[t + nxt] if isinstance(t, str) else t for t in s) + np.zeros_like(V.env["#1"], int) for s in f[2:]]
        return CMP[f[1]](a, b)
    a, b = ev(f[1], V, nxt), ev(f[2], V, nxt)
    return {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "->": lambda: ~a | b, "<->": lambda: ~(a ^ b)}[o]()


def show(r, f, parent=-1, side=0):
    sp = lambda: r.choice(["", " ", " ", "  "])
    o = f[0]
    if o == "b":
        t = f[1]
    elif o in "TF":
        t = "TRUE" if o == "T" else "FALSE"
    elif o == "!":
        t = r.choice("!~") + sp() + show(r, f[1], 9)
    elif o == "X":
        op = r.choice(["X", "next", "()"])
        inner = show(r, f[1], 9)
        t = op + (sp() if op == "()" or inner[0] in "([!~" else " ") + inner
    elif o == "cmp":
        def su(s, top=True):
            if len(s) > 1 and r.random() < 0.25:
                k = r.randrange(1, len(s))
                return su(s[:k], False) + sp() + "+" + sp() + su(s[k:], False)
            t = (sp() + "+" + sp()).join(str(x) for x in s)
            return "(" + t + ")" if r.random() < (0.15 if top else 0.7) else t
        t = su(f[2]) + sp() + f[1] + sp() + su(f[3])
    else:
        p = PREC[o]
        t = show(r, f[1], p, 1) + sp() + r.choice(SYN[o]) + sp() + show(r, f[2], p, 2)
        # same-level nesting of implications has no documented meaning; parenthesised always
        if parent > p or (parent == p and o == "->"):
            return r.choice(["(%s)", "( %s )", "[%s]"]) % t
    if r.random() < 0.06:
        t = r.choice(["(%s)", "[ %s ]", "((%s))"]) % t
    return t


BAD_LINE = ["x - 1 = 2", "x * 2 = 4", "x / 2 = 1", "a & unknownVar", "unknownNum = 3", "a &", "& & a", "(a", "a)", "a b", "a U b", "a W b", "G a", "F a", "! [] a", "<> a",
            "next (a')", "X (x' = 1)", "next next a", "a + 1 = 2", "x & a", "x = ", "= 3", "x == 3 =", "x = y = 1", "a -> -> b", "a !", "! ", "a ! b", "3", "x", "a # b", "a ; b", "x < > 3", "a = TRUE",
            "TRUE = 1", "a $ ", "$ 2 a", "a ? 0", "a b''", "\u00e4", "x >> 2", "(a & b", "x + = 3", "a <- b", "'", "a''", "!! !", "a & (x = 3", "{a}", "a or b", "not a"]
BAD_DECL = ["x:5...2", "x:1..3", "x:a...b", "x:1", "x:1...2...3", "x:1...2:3", "x:...3", "x:1...", "n'", "n@1", "x:0...3'", "x@0:0...3"]


class C29(Check):
    id = "C29"
    technique = "monitoring of the compiler's output: every translated property evaluated on all assignments against an independent evaluator of the infix formula; range constraints and rejections checked; slugs reads the result"
    rule = ("random structured specifications: Boolean and integer variables with random ranges in all input/output sections, infix formulas over all documented operators, synonyms and spacings with minimal or extra parentheses, primed variables and next operators, raw prefix lines, "
            "comments, --thorougly; unsupported lines, declarations and command lines. Non-trivial: a section with a comparison or next operator; distinct by file.")
    quick_n = 500
    thorough_n = 12000
    min_nontrivial = 150

    def bins(self):
        return {"slugs": B.slugs(), "py": sys.executable}

    def compile(self, ctx, files, args=("s.structuredslugs",), timeout=25):
        return ctx.run([B.REPO + "/tools/StructuredSlugsParser/compiler.py"] + list(args), files, bin="py", exe=LIM, timeout=timeout)

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        if r.random() < 0.22:
            return self.reject(ctx, r)
        V = Vars(r)
        V.arrays()
        # ---- the file
        body = {}
        for n in V.names:
            d = n if n in V.bools else "%s%s:%s%d...%d" % (n, r.choice(["", " "]), r.choice(["", " "]), V.ints[n][0], V.ints[n][1])
            body.setdefault(V.sec[n], []).append(d)
        props = {}
        for sec in ["ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"]:
            props[sec] = []
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                post = 0 if sec.endswith("INIT") else 1
                W = View(V, sec)
                vs = [n for n in W.pre if n in V.bools] + [n + "'" for n in W.post if n in V.bools]
                if r.random() < 0.1 and vs:
                    f = rand_formula(r, vs, 2)
                    props[sec].append((text(f), evalf(f, V.env)))
                    ctx.stats["prefix lines"] += 1
                else:
                    f = rand_infix(r, W, r.choice([0, 1, 2, 2, 3, 3]), post)
                    t = show(r, f)
                    while t[0] == "[":      # would be a section header
                        t = show(r, f)
                    props[sec].append((t, ev(f, V)))
                    ctx.stats["infix lines"] += 1
        lines = []
        if r.random() < 0.3:
            lines += ["# a comment before the first section", ""]
        secs = [(k, list(b)) for k, b in body.items()] + [(k, [t for t, _ in p]) for k, p in props.items()]
        r.shuffle(secs)
        for k, b in secs:
            if b or r.random() < 0.4:
                lines.append("[%s]" % k)
                for t in b:
                    if r.random() < 0.1:
                        lines.append(r.choice(["# comment & x = 3", "", "   "]))
                    lines.append(r.choice(["", "", " ", "\t"]) + t + r.choice(["", "", "  "]))
                lines.append("")
        txt = "\n".join(lines) + "\n"
        thor = r.random() < 0.3
        q = self.compile(ctx, {"s.structuredslugs": txt}, (["--thorougly"] if thor else []) + ["s.structuredslugs"])
        ctx.sample = {"file": txt[:500], "out": q.out[:400]}
        if q.rc != 0:
            return ctx.viol("rejected", "rc %d\n%s\n%s" % (q.rc, q.err[-900:], txt))
        # ---- reading it back
        got, sec = {}, None
        for l in q.out.splitlines():
            l = l.strip()
            if l.startswith("["):
                sec = l.strip("[]")
                got.setdefault(sec, [])
            elif l and not l.startswith("#"):
                got[sec].append(l)
        for k in INSECS + [OUTSEC]:
            exp = [b for n in V.names if V.sec[n] == k for b in V.bits(n)]
            if got.get(k, []) != exp:
                return ctx.viol("variables", "%s: %s instead of %s\n%s" % (k, got.get(k), exp, txt))
        dom = V.env["#1"]
        for n in V.ok:
            dom = dom & V.ok[n]
        full = lambda a: np.broadcast_to(a, V.shape)
        dom = full(dom)
        one = full(V.env["#1"])
        for k, ps in props.items():
            try:
                g = [full(evalf(parse_prefix(l), V.env)) for l in got.get(k, [])]
            except (ValueError, IndexError, KeyError) as e:
                return ctx.viol("format", "%s: %r\n%s\n%s" % (k, e, got.get(k), txt))
            ctx.stats["assignments compared"] += dom.size * max(1, len(ps))
            user, limits = g[:len(ps)], g[len(ps):]
            for (t, x), y in zip(ps, user):
                d = (full(x) != y) & dom
                if d.any():
                    a = dict(zip([b + p for n in V.names for b in V.bits(n) for p in ("", "'")], np.argwhere(d)[0].tolist()))
                    ctx.viol("meaning", "%s: %s is translated to %s, wrong at %s (ints %s)\n%s" % (k, t, got[k], a, V.ints, txt))
            if len(user) < len(ps):
                ctx.viol("lost", "%s: %d lines instead of %d\n%s" % (k, len(user), len(ps), txt))
            # ---- ranges: what is added to the section admits exactly the values in range
            want = one
            mine = [n for n in V.ints if (V.sec[n] == OUTSEC) == k.startswith("SYS")]
            if k.endswith("INIT"):
                for n in mine:
                    want = want & V.ok[n]
            elif k.endswith("TRANS"):
                for n in mine:
                    want = want & V.ok[n + "'"]
                    if thor:
                        want = want & V.ok[n]
            lim = one
            for y in limits:
                lim = lim & y
            if (full(want) != lim).any():
                ctx.viol("range", "%s (thoroughly %s): limits %s do not describe the ranges %s\n%s" % (k, thor, got.get(k, [])[len(ps):], V.ints, txt))
            ctx.stats["range constraints"] += len(limits)
        if any(re.search(r"[=<>]|\bX\b|next|\(\)", t.replace("->", "")) for p in props.values() for t, _ in p):
            ctx.nontrivial(txt)
        # ---- slugs accepts it
        if set(body) <= {"INPUT", "OUTPUT"}:
            p = ctx.run(["s.slugsin"], {"s.slugsin": q.out})
            ctx.stats["read by slugs"] += 1
            if p.rc != 0 or p.verdict is None:
                ctx.viol("unreadable", "rc %d %s\n%s\nfrom\n%s" % (p.rc, p.err[-500:], q.out, txt))

    def reject(self, ctx, r):
        good = {"INPUT": ["a", "x:0...5"], "OUTPUT": ["b", "y:2...9"], "ENV_TRANS": ["x' = 3 | a"], "SYS_TRANS": ["y' > x"], "SYS_LIVENESS": ["b & y = 4"]}
        args, kind = ["s.structuredslugs"], r.choice(["line", "line", "line", "decl", "section", "args", "missing", "negative"])
        what = ""
        if kind == "line":
            what = r.choice(BAD_LINE)
            s = r.choice(["ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"])
            good.setdefault(s, []).insert(0, what)
        elif kind == "decl":
            what = r.choice(BAD_DECL)
            good[r.choice(["INPUT", "OUTPUT"])].append(what.replace("x", "z") if r.random() < 0.5 else what)
        elif kind == "section":
            what = r.choice(["[FOO]", "[input]", "[SYS_LIVENES]", "[ENV_TRANS", "[]"])
        elif kind == "args":
            args = r.choice([[], ["--foo", "s.structuredslugs"], ["s.structuredslugs", "s.structuredslugs"], ["-x"]])
            what = str(args)
        elif kind == "missing":
            args = ["nofile"]
        elif kind == "negative":
            # either supported with the right meaning or rejected, but never an endless computation
            lo = -r.choice([1, 2, 3, 8])
            good["INPUT"][1] = "x:%d...%d" % (lo, r.choice([-1, 0, 1, 4]))
            what = good["INPUT"][1]
        txt = "\n".join("[%s]\n%s\n" % (k, "\n".join(b)) for k, b in good.items())
        if kind == "section":
            txt += what + "\na\n"
        q = self.compile(ctx, {"s.structuredslugs": txt}, args)
        ctx.stats["unsupported: " + kind] += 1
        if "MemoryError" in q.err:
            return ctx.viol("endless", "%s %r: %s" % (kind, what, q.err[-300:]))
        if q.rc == 0 and kind == "line":
            # a line in slugs' own prefix notation is passed on; slugs itself then rejects it
            p = ctx.run(["s.slugsin"], {"s.slugsin": q.out})
            ctx.stats["left to slugs"] += 1
            if p.rc == 0 or p.verdict is not None:
                ctx.viol("accepted:line", "%r in %s: slugs rc %d %s accepts %s" % (what, s, p.rc, p.verdict, q.out[:200]))
        elif q.rc == 0 or not q.err.strip():
            ctx.viol("accepted:" + kind, "%r: rc %d out %s err %s" % (what, q.rc, q.out[:600], q.err[-300:]))
        if "TypeError: unsupported operand type" in q.err:
            ctx.viol("error-report", "%r: the error report itself fails: %s" % (what, q.err[-300:]))


check = C29()
