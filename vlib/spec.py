"""GR(1) specifications: formula trees, random generation, slugsin text.

Formulas are tuples: ('0',) ('1',) ('v',name) ('!',a) ('&',a,b) ('|',a,b) ('^',a,b) ('$',[e0..en]) ('?',i)."""
import random

SECTIONS = ["INPUT", "OUTPUT", "ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"]
T, F = ("1",), ("0",)


def v(n):
    return ("v", n)


def Not(a):
    return ("!", a)


def And(*xs):
    r = None
    for x in xs:
        r = x if r is None else ("&", r, x)
    return T if r is None else r


def Or(*xs):
    r = None
    for x in xs:
        r = x if r is None else ("|", r, x)
    return F if r is None else r


def text(f):
    o = f[0]
    if o in "01":
        return o
    if o == "v":
        return f[1]
    if o == "!":
        return "! " + text(f[1])
    if o in "&|^":
        return o + " " + text(f[1]) + " " + text(f[2])
    if o == "$":
        return "$ %d " % len(f[1]) + " ".join(text(x) for x in f[1])
    if o == "?":
        return "? %d" % f[1]
    raise ValueError(o)


def size(f):
    if f[0] in "!&|^":
        return 1 + sum(size(x) for x in f[1:])
    if f[0] == "$":
        return 1 + sum(size(x) for x in f[1])
    return 1


def evalf(f, env, mem=()):
    """env: name -> value supporting & | ^ (bool, int mask or numpy array); needs env['#1'] as TRUE."""
    o = f[0]
    if o == "1":
        return env["#1"]
    if o == "0":
        return env["#1"] ^ env["#1"]
    if o == "v":
        return env[f[1]]
    if o == "!":
        return env["#1"] ^ evalf(f[1], env, mem)
    if o == "&":
        return evalf(f[1], env, mem) & evalf(f[2], env, mem)
    if o == "|":
        return evalf(f[1], env, mem) | evalf(f[2], env, mem)
    if o == "^":
        return evalf(f[1], env, mem) ^ evalf(f[2], env, mem)
    if o == "$":
        m = []
        for x in f[1]:
            m.append(evalf(x, env, m))
        return m[-1]
    if o == "?":
        return mem[f[1]]
    raise ValueError(o)


def parse_prefix(line):
    """text -> formula; raises ValueError/IndexError on malformed text"""
    tok = line.split()

    def rec():
        t = tok.pop(0)
        if t == "$":
            return ("$", [rec() for _ in range(int(tok.pop(0)))])
        if t == "?":
            return ("?", int(tok.pop(0)))
        if t in ("&", "|", "^"):
            a = rec()
            return (t, a, rec())
        if t == "!":
            return ("!", rec())
        return (t,) if t in ("0", "1") else ("v", t)
    f = rec()
    if tok:
        raise ValueError("trailing " + " ".join(tok))
    return f


class Spec:
    def __init__(self, inputs, outputs):
        self.inputs, self.outputs = list(inputs), list(outputs)
        self.env_init, self.sys_init, self.env_trans, self.sys_trans, self.env_live, self.sys_live = [], [], [], [], [], []

    def parts(self):
        return {"ENV_INIT": self.env_init, "SYS_INIT": self.sys_init, "ENV_TRANS": self.env_trans, "SYS_TRANS": self.sys_trans,
                "ENV_LIVENESS": self.env_live, "SYS_LIVENESS": self.sys_live}

    def slugsin(self, order=None, omit_empty=True):
        out = []
        for s in (order or SECTIONS):
            if s == "INPUT":
                body = self.inputs
            elif s == "OUTPUT":
                body = self.outputs
            else:
                body = [text(f) for f in self.parts()[s]]
            if body or not omit_empty:
                out.append("[%s]" % s)
                out += body
                out.append("")
        return "\n".join(out) + "\n"

    def copy(self):
        s = Spec(self.inputs, self.outputs)
        for a in ("env_init", "sys_init", "env_trans", "sys_trans", "env_live", "sys_live"):
            setattr(s, a, list(getattr(self, a)))
        return s


# ------------------------------------------------------------------ random formulas
def lit(r, vars_):
    x = v(r.choice(vars_))
    return Not(x) if r.random() < 0.5 else x


def rand_formula(r, vars_, depth):
    if not vars_:
        return T if r.random() < 0.7 else F
    if depth <= 0 or r.random() < 0.15:
        q = r.random()
        if q < 0.03:
            return T
        if q < 0.06:
            return F
        return lit(r, vars_)
    o = r.choice("&&||^!")
    if o == "!":
        return Not(rand_formula(r, vars_, depth - 1))
    return (o, rand_formula(r, vars_, depth - 1), rand_formula(r, vars_, depth - 1))


def rand_mem_formula(r, vars_, depth, avail=0):
    """Random formula with (nested) buffers; avail = number of stored elements of the innermost buffer."""
    q = r.random()
    if avail and q < 0.3:
        return ("?", r.randrange(avail))
    if depth <= 0 or not vars_:
        return lit(r, vars_) if vars_ and r.random() < 0.9 else (T if r.random() < 0.5 else F)
    if q < 0.45:
        n = r.choice([1, 1, 2, 2, 3, 4, 6])
        return ("$", [rand_mem_formula(r, vars_, depth - 1, i) for i in range(n)])
    o = r.choice("&|^!")
    if o == "!":
        return Not(rand_mem_formula(r, vars_, depth - 1, avail))
    return (o, rand_mem_formula(r, vars_, depth - 1, avail), rand_mem_formula(r, vars_, depth - 1, avail))


def clause(r, vars_, k):
    k = min(k, len(vars_))
    if k == 0:
        return T
    return Or(*[(Not(v(x)) if r.random() < 0.5 else v(x)) for x in r.sample(vars_, k)])


def post(names):
    return [n + "'" for n in names]


NAMES = ["a", "b", "c", "d", "e", "f", "g", "h"]


def ite(c, a, b):
    return Or(And(c, a), And(Not(c), b))


def table_formula(vars_, fn):
    """Decision tree over vars_; fn(tuple of bits) -> formula"""
    def rec(k, bits):
        if k == len(vars_):
            return fn(tuple(bits))
        a, b = rec(k + 1, bits + [1]), rec(k + 1, bits + [0])
        if a == b:
            return a
        return ite(v(vars_[k]), a, b)
    return rec(0, [])


def cube(vars_, bits):
    return And(*[v(x) if b else Not(v(x)) for x, b in zip(vars_, bits)])


def _bits(n, k):
    return tuple((n >> i) & 1 for i in range(k))


def table_spec(r, s):
    """Sparse explicit tables: arbitrary game graphs with few moves, hence deep fixed points and real dead ends."""
    I, O = s.inputs, s.outputs
    ni, no = len(I), len(O)
    dens = r.choice([1, 1, 2, 2, 3])
    envd = r.choice([1, 2, 2, 4])
    if I and r.random() < 0.75:
        keep = O if r.random() < 0.5 else O[:1]
        s.env_trans.append(table_formula(I + keep, lambda b: Or(*[cube(post(I), _bits(x, ni)) for x in r.sample(range(1 << ni), r.randint(0 if r.random() < 0.1 else 1, min(envd, 1 << ni)))])))
    if O:
        dep = post(I) if r.random() < 0.7 else (I[:1] + post(I)[:1])
        pdead = r.choice([0, 0, 0.05, 0.2])
        s.sys_trans.append(table_formula(O + dep, lambda b: Or(*[cube(post(O), _bits(y, no)) for y in r.sample(range(1 << no), 0 if r.random() < pdead else r.randint(1, min(dens, 1 << no)))])))


def patrol_spec(r, s):
    """A robot on a small random graph with doors controlled by the environment; goals are places."""
    I, O = s.inputs, s.outputs
    no = len(O)
    n = 1 << no
    doors = {}
    adj = {y: {y} if r.random() < 0.8 else set() for y in range(n)}
    perm = list(range(n))
    r.shuffle(perm)
    for k in range(n):
        adj[perm[k]].add(perm[(k + 1) % n])
        if r.random() < 0.5:
            adj[perm[(k + 1) % n]].add(perm[k])
        if r.random() < 0.3:
            adj[perm[k]].add(r.randrange(n))
    for y in range(n):
        for z in adj[y]:
            if I and y != z and r.random() < 0.4:
                doors[(y, z)] = r.choice(I)
    s.sys_trans.append(table_formula(O, lambda b: Or(*[And(cube(post(O), _bits(z, no)), *([v(doors[(sum(x << i for i, x in enumerate(b)), z)] + "'")] if (sum(x << i for i, x in enumerate(b)), z) in doors else [])) for z in sorted(adj[sum(x << i for i, x in enumerate(b))])])))
    if I and r.random() < 0.3:
        s.env_trans.append(clause(r, I + O + post(I), 3))
    for x in I:
        if r.random() < 0.8:
            s.env_live.append(v(x + "'") if r.random() < 0.6 else Or(v(x + "'"), cube(O, _bits(r.randrange(n), no))))
    for _ in range(r.randint(1, 4)):
        g = cube(post(O) if r.random() < 0.7 else O, _bits(r.randrange(n), no))
        if I and r.random() < 0.2:
            g = Or(g, lit(r, I + post(I)))
        s.sys_live.append(g)
    s.sys_init.append(cube(O, _bits(perm[0], no)))


def rand_spec(r, max_in=3, max_out=3, max_total=5, style=None, max_ea=3, max_sg=3, min_out=0, min_in=0, names=None, plain_names=False):
    """A random specification of a random shape; the styles are tuned so that both verdicts and both kinds of deadlock are common."""
    while True:
        ni, no = r.randint(min_in, max_in), r.randint(min_out, max_out)
        if ni + no <= max_total and ni + no >= 1:
            break
    if names is None:
        pool = NAMES[:]
        if r.random() < 0.3:
            r.shuffle(pool)
        if r.random() < 0.15 and not plain_names:
            pool = [n + r.choice(["", "_1", "@0.0.3", ".x", "Y"]) for n in pool]
    else:
        pool = names
    s = Spec(["i" + pool[k] if r.random() < 0.9 else pool[k] + "q" for k in range(ni)], [("o" if r.random() < 0.9 else "zz") + pool[k] for k in range(no)])
    I, O = s.inputs, s.outputs
    style = style or r.choice(["clauses", "clauses", "clauses", "functional", "free", "tight", "liveness", "wild", "table", "table", "table", "patrol", "patrol"])
    all_pre, all_post = I + O, post(I) + post(O)
    allv = all_pre + all_post
    nea = r.choice([0, 1, 1, 2, 2, 3, 4][: max_ea + 4]) if max_ea >= 3 else r.randint(0, max_ea)
    nsg = r.choice([0, 1, 1, 2, 2, 3, 4, 5][: max_sg + 5]) if max_sg >= 3 else r.randint(0, max_sg)
    nea, nsg = min(nea, max_ea + 1), min(nsg, max_sg + 2)

    # initialisation
    if r.random() < 0.6 and I:
        s.env_init.append(clause(r, I, r.randint(1, 2)) if r.random() < 0.5 else And(*[lit(r, [x]) for x in I]))
    if r.random() < 0.6 and O:
        s.sys_init.append(clause(r, all_pre, r.randint(1, 3)) if r.random() < 0.6 else And(*[lit(r, [x]) for x in O]))
    if r.random() < 0.05:
        s.sys_init.append(rand_formula(r, all_pre, 3))
    if r.random() < 0.05 and I:
        s.env_init.append(rand_formula(r, I, 3))

    ev = all_pre + post(I)
    if style == "clauses":
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            s.env_trans.append(clause(r, ev, r.choice([2, 2, 3, 3, 4])))
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            s.sys_trans.append(clause(r, allv, r.choice([2, 2, 3, 3, 4])))
    elif style == "functional":
        for x in I:
            if r.random() < 0.4:
                s.env_trans.append(Not(("^", v(x + "'"), rand_formula(r, ev[:-1] if len(ev) > 1 else ev, 2))) if r.random() < 0.5 else Or(rand_formula(r, all_pre, 1), Not(("^", v(x + "'"), v(x)))))
        for x in O:
            if r.random() < 0.6:
                s.sys_trans.append(Or(rand_formula(r, allv, 1), Not(("^", v(x + "'"), rand_formula(r, all_pre + post(I), 2)))))
    elif style == "tight":
        # many transition constraints: long distances and dead ends
        for _ in range(r.randint(1, 3)):
            s.env_trans.append(clause(r, ev, 2))
        for _ in range(r.randint(2, 6)):
            s.sys_trans.append(clause(r, allv, 2))
    elif style == "liveness":
        # toggle-style outputs, counters: ranks matter
        if O and r.random() < 0.8:
            # only one output bit may change per step
            for i in range(len(O)):
                for j in range(i):
                    s.sys_trans.append(Or(Not(("^", v(O[i]), v(O[i] + "'"))), Not(("^", v(O[j]), v(O[j] + "'")))))
        for x in O:
            if I and r.random() < 0.5:
                # the output may only change when the environment permits
                s.sys_trans.append(Or(Not(("^", v(x), v(x + "'"))), lit(r, post(I) + I)))
        if r.random() < 0.4 and I:
            s.env_trans.append(clause(r, ev, 3))
        nsg = max(1, nsg)
        nea = max(nea, 1)
    elif style == "wild":
        for _ in range(r.randint(0, 2)):
            s.env_trans.append(rand_formula(r, ev, r.randint(1, 4)))
        for _ in range(r.randint(0, 2)):
            s.sys_trans.append(rand_formula(r, allv, r.randint(1, 4)))
    elif style == "table":
        table_spec(r, s)
    elif style == "patrol" and O:
        s.sys_init = []
        patrol_spec(r, s)
        if r.random() < 0.7:
            return s
        nea, nsg = r.randint(0, 1), r.randint(0, 1)
    for _ in range(nea):
        q = r.random()
        vs = allv if q < 0.6 else (post(I) + I if I and q < 0.9 else allv)
        s.env_live.append(lit(r, vs) if r.random() < 0.3 else (rand_formula(r, vs, 2) if r.random() < 0.7 else And(*[lit(r, vs) for _ in range(2)])))
    for _ in range(nsg):
        q = r.random()
        vs = allv if q < 0.5 else (post(O) if O and q < 0.8 else all_pre)
        s.sys_live.append(lit(r, vs) if r.random() < 0.3 else (rand_formula(r, vs, 2) if r.random() < 0.6 else And(*[lit(r, vs) for _ in range(r.randint(2, 3))])))
    return s


# ------------------------------------------------------------------ meaning-preserving rewrites
def rewrite(r, f, depth=0):
    """An equivalent formula."""
    o = f[0]
    q = r.random()
    if o == "!":
        f = ("!", rewrite(r, f[1], depth + 1))
        if f[1][0] == "&" and q < 0.5:
            return ("|", Not(f[1][1]), Not(f[1][2]))
        if f[1][0] == "|" and q < 0.5:
            return ("&", Not(f[1][1]), Not(f[1][2]))
        if f[1][0] == "!" and q < 0.6:
            return f[1][1]
        return f
    if o in "&|^":
        a, b = rewrite(r, f[1], depth + 1), rewrite(r, f[2], depth + 1)
        if r.random() < 0.5:
            a, b = b, a
        if q < 0.15 and o == "^":
            return ("|", ("&", a, Not(b)), ("&", Not(a), b))
        if q < 0.3 and o == "^":
            return Not(("^", Not(a), b))
        if q < 0.15 and o == "&":
            return Not(("|", Not(a), Not(b)))
        if q < 0.15 and o == "|":
            return Not(("&", Not(a), Not(b)))
        if q < 0.25:
            return ("$", [a, b, (o, ("?", 0), ("?", 1))])
        if q < 0.3 and o == "|":
            return ("^", ("^", a, b), ("&", a, b))
        return (o, a, b)
    if o == "$" or o == "?":
        return f
    if q < 0.06:
        return Not(Not(f))
    if q < 0.1:
        return ("$", [r.choice([T, F]), f])
    if q < 0.12:
        return ("&", f, T)
    if q < 0.14:
        return ("^", F, f)
    return f
