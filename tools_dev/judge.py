"""Small explicit-state judge for demonstrations: reads a slugsin file and judges strategies printed by slugs.
usage: judge.py MODE SPEC STRATEGY   MODE: explicit | recovery | permissive | counter"""
import itertools, re, sys

sys.setrecursionlimit(10000)


def parse_spec(fn):
    sec, cur = {}, None
    for l in open(fn):
        l = l.strip()
        if not l or l[0] == "#":
            continue
        if l[0] == "[":
            cur = l[1:-1]
        else:
            sec.setdefault(cur, []).append(l)
    def form(l):
        toks = iter(l.split())
        def rec(mem):
            t = next(toks)
            if t == "!":
                return ("!", rec(mem))
            if t in "&|^":
                a = rec(mem)
                return (t, a, rec(mem))
            return (t,)
        return rec([])
    return sec.get("INPUT", []), sec.get("OUTPUT", []), {k: [form(x) for x in sec.get(k, [])] for k in
            ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS")}


def ev(f, e):
    o = f[0]
    if o == "!":
        return not ev(f[1], e)
    if o == "&":
        return ev(f[1], e) and ev(f[2], e)
    if o == "|":
        return ev(f[1], e) or ev(f[2], e)
    if o == "^":
        return ev(f[1], e) != ev(f[2], e)
    if o == "1":
        return True
    if o == "0":
        return False
    return e[o]


class Game:
    def __init__(self, fn):
        self.I, self.O, self.p = parse_spec(fn)
        self.A = self.p["ENV_LIVENESS"] or [("1",)]
        self.G = self.p["SYS_LIVENESS"] or [("1",)]

    def env(self, s, t=None):
        e = dict(s)
        if t is not None:
            e.update({k + "'": x for k, x in t.items()})
        return e

    def all(self, k, s, t=None):
        e = self.env(s, t)
        return all(ev(f, e) for f in self.p[k])

    def vals(self, names):
        for b in itertools.product([False, True], repeat=len(names)):
            yield dict(zip(names, b))


def states(text):
    st = {}
    for m in re.finditer(r"State (\d+) with rank ([^\n]*?) -> <([^>]*)>\s*\n\s*With (?:successors :([^\n]*)|no successors\.)", text):
        v = {a.split(":")[0]: a.split(":")[1] == "1" for a in m.group(3).split(", ") if a}
        st[int(m.group(1))] = (m.group(2), v, [int(x) for x in (m.group(4) or "").replace(",", " ").split()])
    return st


def perm_states(text):
    st, cur = {}, None
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        m = re.match(r"State (\d+) with rank (\d+)$", lines[i])
        if m:
            v = {a.split(":")[0]: a.split(":")[1] == "1" for a in lines[i + 1].split(", ") if a}
            succ = []
            i += 2
            while i < len(lines) and lines[i].strip().isdigit():
                succ.append(int(lines[i]))
                i += 1
            st[int(m.group(1))] = (m.group(2), v, succ)
        else:
            i += 1
    return st


def sccs(nodes, succ):
    idx, low, on, stack, out, n = {}, {}, set(), [], [], [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ[r]))]
        idx[r] = low[r] = n[0]; n[0] += 1; stack.append(r); on.add(r)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; stack.append(w); on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = set()
                    while True:
                        w = stack.pop(); on.discard(w); c.add(w)
                        if w == u:
                            break
                    out.append(c)
    return out


def cycle_with(st, edges, conds):
    """an SCC of the edge set that contains an edge satisfying each of conds"""
    succ = {u: set() for u in st}
    for (u, w) in edges:
        succ[u].add(w)
    for c in sccs(list(st), succ):
        inner = [(u, w) for (u, w) in edges if u in c and w in c]
        if inner and all(any(f(u, w) for (u, w) in inner) for f in conds):
            return c
    return None


def main(mode, spec, strat):
    g = Game(spec)
    text = open(strat).read()
    st = perm_states(text) if mode == "permissive" else states(text)
    bad = []
    if not st:
        bad.append("no strategy")
    for n, (rank, v, succ) in st.items():
        for w in succ:
            if w not in st:
                bad.append("state %d has a missing successor %d" % (n, w))
    if bad:
        print("\n".join(bad)); return 1
    sat = lambda f: (lambda u, w: ev(f, g.env(st[u][1], st[w][1])))
    full = lambda n: set(st[n][1]) == set(g.I + g.O)
    edges = [(u, w) for u in st for w in set(st[u][2]) if full(u) and full(w)]
    for u, w in edges:
        a, b = st[u][1], st[w][1]
        if mode != "recovery" and not g.all("ENV_TRANS", a, {**b}):
            bad.append("%d -> %d violates the safety assumptions" % (u, w))
        if not g.all("SYS_TRANS", a, b):
            bad.append("%d -> %d violates the safety guarantees" % (u, w))
    if mode in ("explicit", "recovery", "permissive"):
        for i in g.vals(g.I):
            if g.all("ENV_INIT", {**i, **{o: False for o in g.O}}):
                if not any(all(s[1][k] == x for k, x in i.items()) and g.all("SYS_INIT", s[1]) for s in st.values()):
                    bad.append("no initial state for %r" % i)
        for n, (rank, v, succ) in st.items():
            for i in g.vals(g.I):
                k = sum(all(st[w][1][x] == y for x, y in i.items()) for w in succ)
                if g.all("ENV_TRANS", v, {**i, **{o: False for o in g.O}}):
                    if k == 0 or (k > 1 and mode != "permissive"):
                        bad.append("state %d has %d successors for the allowed input %r" % (n, k, i))
                elif k == 0 and mode == "recovery":
                    # some reaction to a state known to be winning?
                    for s in st.values():
                        if all(s[1][x] == y for x, y in i.items()) and g.all("SYS_TRANS", v, s[1]):
                            bad.append("state %d has no recovery transition for %r" % (n, i))
                            break
        ok = [(u, w) for u, w in edges if g.all("ENV_TRANS", st[u][1], st[w][1])]
        for j, G in enumerate(g.G):
            c = cycle_with(st, [(u, w) for u, w in ok if not sat(G)(u, w)], [sat(a) for a in g.A])
            if c:
                bad.append("the assumptions can be met forever without guarantee %d, in states %r" % (j, sorted(c)))
    else:
        for n, (rank, v, succ) in st.items():
            if not full(n):
                continue
            ins = {tuple(st[w][1][i] for i in g.I) for w in succ}
            if len(ins) != 1:
                bad.append("state %d has %d inputs" % (n, len(ins))); continue
            inp = dict(zip(g.I, ins.pop()))
            if all(full(w) for w in succ):
                for o in g.vals(g.O):
                    t = {**inp, **o}
                    if g.all("SYS_TRANS", v, t) and not any(st[w][1] == t for w in succ):
                        bad.append("state %d does not answer %r" % (n, t))
            else:
                for o in g.vals(g.O):
                    if g.all("SYS_TRANS", v, {**inp, **o}):
                        bad.append("state %d is no deadlock: %r" % (n, {**inp, **o}))
        c = cycle_with(st, edges, [sat(x) for x in g.G])
        if c:
            bad.append("all guarantees can be met forever, in states %r" % sorted(c))
        for i, a in enumerate(g.A):
            c = cycle_with(st, [(u, w) for u, w in edges if not sat(a)(u, w)], [])
            if c:
                bad.append("assumption %d may never be met, in states %r" % (i, sorted(c)))
    print("\n".join(bad[:10]) if bad else "ok: %d states" % len(st))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(*sys.argv[1:4]))
