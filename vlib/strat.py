"""Parsing of explicit strategies and the monitors that judge them."""
import json, re
from .game import position, fair_bad_cycle

RE_STATE = re.compile(r"^State (\d+) with rank (\d+|\(\d+,\d+\)) -> <(.*)>$")
RE_SUCC = re.compile(r"^\tWith successors : ?([\d, ]*)$")


class FormatError(Exception):
    pass


def parse_rank(t):
    if t.startswith("("):
        a, b = t[1:-1].split(",")
        return (int(a), int(b))
    return int(t)


def parse_vals(t):
    d = {}
    order = []
    if t.strip():
        for part in t.split(", "):
            n, b = part.rsplit(":", 1)
            if b not in "01" or n in d:
                raise FormatError("bad valuation %r" % t)
            d[n] = int(b)
            order.append(n)
    return d, order


def parse_text(s):
    """{n: (rank, valuation, [succ] or None for 'no successors')}, variable order"""
    res, order = {}, None
    lines = s.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    k = 0
    while k < len(lines):
        m = RE_STATE.match(lines[k])
        if not m:
            raise FormatError("unexpected line %r" % lines[k][:200])
        n = int(m.group(1))
        if n in res:
            raise FormatError("state %d printed twice" % n)
        d, o = parse_vals(m.group(3))
        if k + 1 >= len(lines):
            raise FormatError("state %d without successor line" % n)
        if lines[k + 1] == "\tWith no successors.":
            succ = None
        else:
            q = RE_SUCC.match(lines[k + 1])
            if not q:
                raise FormatError("unexpected line %r" % lines[k + 1][:200])
            succ = [int(x) for x in q.group(1).split(", ")] if q.group(1).strip() else []
            order = order or o
            if o != order:
                raise FormatError("variable order changes")
        res[n] = (parse_rank(m.group(2)), d, succ)
        k += 2
    return res, order


def parse_json(s):
    def nodup(pairs):
        d = {}
        for k, x in pairs:
            if k in d:
                raise FormatError("duplicate key %r" % k)
            d[k] = x
        return d
    try:
        j = json.loads(s, object_pairs_hook=nodup)
    except ValueError as e:
        raise FormatError("not JSON: %s" % e)
    if set(j) != {"version", "slugs", "variables", "nodes"}:
        raise FormatError("top-level keys %r" % sorted(j))
    vs = j["variables"]
    if not all(isinstance(x, str) for x in vs) or len(set(vs)) != len(vs):
        raise FormatError("bad variable list")
    res = {}
    for n, x in j["nodes"].items():
        if set(x) != {"rank", "state", "trans"} or len(x["state"]) != len(vs) or any(b not in (0, 1) for b in x["state"]):
            raise FormatError("bad node %r" % n)
        res[int(n)] = (x["rank"], dict(zip(vs, x["state"])), list(x["trans"]))
    return res, vs


def parse_permissive(s):
    res, order = {}, None
    lines = s.split("\n")
    k = 0
    while k < len(lines) - 1:
        m = re.match(r"^State (\d+) with rank (\d+)$", lines[k])
        if not m:
            raise FormatError("unexpected line %r" % lines[k][:200])
        n = int(m.group(1))
        if n in res:
            raise FormatError("state %d printed twice" % n)
        d, o = parse_vals(lines[k + 1])
        order = order or o
        k += 2
        succ = []
        while lines[k] != "":
            succ.append(int(lines[k]))
            k += 1
        k += 1
        res[n] = (int(m.group(2)), d, succ)
    return res, order


def positions(g, st):
    """{n: position}; raises if a valuation does not cover the variables exactly"""
    want = set(g.spec.inputs) | set(g.spec.outputs)
    out = {}
    for n, (rank, d, succ) in st.items():
        if set(d) != want:
            raise FormatError("state %d assigns %r, expected %r" % (n, sorted(d), sorted(want)))
        out[n] = position(g.spec, d, g.O)
    return out


def check_explicit(g, st, robotics=False, recovery=False, deterministic=True, win=None, goals=None, liveness=True, ranks=True, safe=None, initial=True, env_safe=None):
    """Monitor for explicit system strategies. Returns a list of (key, message); g is the explicit game.
    win: optional bool[N] membership to be required of every state; safe: transition relation override."""
    bad = []
    pos = positions(g, st)
    safe = g.sys_safe if safe is None else safe
    env_safe = g.env_safe if env_safe is None else env_safe
    O = g.O
    G = g.G if goals is None else goals
    nums = sorted(st)
    if nums != list(range(len(nums))):
        bad.append(("numbering", "state numbers are not 0..n-1: %r" % nums[:20]))
    seen = {}
    for n in nums:
        key = (pos[n], st[n][0])
        if key in seen:
            bad.append(("duplicate-state", "states %d and %d are both %r rank %r" % (seen[key], n, st[n][1], st[n][0])))
        seen[key] = n
        if ranks and not (0 <= st[n][0] < len(G)):
            bad.append(("rank-range", "state %d has rank %r but there are %d guarantees" % (n, st[n][0], len(G))))
            return bad
        if win is not None and not win[pos[n]]:
            bad.append(("losing-state", "state %d %r is not a winning position" % (n, st[n][1])))
    # initial states: reference set, numbered first
    if initial:
        W = g.win() if win is None else win
        want = set()
        for p in range(g.N):
            if W[p] and g.sys_init[p] and (recovery or g.env_init[p]):
                want.add(p)
        k = len(want)
        got = [pos[n] for n in nums[:k]]
        if set(got) != want or any(st[n][0] != 0 for n in nums[:k]):
            # weaker, observable part: each allowed input has an initial state
            miss = [p for p in want if (p, 0) not in seen]
            if miss:
                bad.append(("initial-missing", "no state for initial position %d (rank 0)" % miss[0]))
            else:
                bad.append(("initial-order", "the first %d states are not the initial positions" % k))
    edges = []
    for n in nums:
        rank, d, succ = st[n]
        p = pos[n]
        if succ is None:
            bad.append(("no-successors", "state %d" % n))
            continue
        if len(set(succ)) != len(succ):
            bad.append(("duplicate-successor", "state %d lists %r" % (n, succ)))
        byx = {}
        for t in succ:
            if t not in st:
                bad.append(("dangling", "state %d refers to missing state %d" % (n, t)))
                continue
            q = pos[t]
            x, y = q // O, q % O
            if x in byx and deterministic:
                bad.append(("nondeterministic", "state %d has two successors for input %d" % (n, x)))
            byx.setdefault(x, []).append(t)
            allowed = env_safe[p, x, y]
            if not allowed and not recovery:
                bad.append(("disallowed-input", "state %d -> %d takes an input the assumptions forbid" % (n, t)))
            if not safe[p, x, y]:
                bad.append(("unsafe", "transition %d -> %d violates the safety guarantees: %r -> %r" % (n, t, d, st[t][1])))
            r2 = st[t][0]
            if ranks:
                b = len(G)
                # every goal left behind must be satisfied by this transition
                k = rank
                steps = 0
                while k != r2:
                    if not G[k][p, x, y]:
                        bad.append(("goal-skipped", "transition %d -> %d moves from goal %d to %d without satisfying goal %d" % (n, t, rank, r2, k)))
                        break
                    k = (k + 1) % b
            if allowed:
                edges.append((n, t, (p, x, y)))
        for x in range(g.I):
            if env_safe[p, x].any() and x not in byx:
                bad.append(("missing-input", "state %d %r has no successor for the allowed next input %d" % (n, d, x)))
        if len(bad) > 10:
            return bad
    if liveness:
        c = fair_bad_cycle(edges, [lambda l, A=A: bool(A[l]) for A in g.A], [lambda l, X=X: bool(X[l]) for X in G])
        if c:
            comp, j = c
            bad.append(("liveness", "states %r form a cycle on which every assumption holds infinitely often and guarantee %d never does" % (sorted(comp)[:12], j)))
    return bad


def canonical(st, pos):
    """automaton as {(pos,rank): set((pos,rank))}"""
    k = {n: (pos[n], st[n][0]) for n in st}
    return {k[n]: frozenset(k[t] for t in st[n][2]) for n in st}
