"""Writes a Boolean function (truth table) as a text-mode decision diagram file."""


def write(fn, n, ids=None, nvars=None, names=None):
    """fn(bits tuple of length n) -> bool; variable k is written with id ids[k] (ascending); nvars: number of variables announced"""
    ids = list(range(n)) if ids is None else ids
    nvars = nvars or ((max(ids) + 1) if ids else 0)
    uniq, order = {}, []

    def mk(k, t, e):
        if t == e:
            return t
        neg = t < 0
        if neg:
            t, e = -t, -e
        key = (k, t, e)
        if key not in uniq:
            uniq[key] = len(order) + 2
            order.append(key)
        return -uniq[key] if neg else uniq[key]

    def rec(k, bits):
        if k == n:
            return 1 if fn(bits) else -1
        return mk(k, rec(k + 1, bits + (True,)), rec(k + 1, bits + (False,)))
    root = rec(0, ())
    sup = sorted({k for k, _, _ in order})
    # keep only nodes reachable from the root
    reach = set()

    def walk(u):
        u = abs(u)
        if u == 1 or u in reach:
            return
        reach.add(u)
        k, t, e = order[u - 2]
        walk(t), walk(e)
    walk(root)
    sup = sorted({order[u - 2][0] for u in reach})
    num, out = {1: 1}, ["1 T 1 0 0"]
    for u in sorted(reach):
        k, t, e = order[u - 2]
        num[u] = len(num) + 1
        out.append("%d %d %d %d %d" % (num[u], ids[k], sup.index(k), num[t], num[abs(e)] * (1 if e > 0 else -1)))
    h = [".ver DDDMP-2.0", ".mode A", ".varinfo 0", ".nnodes %d" % len(out), ".nvars %d" % nvars, ".nsuppvars %d" % len(sup)]
    h += [".ids " + " ".join(str(ids[k]) for k in sup), ".permids " + " ".join(str(ids[k]) for k in sup)]
    h += [".nroots 1", ".rootids %d" % (num[abs(root)] * (1 if root > 0 else -1)), ".nodes"]
    return "\n".join(h + out + [".end", ""])
