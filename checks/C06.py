"""C06: text / JSON / file renderings and post-processing scripts."""
import re, sys
from vlib.harness import Check
from vlib import build as B
from vlib.spec import *
from vlib import gen, strat

PY = sys.executable


def int_names(r, names, used):
    """Replaces some variables by bits of encoded integers: returns name list and [(head, lo, [bit names])]."""
    out, ints = list(names), []
    k, n = 0, 0
    while k < len(out):
        w = min(r.choice([1, 1, 2, 3]), len(out) - k)
        if r.random() < 0.7:
            head = r.choice(["pos", "x", "n_r", "Count"]) + r.choice(["", str(n), names[k][:1]])
            if used and r.random() < 0.5:
                head = r.choice(used) + r.choice(["", "1", "_b", "x", "."])     # names that are prefixes of others
            while head in used or not head:
                head += r.choice("abc12")
            used.append(head)
            lo = r.choice([0, 0, 1, 5, 12, -1, -6])
            hi = lo + (1 << w) - 1 - r.choice([0, 0, 1 if w > 1 else 0])
            for b in range(w):
                out[k + b] = head + ("@0.%d.%d" % (lo, hi) if b == 0 else "@%d" % b)
            ints.append((head, lo, [out[k + b] for b in range(w)]))
            n += 1
        elif w == 1 and used and r.random() < 0.3:
            out[k] = r.choice(used) + r.choice(["", "2", "a"])
            while out[k] in used:
                out[k] += r.choice("ab12")
            used.append(out[k])
        k += w
    return out, ints


class C06(Check):
    id = "C06"
    rule = ("random realizable specifications (variables partly bits of encoded integers); text and JSON renderings of separate runs, to stdout and to a file, with all combinable options, are parsed strictly and compared as automata; the graph conversion and "
            "integer decoding scripts are run on the text and their output is parsed and compared state by state. Non-trivial: at least three states; distinct by strategy.")
    quick_n = 450
    thorough_n = 8000
    min_nontrivial = 100

    def bins(self):
        return {"slugs": B.slugs(), "py": PY}

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        rob, rec = r.random() < 0.3, r.random() < 0.3
        opts = ["--explicitStrategy"] + r.choice([[], ["--biasForAction"], ["--fixedPointRecycling"]]) + (["--sysInitRoboticsSemantics"] if rob else []) + (["--simpleRecovery"] if rec else [])
        s, g = gen.hard_spec(r, tries=5, want=lambda g: g.realizable_robotics() if rob else g.realizable(), plain_names=True)
        # rename the variables to encoded integers
        used = []
        ni, i1 = int_names(r, s.inputs, used)
        no, i2 = int_names(r, s.outputs, used)
        txt = s.slugsin()
        ren = dict(zip(s.inputs + s.outputs, ni + no))
        txt = re.sub(r"[^\s]+", lambda m: ren.get(m.group(0), ren.get(m.group(0)[:-1], "") + "'" if m.group(0).endswith("'") and m.group(0)[:-1] in ren else m.group(0)), txt)
        names = ni + no
        exp = g.realizable_robotics() if rob else g.realizable()
        f = {"s.slugsin": txt}
        t1 = ctx.run(opts + ["s.slugsin"], f)
        j1 = ctx.run(opts + ["--jsonOutput", "s.slugsin"], f)
        tf = ctx.run(opts + ["s.slugsin", "o"], f, outputs=["o"])
        jf = ctx.run(["--jsonOutput"] + opts + ["s.slugsin", "o"], f, outputs=["o"])
        for q in (t1, j1, tf, jf):
            if q.rc != 0 or q.verdict != exp:
                return ctx.viol("verdict", "rc %d verdict %s reference %s\n%s" % (q.rc, q.verdict, exp, txt))
        if not exp:
            if t1.out or j1.out or tf.out or jf.out or tf.files.get("o") or jf.files.get("o"):
                ctx.viol("strategy-for-unrealizable", "output produced for an unrealizable specification\n" + txt)
            return
        if tf.out or jf.out:
            return ctx.viol("stdout-not-empty", "output file given, but stdout has %r" % (tf.out or jf.out)[:300])
        try:
            A, o1 = strat.parse_text(t1.out)
            J, o2 = strat.parse_json(j1.out)
            AF, _ = strat.parse_text(tf.files.get("o", ""))
            JF, _ = strat.parse_json(jf.files.get("o", ""))
        except strat.FormatError as e:
            return ctx.viol("format", "%s\n%s\n%s\n%s" % (e, txt, t1.out[:1000], j1.out[:1000]))

        def canon(st):
            k = {n: (tuple(sorted(st[n][1].items())), st[n][0]) for n in st}
            return {k[n]: sorted(k.get(t, ("missing", t)) for t in st[n][2]) for n in st}, len(st)
        cs = [canon(x) for x in (A, J, AF, JF)]
        for n, c in zip(("JSON on stdout", "text in file", "JSON in file"), cs[1:]):
            if c != cs[0]:
                return ctx.viol("rendering-differs:" + n, "%s differs from text on stdout\noptions %s\n%s\n%s\n%s" % (n, opts, txt, t1.out[:1500], j1.out[:1500]))
        if set(o2) != set(names) or (A and set(o1) != set(names)):
            return ctx.viol("variable-list", "variables %r / %r, declared %r" % (o1, o2, names))
        ctx.stats["states compared"] += len(A)
        if len(A) > 2:
            ctx.nontrivial(t1.out)
        ctx.sample = {"text": t1.out[:300], "json": j1.out[:300]}
        self.graph(ctx, t1.out, A)
        self.decode(ctx, t1.out, A, o1, i1 + i2)

    def graph(self, ctx, out, A):
        q = ctx.run([B.REPO + "/tools/explicitStrategyToGraphviz.py"], stdin=out, bin="py")
        if q.rc != 0:
            return ctx.viol("graph-script-fails", "explicitStrategyToGraphviz.py rc=%d\n%s\n%s" % (q.rc, q.err[-800:], out[:1500]))
        if not A:
            if "Empty" not in q.out:
                ctx.viol("graph-empty", q.out)
            return
        nodes, edges = {}, []
        head = None
        for l in q.out.split("\n"):
            m = re.match(r'^"(\d+)" \[shape=box,label="([01]*)/(.*)"\];$', l.strip())
            e = re.match(r'^"(\d+)" -> "(\d+)";$', l.strip())
            h = re.match(r'^node \[shape=tab\] "(.*)";$', l.strip())
            if m:
                nodes[int(m.group(1))] = (m.group(2), m.group(3))
            elif e:
                edges.append((int(e.group(1)), int(e.group(2))))
            elif h:
                head = h.group(1).split(",")
            elif l.strip() not in ("digraph {", "}", ""):
                return ctx.viol("graph-line", "unexpected line %r in graph\n%s" % (l, q.out[:800]))
        want_e = sorted((n, t) for n in A for t in A[n][2])
        if sorted(edges) != want_e:
            return ctx.viol("graph-edges", "edges %r, expected %r\n%s" % (sorted(edges)[:20], want_e[:20], out[:1500]))
        if head is None or set(nodes) != set(A):
            return ctx.viol("graph-nodes", "nodes %r" % sorted(nodes)[:20])
        for n in A:
            if dict(zip(head, map(int, nodes[n][0]))) != A[n][1] or nodes[n][1] != str(A[n][0]):
                return ctx.viol("graph-label", "node %d labelled %r, state %r" % (n, nodes[n], A[n]))
        ctx.stats["graphs compared"] += 1

    def decode(self, ctx, out, A, order, ints):
        q = ctx.run([B.REPO + "/tools/explicitImplementationIntegerDecoder.py"], stdin=out, bin="py")
        if q.rc != 0:
            return ctx.viol("decoder-fails", "rc=%d\n%s\n%s" % (q.rc, q.err[-800:], out[:1000]))
        exp = []
        bits = {b for h, lo, bs in ints for b in bs}
        lead = {bs[0]: (h, lo, bs) for h, lo, bs in ints}
        for l in out.split("\n"):
            m = strat.RE_STATE.match(l)
            if not m:
                exp.append(l)
                continue
            d, o = strat.parse_vals(m.group(3))
            parts = []
            for n in o:
                if n in lead:
                    h, lo, bs = lead[n]
                    parts.append("%s=%d" % (h, lo + sum(d[b] << k for k, b in enumerate(bs))))
                elif n not in bits:
                    parts.append("%s:%d" % (n, d[n]))
            exp.append(l[:l.index("<")] + "<" + ", ".join(parts) + ">")
            ctx.stats["decoded states"] += 1
        if q.out != "\n".join(exp):
            for a, b in zip(q.out.split("\n"), exp):
                if a != b:
                    return ctx.viol("decoder-value", "printed %r, expected %r" % (a, b))
            ctx.viol("decoder-lines", "number of lines differs")


check = C06()
