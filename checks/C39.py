"""C39: tools that read printed strategies (tools/explicitStrategyToGraphviz.py, tools/explicitImplementationIntegerDecoder.py)."""
import re, sys
from vlib import build as B, gen
from vlib.harness import Check
from vlib.spec import *
from vlib.game import Game
from vlib import strat

PY = [sys.executable]


def rand_structured(r, maxbits=6, hard=False):
    """a small structured specification over numbers and Booleans, mostly realizable"""
    bits, decl, ints, bools = 0, {"INPUT": [], "OUTPUT": []}, {}, []
    names = r.sample(["x", "pos", "x1", "n_2", "y", "level", "posx", "at"], r.choice([1, 1, 2, 2, 3]))
    for n in names:
        lo = r.choice([0, 0, 1, 2, 5, 7, 10])
        hi = lo + r.choice([0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8])
        w = (hi - lo).bit_length()
        if bits + w > maxbits:
            continue
        bits += w
        sec = r.choice(["INPUT", "OUTPUT", "OUTPUT"])
        decl[sec].append("%s:%d...%d" % (n, lo, hi))
        ints[n] = (lo, hi, sec)
    for n in r.sample(["a", "b", "req", "x_b"], r.choice([0, 1, 1, 2])):
        if bits < maxbits + (not hard):
            bits += 1
            sec = r.choice(["INPUT", "OUTPUT"])
            decl[sec].append(n)
            bools.append((n, sec))
    for k in decl:
        r.shuffle(decl[k])
    trans, live, envt = [], [], []
    for n, (lo, hi, sec) in ints.items():
        c = r.choice([lo, hi, r.randint(lo, hi)])
        if sec == "OUTPUT":
            trans += r.sample(["%s' != %s" % (n, n), "%s' <= %s + 1" % (n, n), "%s' = %d -> %s != %d" % (n, c, n, c), "%s' + 1 >= %s" % (n, n)], r.choice([0, 1, 1, 2])) if hi > lo else []
            if r.random() < 0.6:
                live.append("%s = %d" % (n, c))
        else:
            envt += r.sample(["%s' <= %s + 1" % (n, n), "%s' != %s" % (n, n)], r.choice([0, 1])) if hi > lo else []
    o = [n for n in ints if ints[n][2] == "OUTPUT"]
    i = [n for n in ints if ints[n][2] == "INPUT"]
    if o and i and r.random() < 0.4:
        trans.append("%s' >= %s' | %s' = %d" % (o[0], i[0], o[0], ints[o[0]][1]))
    for n, sec in bools:
        if sec == "OUTPUT" and r.random() < 0.5:
            live.append(r.choice(["%s", "! %s"]) % n)
    if hard:
        b = lambda s=None: [n for n, c in bools if s in (None, c)]
        for _ in range(r.choice([0, 1, 2, 3])):
            if b("OUTPUT") and b("INPUT") and r.random() < 0.5:
                trans.append(r.choice(["%s' <-> %s", "! %s' | %s", "%s | %s'", "%s' -> %s'"]) % (r.choice(b("OUTPUT")), r.choice(b("INPUT"))))
            elif o and r.random() < 0.6:
                n = r.choice(o)
                lo, hi, _ = ints[n]
                c = r.randint(lo, hi)
                trans.append(r.choice(["%s' = %d | %s' > %s" % (n, c, n, n), "%s' >= %s" % (n, n), "%s = %d -> %s' = %d" % (n, c, n, r.randint(lo, hi)), "%s' != %d" % (n, c)] + (["%s' -> %s' = %d" % (r.choice(b("INPUT")), n, c)] if b("INPUT") else []) + (["%s' + %d >= %s'" % (n, r.choice([0, 1, 3]), r.choice(i))] if i else [])))
            if o and r.random() < 0.3:
                live.append("%s = %d" % (r.choice(o), r.randint(lo, hi) if 0 else ints[o[0]][0]))
    t = ""
    for k, b in (("INPUT", decl["INPUT"]), ("OUTPUT", decl["OUTPUT"]), ("ENV_TRANS", envt), ("SYS_TRANS", trans), ("SYS_LIVENESS", live)):
        if b:
            t += "[%s]\n%s\n\n" % (k, "\n".join(b))
    return t


def numbers(order, d, sep=", "):
    """the state as the decoder prints it"""
    res = []
    for n in order:
        if "@" not in n:
            res.append("%s:%d" % (n, d[n]))
        elif "@0." in n:
            h, lo = n.split("@")[0], int(n.split(".")[-2])
            v = lo
            for q in order:
                m = re.match(r"^(.*)@(\d+)(?:\.\d+\.\d+)?$", q)
                if m and m.group(1) == h:
                    v += d[q] << int(m.group(2))
            res.append("%s=%d" % (h, v))
    return sep.join(res)


class C39(Check):
    id = "C39"
    technique = "runtime monitoring: strategies printed by the sanitized program are piped through the real scripts, whose output is parsed back and compared with the strategy"
    rule = ("A case is a random specification, with plain variables or with numbers (compiled by the structured-slugs compiler), synthesized with a random set of strategy options (robotics semantics, recovery, two-dimensional cost; counterstrategies for the decoder); "
            "the graph must have exactly the states, ranks, values and edges of the strategy, and the decoded text must be the strategy's text with each encoded number replaced by its value. Non-trivial: a strategy with at least two states; distinct by specification and options.")
    quick_n = 240
    thorough_n = 4000
    min_nontrivial = 60

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        nums = r.random() < 0.6
        if nums:
            src = rand_structured(r)
            c = ctx.run([B.REPO + "/tools/StructuredSlugsParser/compiler.py", "s.structuredslugs"], {"s.structuredslugs": src}, bin="py", exe=PY)
            if c.rc != 0:
                return ctx.viol("compile", "the compiler failed on\n%s\n%s" % (src, c.err[-800:]))
            txt = c.out
        else:
            s = gen.spec_for(r, 0, max_total=5, plain_names=True)
            src = txt = s.slugsin()
        opts = r.choice([["--explicitStrategy"], ["--explicitStrategy"], ["--explicitStrategy", "--sysInitRoboticsSemantics"], ["--explicitStrategy", "--simpleRecovery"], ["--explicitStrategy", "--twoDimensionalCost"], ["--counterStrategy"]])
        files = {"s.slugsin": txt}
        if "--twoDimensionalCost" in opts:
            files["cost"] = "1 1 <\n"
        run = ctx.run(opts + list(files), files, timeout=60)
        if run.verdict is None:
            return ctx.viol("no-verdict", "no verdict\n%s\n%s" % (txt, run.err[-500:]))
        real = run.verdict
        text_ = run.out if real != ("--counterStrategy" in opts) else ""
        info = "\noptions: %s\nspecification:\n%s\nstrategy:\n%s" % (" ".join(opts), src, run.out[:3000])
        try:
            states, order = strat.parse_text(text_)[:2]
        except strat.FormatError as e:
            return ctx.viol("strategy-format", "%s" % e + info)
        for n, (rank, d, succ) in states.items():
            if set(d) != set(order):
                order = list(d)
        ctx.stats["strategies of %d states" % len(states) if len(states) < 2 else "strategies of several states"] += 1
        # the graph
        if opts[0] == "--explicitStrategy":
            g = ctx.run([B.REPO + "/tools/explicitStrategyToGraphviz.py"], bin="py", exe=PY, stdin=text_)
            if g.rc != 0:
                return ctx.viol("graph:failed", "rc=%d %s" % (g.rc, g.err[-800:]) + info)
            self.graph(ctx, g.out, states, order, info)
        # decoded numbers
        g = ctx.run([B.REPO + "/tools/explicitImplementationIntegerDecoder.py"], bin="py", exe=PY, stdin=text_)
        if g.rc != 0:
            return ctx.viol("decoder:failed", "rc=%d %s" % (g.rc, g.err[-800:]) + info)
        want, got = text_.split("\n"), g.out.split("\n")
        if len(want) != len(got):
            return ctx.viol("decoder:lines", "%d lines instead of %d" % (len(got), len(want)) + info)
        for w, h in zip(want, got):
            m = re.match(r"^(State .* -> )<(.*)>(.*)$", w)
            if m:
                d, o = strat.parse_vals(m.group(2))
                w = "%s<%s>%s" % (m.group(1), numbers(o, d), m.group(3))
                ctx.stats["numbers decoded"] += w.count("=")
            if w != h:
                return ctx.viol("decoder:text", "'%s' instead of '%s'" % (h, w) + info)
        if len(states) > 1:
            ctx.nontrivial(src + " ".join(opts))
        ctx.sample = {"specification": src[:300], "options": opts, "states": len(states)}

    def graph(self, ctx, out, states, order, info):
        info += "\ngraph:\n" + out[:3000]
        ls = [l.strip() for l in out.split("\n") if l.strip()]
        if not states:
            if "digraph" not in out or out.count("{") != out.count("}") or "->" in out:
                ctx.viol("graph:empty", "not an empty graph" + info)
            return
        if ls[0] != "digraph {" or ls[-1] != "}":
            return ctx.viol("graph:format", "no digraph" + info)
        nodes, edges, head = {}, [], None
        for l in ls[1:-1]:
            m = re.match(r'^node \[shape=tab\] "([^"]*)";$', l)
            if m and head is None:
                head = m.group(1)
                continue
            m = re.match(r'^"(\d+)" \[shape=box,label="([^"]*)"\];$', l)
            if m:
                if m.group(1) in nodes:
                    return ctx.viol("graph:node", "node %s twice" % m.group(1) + info)
                nodes[m.group(1)] = m.group(2)
                continue
            m = re.match(r'^"(\d+)" -> "(\d+)";$', l)
            if not m:
                return ctx.viol("graph:format", "line " + l + info)
            edges.append((m.group(1), m.group(2)))
        if head != ",".join(order or []):
            return ctx.viol("graph:propositions", "propositions %s" % head + info)
        rank = lambda k: str(k) if not isinstance(k, tuple) else "(%d,%d)" % k
        want = {str(n): "".join(str(d[x]) for x in order or []) + "/" + rank(k) for n, (k, d, _) in states.items()}
        if nodes != want:
            return ctx.viol("graph:node", "nodes %s instead of %s" % (dict(set(nodes.items()) - set(want.items())), dict(set(want.items()) - set(nodes.items()))) + info)
        we = sorted((str(n), str(x)) for n, (_, _, su) in states.items() for x in (su or []))
        if sorted(edges) != we:
            return ctx.viol("graph:edge", "edges differ: %s" % sorted(set(edges) ^ set(we))[:10] + info)
        ctx.stats["edges judged"] += len(we)
        ctx.stats["nodes judged"] += len(nodes)


check = C39()
