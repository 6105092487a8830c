"""C19: assumption analysis."""
import copy, re
import numpy as np
from vlib.harness import Check
from vlib.spec import *
from vlib import gen
from vlib.game import Game


def variant(g, **kw):
    q = copy.copy(g)
    q._win = None
    for k, x in kw.items():
        setattr(q, k, x)
    return q


def distances(g):
    """per goal: the sets of positions from which the goal is reached in at most k rounds, k = 1, 2, ..."""
    Z = g.win()
    res = []
    for G in g.G:
        goal = g.sys_safe & G & g.nxt(Z)
        Y = np.zeros(g.N, bool)
        seq = []
        while True:
            base = goal | (g.sys_safe & g.nxt(Y))
            newY = Y.copy()
            for A in g.A:
                stay = g.sys_safe & ~A
                X = np.ones(g.N, bool)
                while True:
                    X2 = g.cpre(base | (stay & g.nxt(X)))
                    if (X2 == X).all():
                        break
                    X = X2
                newY |= X
            if (newY == Y).all():
                break
            Y = newY
            seq.append(Y)
        res.append(seq or [Y])
    return res


def at(seq, k):
    return seq[min(k, len(seq) - 1)]


class C19(Check):
    id = "C19"
    technique = "monitoring of the printed report: every statement about an assumption recomputed by solving the specification without it in an explicit-state solver; ASan/UBSan"
    rule = "random specifications with several safety and liveness assumptions (named and unnamed, redundant, contradictory, useless and crucial ones), the analysis must classify each assumption exactly as the explicit solver does for the specification without it. Non-trivial: a realizable specification with at least two different classifications; distinct by specification."
    quick_n = 1500
    thorough_n = 25000
    min_nontrivial = 200

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        if idx < len(gen.EDGE):
            s, g = gen.EDGE[idx].copy(), Game(gen.EDGE[idx])
        else:
            best = None
            for _ in range(6):
                s, g = gen.hard_spec(r, tries=3, plain_names=True)
                names = s.inputs + s.outputs
                if r.random() < 0.5 and len(s.env_trans) < 4 and s.inputs:
                    s.env_trans.append(clause(r, names + [i + "'" for i in s.inputs], 3))
                if r.random() < 0.3 and s.env_trans:
                    s.env_trans.append(r.choice(s.env_trans))
                if r.random() < 0.5 and len(s.env_live) < 3:
                    s.env_live.append(rand_formula(r, names + [n + "'" for n in names], 2))
                g = Game(s)
                if g.realizable():
                    n = len(s.env_trans) + len(s.env_live)
                    # prefer those where dropping something matters
                    sc = n
                    nl = variant(g, A=[np.ones(g.shape, bool)])
                    ns = variant(g, env_safe=np.ones(g.shape, bool))
                    sc += 3 * (not nl.realizable()) + 3 * (not ns.realizable()) + 1 * (nl.win() != g.win()).any()
                    if best is None or sc > best[0]:
                        best = (sc, s, g)
                    if r.random() < 0.25:
                        break
                elif r.random() < 0.03:
                    best = (0, s, g)
                    break
            if best:
                _, s, g = best
        # write down, naming some properties
        lines, sec, exp_names = [], None, {"[ENV_TRANS]": [], "[ENV_LIVENESS]": []}
        k = 0
        order = None
        if r.random() < 0.5:
            rest = list(SECTIONS[2:])
            r.shuffle(rest)
            order = SECTIONS[:2] + rest
        naming = r.choice([0.1, 0.4, 0.7])
        for l in s.slugsin(order).rstrip("\n").split("\n"):
            if l.startswith("["):
                sec = l
            elif l.strip() and sec not in exp_names:
                if r.random() < naming / 2:
                    lines.append("## other property %d" % len(lines))
            elif sec in exp_names and l.strip():
                if r.random() < naming:
                    k += 1
                    nm = r.choice(["P%d" % k, "never stops %d" % k, "x -> y (%d)" % k])
                    lines.append("##" + r.choice(["", " ", "   "]) + nm + r.choice(["", "  "]))
                    if r.random() < 0.2:
                        lines.append("# an ordinary comment")
                    exp_names[sec].append(nm)
                else:
                    exp_names[sec].append("%s Assumption %d" % ("Safety" if sec == "[ENV_TRANS]" else "Liveness", len(exp_names[sec]) + 1))
            lines.append(l)
        txt = "\n".join(lines) + "\n"
        q = ctx.run(["--analyzeAssumptions", "s.slugsin"], {"s.slugsin": txt}, timeout=40)
        if q.rc != 0:
            return ctx.viol("rc", "rc %d %s\n%s" % (q.rc, q.err[-400:], txt))
        if not g.realizable():
            ctx.stats["unrealizable"] += 1
            if "Starting with an unrealizable specification" not in q.out or '"' in q.out:
                ctx.viol("verdict", "unrealizable specification analysed\n%s\n%s" % (txt, q.out))
            return
        if "Starting with a realizable specification" not in q.out:
            return ctx.viol("verdict", "realizable specification not recognised\n%s\n%s" % (txt, q.out))
        got = re.findall(r'^"(.*?)" ((?:is|makes) .*)$', q.out, re.M)
        W = g.win()
        ref = distances(g)
        parts = [g.conj([f]) for f in s.env_trans]
        items = []
        for i, nm in enumerate(exp_names["[ENV_TRANS]"]):
            e = np.ones(g.shape, bool)
            for j, z in enumerate(parts):
                if j != i:
                    e = e & z
            items.append((nm, variant(g, env_safe=e), (e == g.env_safe).all()))
        live = [g.full(f) for f in s.env_live]
        ln = exp_names["[ENV_LIVENESS]"] or ["Automatically added TRUE liveness assumption"]
        for i, nm in enumerate(ln):
            A = [z for j, z in enumerate(live) if j != i]
            items.append((nm, variant(g, A=A or [np.ones(g.shape, bool)]), None))
        if [x[0] for x in got] != [x[0] for x in items]:
            return ctx.viol("names", "assumptions listed %r, expected %r\n%s\n%s" % ([x[0] for x in got], [x[0] for x in items], txt, q.out))
        classes = set()
        for (nm, said), (_, h, redundant) in zip(got, items):
            kind = "safety" if redundant is not None else "liveness"
            new = h.win()
            said_needed = said.startswith("is crucially needed")
            ctx.stats["assumptions judged"] += 1
            if said_needed != (not h.realizable()):
                ctx.viol("needed:" + kind, "%r %s, but without it the specification is %srealizable\n%s\n%s" % (nm, said, "" if h.realizable() else "un", txt, q.out))
                continue
            if said_needed:
                classes.add("needed:" + kind)
                ctx.stats["needed " + kind] += 1
                continue
            smaller = bool((W & ~new).any())
            if said.startswith("makes more positions winning") != smaller:
                ctx.viol("winning:" + kind, "%r %s, but without it %d instead of %d positions are winning\n%s\n%s" % (nm, said, new.sum(), W.sum(), txt, q.out))
                continue
            if smaller:
                classes.add("winning:" + kind)
                ctx.stats["makes positions winning " + kind] += 1
                if "without any effect" in said and h.realizable_robotics() != g.realizable_robotics():
                    ctx.viol("robotics:" + kind, "%r %s, but the robotics verdict changes\n%s" % (nm, said, txt))
                elif "without any effect" not in said and not ((W & ~new) & g.env_init).any():
                    ctx.viol("robotics:" + kind, "%r %s, but no affected position satisfies the initialisation assumptions\n%s" % (nm, said, txt))
                continue
            if redundant is not None and said.startswith("is redundant") != redundant:
                ctx.viol("redundant", "%r %s, but it %s by the others\n%s" % (nm, said, "is implied" if redundant else "is not implied", txt))
                continue
            if redundant:
                classes.add("redundant")
                ctx.stats["redundant"] += 1
                continue
            nd = distances(h)
            slower = []
            for j in range(len(g.G)):
                m = max(len(ref[j]), len(nd[j]))
                if any((at(ref[j], k) != at(nd[j], k)).any() for k in range(m)):
                    slower.append(j)
            if said.startswith("makes reaching the system goals"):
                gs = [int(x) for x in re.findall(r"(?:goals |, )(\d+)", said)]
            else:
                gs = []
                if not said.startswith("is superfluous"):
                    return ctx.viol("format", "unknown statement %r" % said)
            if gs != slower:
                ctx.viol("distance:" + kind, "%r %s; goals reached later without it: %r\n%s\n%s" % (nm, said, slower, txt, q.out))
                continue
            classes.add("easier" if gs else "superfluous")
            ctx.stats["easier " + kind if gs else "superfluous " + kind] += 1
        if len(classes) >= 2:
            ctx.nontrivial(txt)
        ctx.sample = {"spec": txt[:400], "report": q.out[:600]}


check = C19()
