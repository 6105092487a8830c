"""C20: safety/liveness interaction table and its notes."""
import re
import numpy as np
from vlib.harness import Check
from vlib.spec import *
from vlib import gen
from vlib.game import Game
from checks.C19 import variant


def nonstrict(s, g):
    q = s.copy()
    z = "zzFailed"
    q.outputs = q.outputs + [z]
    q.sys_trans = [Not(("^", v(z + "'"), Or(Not(And(*s.sys_trans)) if s.sys_trans else F, v(z))))]
    q.sys_live = (q.sys_live or [T]) + [Not(v(z + "'"))]
    q.sys_init = q.sys_init + [Not(v(z))]
    return Game(q)


class C20(Check):
    id = "C20"
    technique = "monitoring of the printed table and notes: sixteen independent verdicts per semantics, the non-strict variant and both falsification distances recomputed by an explicit-state solver; ASan/UBSan"
    rule = "random specifications; all 16 rows in both semantics, the note on non-strict implication and the numbers of falsification steps are compared. Non-trivial: the table holds both verdicts; distinct by specification."
    quick_n = 1500
    thorough_n = 20000
    min_nontrivial = 250

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        if idx < len(gen.EDGE):
            s, g = gen.EDGE[idx].copy(), Game(gen.EDGE[idx])
        else:
            s, g = gen.hard_spec(r, tries=5, plain_names=True)
            if r.random() < 0.3:
                p, _ = gen.probe(r, s, g)
                s = p or s
            elif r.random() < 0.3:
                s = gen.robotics_probe(r, s, g)
            if r.random() < 0.1 and s.outputs:
                old, s = s.outputs[0], s
                from checks.C18 import rename
                s = rename(s, {old: "safetyGuaranteesFailed"})
            g = Game(s)
        txt = s.slugsin()
        q = ctx.run(["--analyzeSafetyLivenessInteraction", "s.slugsin"], {"s.slugsin": txt}, timeout=60)
        if q.rc != 0:
            return ctx.viol("rc", "rc %d %s\n%s" % (q.rc, q.err[-400:], txt))
        rows = re.findall(r"^\|\s*([+-])\s*\|\s*([+-])\s*\|\s*([+-])\s*\|\s*([+-])\s*\|\|\s*(yes|no)\s*\|\s*(yes|no)\s*\|$", q.out, re.M)
        if len(rows) != 16 or len(set(x[:4] for x in rows)) != 16:
            return ctx.viol("rows", "%d rows\n%s\n%s" % (len(rows), txt, q.out))
        one = np.ones(g.shape, bool)
        verd = {}
        for a, b, c, d, cl, ro in rows:
            h = variant(g, env_safe=g.env_safe if a == "+" else one, A=g.A if b == "+" else [one], sys_safe=g.sys_safe if c == "+" else one, G=g.G if d == "+" else [one])
            exp = (h.realizable(), h.realizable_robotics())
            verd[a + b + c + d] = exp
            got = (cl == "yes", ro == "yes")
            ctx.stats["verdicts compared"] += 2
            if exp[0] != got[0]:
                ctx.viol("classical", "row %s%s%s%s: standard verdict %s, expected %s\n%s\n%s" % (a, b, c, d, cl, exp[0], txt, q.out))
            if exp[1] != got[1]:
                ctx.viol("robotics", "row %s%s%s%s: robotics verdict %s, expected %s\n%s\n%s" % (a, b, c, d, ro, exp[1], txt, q.out))
        if len(set(x for e in verd.values() for x in e)) == 2:
            ctx.nontrivial(txt)
        # non-strict implication
        tail = q.out
        if all(verd["++++"]):
            if "non-strict" in tail:
                ctx.viol("nonstrict-extra", "non-strict note on a realizable specification\n%s\n%s" % (txt, q.out))
        else:
            h = nonstrict(s, g)
            e = (h.realizable() and not verd["++++"][0], h.realizable_robotics() and not verd["++++"][1])
            got = ("- the specification becomes realizable in the non-robotics semantics" in tail, "- and the specification becomes realizable in the robotics semantics" in tail)
            no = ("- nothing changes in the non-robotics semantics" in tail, "- and nothing changes in the robotics semantics" in tail)
            ctx.stats["non-strict notes compared"] += 1
            ctx.stats["non-strict differs (standard)"] += e[0]
            ctx.stats["non-strict differs (robotics)"] += e[1]
            for k, n in enumerate(("standard", "robotics")):
                if got[k] != e[k] or no[k] == e[k]:
                    ctx.viol("nonstrict-" + n, "non-strict note for %s semantics says %s, expected %s\n%s\n%s" % (n, got[k], e[k], txt, q.out))
        # falsification distances in the safety game
        W = np.zeros(g.N, bool)
        E, S = g.env_safe, g.sys_safe
        num, found, rnd = None, None, 0
        if verd["+-+-"][0]:
            while True:
                W2 = W | ((S & g.nxt(W)) | ~E).any(axis=2).all(axis=1)
                rnd += 1
                ei = g.env_init.reshape(g.I, g.O).any(axis=1)
                ok = (W2 & g.sys_init).reshape(g.I, g.O).any(axis=1)
                if found is None and (~ei | ok).all():
                    found = rnd
                if (W2 == W).all():
                    break
                W = W2
            m = re.search(r"the system can falsify the environment's specification within (\d+) steps", tail)
            no = "the system can't falsify the environment's specification" in tail
            who = "system"
        else:
            ei = g.env_init.reshape(g.I, g.O).any(axis=1)
            while True:
                W2 = W | (E & (g.nxt(W) | ~S).all(axis=2, keepdims=True)).any(axis=(1, 2)).reshape(g.N)
                rnd += 1
                bad = (~g.sys_init | W2).reshape(g.I, g.O).all(axis=1)
                if (ei & bad).any():
                    found = rnd
                    W = W2
                    break
                if (W2 == W).all():
                    break
                W = W2
            m = re.search(r"the environment can falsify the system's specification within (\d+) steps", tail)
            no = "the environment can't falsify the system's specification" in tail
            who = "environment"
            if found is not None:
                note = not (g.env_init & g.sys_init & W).any()
                if note != ("However, there is no corresponding strategy" in tail):
                    ctx.viol("note", "note about initial positions is wrong\n%s\n%s" % (txt, q.out))
        got = int(m.group(1)) if m else None
        ctx.stats["falsification of the other side: " + who] += 1
        if found is not None:
            ctx.stats["falsification possible, steps %s" % min(found, 5)] += 1
        if got != found or no != (found is None):
            ctx.viol("falsify-" + who, "%s can falsify within %s steps, expected %s\n%s\n%s" % (who, got, found, txt, q.out))
        ctx.sample = {"spec": txt[:300], "report": q.out[-500:]}


check = C20()
