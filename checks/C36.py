"""C36: minimal unrealizable cores (tools/findMinimalUnrealizableCore.py, a Python 2 script, run by Jython)."""
import os, shutil
from vlib import build as B
from vlib.harness import Check
from vlib.spec import *
from vlib.game import Game
from vlib import gen

# The script works in /tmp/core.slugsin: each run gets a /tmp of its own in a user and mount namespace (or a copy of the script with another path).
RUN = ("mkdir -p tmp/w/tools tmp/w/src && mv script tmp/w/tools/findMinimalUnrealizableCore.py && mv spec.slugsin tmp/w && cp \"$1\" tmp/w/src/slugs && "
       "if unshare -Urm sh -c 'mount --bind tmp /tmp' 2>/dev/null; then unshare -Urm sh -c 'mount --bind tmp /tmp && cd /tmp/w && exec %s tools/findMinimalUnrealizableCore.py spec.slugsin'; "
       "else sed -i \"s#/tmp/#$PWD/tmp/#g\" tmp/w/tools/*.py && (cd tmp/w && %s tools/findMinimalUnrealizableCore.py spec.slugsin); fi && mv tmp/core.slugsin result")


def interpreter():
    for p in ("python2", "python2.7", "jython"):
        q = shutil.which(p)
        if q:
            return q
    return None


def sections(txt):
    out, cur = {}, None
    for l in txt.split("\n"):
        l = l.strip()
        if l.startswith("["):
            cur = l[1:-1]
            if cur in out:
                raise ValueError("section %s twice" % cur)
            out[cur] = []
        elif l and not l.startswith("#"):
            if cur is None:
                raise ValueError("line outside of sections: " + l)
            out[cur].append(l)
    return out


def core_size(s):
    """lines of one core, found by the reference solver"""
    q = s.copy()
    for a in ("sys_trans", "sys_live"):
        for f in list(getattr(q, a)):
            w = q.copy()
            getattr(w, a).remove(f)
            if not Game(w).realizable():
                q = w
    return len(q.sys_trans) + len(q.sys_live)


class C36(Check):
    id = "C36"
    rule = ("random specifications, mostly unrealizable ones with several guarantee lines (redundant and repeated ones added), section orders, comments; the printed core is parsed and judged by the explicit reference game: "
            "same variables, assumptions and initial guarantees, guarantee lines a sublist, unrealizable, realizable without any single guarantee line. Realizable specifications stay complete. Non-trivial: unrealizable specification whose core is a proper sublist.")
    quick_n = 56
    thorough_n = 900
    min_nontrivial = 25
    assumptions = ["the explicit solver in /verif/vlib", "Jython runs the script as Python 2 does"]

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        real, best = r.random() < 0.12, None
        for k in range(40):
            s = gen.spec_for(r, 0, max_total=4, plain_names=True)
            vs = s.inputs + s.outputs + post(s.inputs + s.outputs)
            if r.random() < 0.6:
                s.sys_trans = s.sys_trans + [clause(r, vs, r.randint(2, 3)) for _ in range(r.randint(1, 4))]
            if r.random() < 0.5:
                s.sys_live = s.sys_live + [rand_formula(r, vs, 2) for _ in range(r.randint(1, 3))]
            if len(s.sys_trans) + len(s.sys_live) > 14:
                s.sys_trans, s.sys_live = s.sys_trans[:10], s.sys_live[:4]
            g = Game(s)
            if g.realizable() != real:
                continue
            n = 0 if real else core_size(s)
            if best is None or n > best[0]:
                best = (n, s)
            if real or n >= r.choice([2, 2, 3, 3, 4]):
                break
        if best is not None:
            s = best[1]
        if r.random() < 0.15 and s.sys_trans:
            s.sys_trans.append(r.choice(s.sys_trans))
        if r.random() < 0.3 and s.sys_live:
            s.sys_live.append(r.choice(s.sys_live))
        r.shuffle(s.sys_trans)
        r.shuffle(s.sys_live)
        g = Game(s)
        real = g.realizable()
        order = list(SECTIONS)
        if r.random() < 0.5:
            r.shuffle(order)
        txt = s.slugsin(order=order, omit_empty=r.random() < 0.7)
        if r.random() < 0.4:
            txt = "# a comment\n" + txt.replace("\n", "\n\n# x [ & a\n", 1)
        with open(os.path.join(B.REPO, "tools/findMinimalUnrealizableCore.py")) as f:
            script = f.read()
        cmd = ["bash", "-c", RUN % (interpreter(), interpreter()), "sh", self.exe(ctx)]
        run = ctx.run([], {"script": script, "spec.slugsin": txt}, exe=cmd, outputs=["result"], timeout=120, crash_ok=True)
        ctx.stats["realizable" if real else "unrealizable"] += 1
        if run.rc != 0 or "result" not in run.files:
            return ctx.viol("no-result", "rc=%d\n%s\n%s" % (run.rc, run.err[-800:], txt))
        try:
            core = sections(run.files["result"])
        except ValueError as e:
            return ctx.viol("core-format", "%s\n%s" % (e, run.files["result"]))
        core = {k: core.get(k, []) for k in SECTIONS}
        orig = {"INPUT": s.inputs, "OUTPUT": s.outputs}
        orig.update({k: [text(f) for f in fs] for k, fs in s.parts().items()})
        info = "\nspecification:\n%s\ncore:\n%s" % (txt, run.files["result"])
        for k in ("INPUT", "OUTPUT", "ENV_INIT", "ENV_TRANS", "ENV_LIVENESS", "SYS_INIT"):
            if sorted(core[k]) != sorted(orig[k]):
                return ctx.viol("core:" + k, "section %s changed" % k + info)
        q = s.copy()
        for k, a in (("SYS_TRANS", "sys_trans"), ("SYS_LIVENESS", "sys_live")):
            left = list(zip(orig[k], s.parts()[k]))
            fs = []
            for l in core[k]:
                i = next((i for i, (t, _) in enumerate(left) if t == l), None)
                if i is None:
                    return ctx.viol("core:new-line", "line of section %s not in the specification: %s" % (k, l) + info)
                fs.append(left.pop(i)[1])
            setattr(q, a, fs)
        ctx.sample = {"spec": txt[:400], "realizable": real, "guarantees": [len(s.sys_trans), len(s.sys_live)], "core": [len(q.sys_trans), len(q.sys_live)]}
        if real:
            if len(q.sys_trans) != len(s.sys_trans) or len(q.sys_live) != len(s.sys_live):
                return ctx.viol("core-of-realizable", "lines removed from a realizable specification" + info)
            return
        n = len(q.sys_trans) + len(q.sys_live)
        ctx.stats["core lines"] += n
        if n < len(s.sys_trans) + len(s.sys_live):
            ctx.nontrivial(txt)
        if Game(q).realizable():
            return ctx.viol("core:realizable", "the core is realizable" + info)
        for a in ("sys_trans", "sys_live"):
            for i in range(len(getattr(q, a))):
                w = q.copy()
                setattr(w, a, getattr(q, a)[:i] + getattr(q, a)[i + 1:])
                ctx.stats["lines judged for necessity"] += 1
                if not Game(w).realizable():
                    return ctx.viol("core:not-minimal", "still unrealizable without %s" % text(getattr(q, a)[i]) + info)

    def exe(self, ctx):
        return ctx.bins["slugs"]


check = C36()
