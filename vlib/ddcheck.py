"""Checks that run a C++ history generator with built-in monitors (harness/*.cpp) over many seeds."""
import re
from . import build as B
from .harness import Check, Violation, hashstr


def tool(name, what="cudd", **kw):
    return B.build(name, what=what, extra_sources=[B.ROOT + "/harness/%s.cpp" % name], **kw)


class DDCheck(Check):
    # name -> (what, weight, steps quick, steps thorough)
    tools = {}
    technique = "randomized operation histories against the real library (ASan+UBSan), every result judged by a monitor that evaluates it on all assignments; consistency and reference monitors over the manager"
    timeout = 120

    def bins(self):
        return {n: tool(n, t[0]) for n, t in self.tools.items()}

    def history(self, ctx, name, args, env=None):
        r = ctx.run([str(a) for a in args], bin=name, env=env, timeout=self.timeout, crash_ok=True)
        how = "%s %s%s" % (name, " ".join(str(a) for a in args), "".join(" %s=%s" % x for x in (env or {}).items()))
        v = re.search(r"^VIOL ([^|\n]*)\|([^\n]*)", r.out, re.M)
        if v:
            raise Violation("%s:%s" % (name, v.group(1)), "%s\n%s" % (how, v.group(2)))
        if r.rc == -99:
            raise Violation("%s:hang" % name, "%s: no end" % how)
        a = r.abnormal
        m = re.search(r"([\w.]+):\d+:[^\n]*Assertion", r.err)
        if m:
            a = "assert@" + m.group(1)
        if a is None and r.rc != 0:
            a = "exit%d" % r.rc
        if a:
            raise Violation("%s:%s" % (name, a), "%s\n%s" % (how, r.err[-2500:]), {"stderr": r.err[-6000:]})
        c = {m.group(1): int(m.group(2)) for m in re.finditer(r"^COUNT (.*) (\d+)$", r.out, re.M)}
        for k, n in c.items():
            ctx.stats["%s: %s" % (name, k)] += n
        return c

    def env(self, r, name):
        return {}

    def interesting(self, c):
        return c.get("reorderings", 0) > 0 and c.get("garbage collections", 0) > 0

    def case(self, ctx, idx):
        if isinstance(idx, str):
            return self.named(ctx, idx)
        r = self.rng(ctx, idx)
        name = r.choices(sorted(self.tools), [self.tools[k][1] for k in sorted(self.tools)])[0]
        steps = self.tools[name][2 if ctx.tier == "quick" else 3]
        seed = r.randrange(1, 10**9)
        c = self.history(ctx, name, [seed, steps], self.env(r, name))
        if self.interesting(c):
            ctx.nontrivial("%s %d" % (name, seed))
        ctx.sample = {"tool": name, "seed": seed, "steps": steps, "reorderings": c.get("reorderings"), "collections": c.get("garbage collections"), "different operations": sum(k.startswith("op ") for k in c)}
