"""C40: searches over families of specifications (tools/binaryRealizabilitySearch.py, multiDimensionalRealizabilitySearch.py, analyzeStuckAtConstant.py)."""
import ast, itertools, re, sys
from vlib import build as B, gen, py2
from vlib.harness import Check
from vlib.spec import *
from vlib.game import Game
from checks.C39 import rand_structured
from checks.C38 import read_slugsin

EXE = {"yes": None, "no": None}


def pool(r, real):
    for _ in range(200):
        s = gen.spec_for(r, 0, max_total=3, plain_names=True)
        if Game(s).realizable() == real:
            return s.slugsin()
    return "[OUTPUT]\nx\n\n[SYS_TRANS]\n%d\n" % real


def oracle_script(r, exe, faults):
    """a shell script that maps parameters to a specification (upward closed set kept by the caller) and calls slugs"""
    out = r.choice(["2>&1", "1>&2", ""])
    return ("#!/bin/sh\nD=$(dirname \"$0\")\necho \"$*\" >> \"$D/calls\"\nk=$(echo \"$*\" | tr ' ' '_')\n"
            "if grep -qxe \"$k\" \"$D/fails\"; then echo broken; %s; fi\n"
            "if grep -qxe \"$k\" \"$D/yes\"; then f=yes; else f=no; fi\n%s\nexec '%s' \"$D/$f.slugsin\" %s\n" % (faults, r.choice(["", "echo noise", "echo; echo 'RESULT of the tool follows'"]), exe, out))


def with_value(s, sec, bits, val):
    """s with the variable made of `bits` (list of (name, weight-index)) fixed to val"""
    q = s.copy()
    f = lambda p: And(*[(v(b + p) if val >> i & 1 else Not(v(b + p))) for b, i in bits])
    if sec == "OUTPUT":
        q.sys_init, q.sys_trans = q.sys_init + [f("")], q.sys_trans + [f("'")]
    else:
        q.env_init, q.env_trans = q.env_init + [f("")], q.env_trans + [f("'")]
    return q


class C40(Check):
    id = "C40"
    technique = "runtime monitoring: the real scripts drive the sanitized program through whole searches; their calls are logged and their results compared with exhaustive evaluation by the explicit solver"
    rule = ("A case runs several searches: one-parameter searches over random ranges (also negative), thresholds and directions; searches for Pareto fronts over one to three parameters with random monotone or antitone families; "
            "stuck-at analyses of random structured specifications with numbers, each signal and value compared with the explicit solver. Scripts that fail, give no result or two results end the search with an error. Non-trivial: searches with at least three calls; distinct by parameters.")
    quick_n = 60
    thorough_n = 500
    min_nontrivial = 60
    assumptions = ["the explicit solver in /verif/vlib", "Jython runs the scripts as Python 2 does"]

    def gen_binary(self, r, exe):
        lo = r.choice([0, 0, 1, 2, -5, -1, 7, 100])
        hi = lo + r.choice([0, 1, 2, 3, 5, 8, 15, 30])
        mono = r.random() < 0.5
        t = r.randint(lo, hi + 1)      # first value that is realizable (monotone) / last one is t - 1 (antitone)
        yes = [k for k in range(lo, hi + 1) if (k >= t if mono else k < t)]
        fail = sorted(r.sample(range(lo, hi + 1), 1)) if r.random() < 0.15 else []
        files = {"oracle.sh": oracle_script(r, exe, r.choice(["exit 3", "exit 0", "echo 'RESULT: Specification is realizable.'; echo 'RESULT: Specification is realizable.'; exit 0"])),
                 "yes": "\n".join(map(str, yes)) + "\n", "fails": "\n".join(map(str, fail)) + "\n", "yes.slugsin": pool(r, True), "no.slugsin": pool(r, False)}
        word = "MONOTONE" if mono else "ANTITONE"
        args = ["@oracle.sh", str(lo), str(hi), r.choice([word, word.lower(), word.capitalize()])]
        return {"lo": lo, "hi": hi, "mono": mono, "yes": yes, "fail": fail, "args": args}, files

    def judge_binary(self, ctx, j, res):
        calls = [int(x) for x in (res.files.get("calls") or "").split()]
        info = "\n%s\ncalls: %s\n%s\n%s" % ({k: j[k] for k in ("lo", "hi", "mono", "yes", "fail")}, calls, res.out[-1500:], res.err[-800:])
        bad = next((k for k in calls if k in j["fail"]), None)
        if bad is not None:
            ctx.stats["searches with a failing script"] += 1
            if res.rc == 0 or calls[-1] != bad or "value for realizability is" in res.out:
                ctx.viol("binary:fault", "a failing call was not reported" + info)
            return
        if res.rc != 0:
            return ctx.viol("binary:failed", "exit code %d" % res.rc + info)
        ctx.stats["calls of one-parameter searches"] += len(calls)
        m = re.findall(r"^The (minimum|maximum) value for realizability is (-?\d+)$", res.out, re.M)
        if not j["yes"]:
            if m or "totally unrealizable" not in res.out:
                ctx.viol("binary:unrealizable", "no value is realizable" + info)
        else:
            want = [("minimum", str(min(j["yes"])))] if j["mono"] else [("maximum", str(max(j["yes"])))]
            if m != want:
                return ctx.viol("binary:value", "%s instead of %s" % (m, want) + info)
            if not calls or str(calls[-1]) != want[0][1]:
                return ctx.viol("binary:last-call", "the last call was not the one with the result" + info)
        if any(k < j["lo"] or k > j["hi"] for k in calls):
            return ctx.viol("binary:range", "called outside of the range" + info)
        listed = re.search(r"^Tests performed: (.*)$", res.out, re.M)
        if j["yes"] and (not listed or [x for x in listed.group(1).split()] != ["%d%s" % (k, "+" if k in j["yes"] else "-") for k in calls[:-1]]):
            return ctx.viol("binary:tests", "other tests listed than performed" + info)
        if len(calls) > 2:
            ctx.nontrivial(info)

    def gen_multi(self, r, exe):
        while True:
            n = r.choice([1, 2, 2, 2, 3])
            dims = []
            for _ in range(n):
                lo = r.choice([0, 0, 1, 2, 4])
                dims.append((lo, lo + r.choice([0, 1, 2, 3, 4] if n > 1 else [0, 3, 6]), r.random() < 0.5))
            grid = list(itertools.product(*[range(a, b + 1) for a, b, _ in dims]))
            if len(grid) <= 40:
                break
        leq = lambda x, y: all((p <= q if d[2] else p >= q) for p, q, d in zip(x, y, dims))
        gens = r.sample(grid, min(len(grid), r.choice([0, 1, 1, 2, 3, 4])))
        yes = [x for x in grid if any(leq(g, x) for g in gens)]
        front = sorted(x for x in yes if not any(y != x and leq(y, x) for y in yes))
        key = lambda x: "_".join(map(str, x))
        fail = [key(r.choice(grid))] if r.random() < 0.12 else []
        files = {"oracle.sh": oracle_script(r, exe, r.choice(["exit 3", "exit 0"])),
                 "yes": "\n".join(key(x) for x in yes) + "\n", "fails": "\n".join(fail) + "\n", "yes.slugsin": pool(r, True), "no.slugsin": pool(r, False)}
        args = ["@oracle.sh"]
        for a, b, d in dims:
            args += [str(a), str(b), "MONOTONE" if d else r.choice(["ANTITONE", "antitone"])]
        return {"dims": dims, "front": front, "fail": fail, "args": args, "yes": yes}, files

    def judge_multi(self, ctx, j, res):
        calls = (res.files.get("calls") or "").strip().split("\n")
        calls = [c.replace(" ", "_") for c in calls if c]
        info = "\n%s front %s\ncalls: %s\n%s\n%s" % (j["dims"], j["front"], calls, res.out[-1500:], res.err[-800:])
        if any(c in j["fail"] for c in calls):
            ctx.stats["searches with a failing script"] += 1
            if res.rc == 0 or "Pareto front" in res.out:
                ctx.viol("multi:fault", "a failing call was not reported" + info)
            return
        m = re.search(r"^\('Pareto front: ', (.*)\)$|^Pareto front:\s+(.*)$", res.out, re.M)
        if res.rc != 0 or not m:
            return ctx.viol("multi:failed", "exit code %d" % res.rc + info)
        got = sorted(tuple(x) for x in ast.literal_eval(m.group(1) or m.group(2)))
        if got != j["front"]:
            return ctx.viol("multi:front", "front %s" % got + info)
        if len(set(calls)) != len(calls):
            return ctx.viol("multi:repeated", "a point was tested twice" + info)
        ctx.stats["calls of searches for fronts"] += len(calls)
        ctx.stats["points of fronts"] += len(got)
        if len(calls) > 2:
            ctx.nontrivial(info)

    def gen_stuck(self, ctx, r):
        src = rand_structured(r, maxbits=r.choice([3, 4, 5]), hard=True)
        c = ctx.run([B.REPO + "/tools/StructuredSlugsParser/compiler.py", "--thorougly", "s.structuredslugs"], {"s.structuredslugs": src}, bin="py", exe=[sys.executable])
        if c.rc != 0:
            return None
        got = read_slugsin(c.out)
        s = Spec(got["INPUT"], got["OUTPUT"])
        for k, lst in s.parts().items():
            lst += [parse_prefix(l) for l in got[k]]
        return {"spec": s, "src": src, "args": ["@s.structuredslugs"]}, {"s.structuredslugs": src}

    def judge_stuck(self, ctx, j, res):
        s = j["spec"]
        info = "\nspecification:\n%s\noutput:\n%s\n%s" % (j["src"], res.out, res.err[-800:])
        if res.rc != 0:
            return ctx.viol("stuck:failed", "exit code %d" % res.rc + info)
        real = Game(s).realizable()
        lines = [l.strip() for l in res.out.split("\n") if l.strip()]
        if not lines or not re.match(r"^Starting point is +%s specification$" % ("a realizable" if real else "an unrealizable"), lines[0]):
            return ctx.viol("stuck:start", "wrong starting point" + info)
        sec = "OUTPUT" if real else "INPUT"
        want = {}
        cur = None
        for l in j["src"].split("\n"):
            if l.startswith("["):
                cur = l[1:-1]
            elif l and cur == sec:
                n = l.split(":")[0].strip()
                bits = [(b, 0) for b in s.inputs + s.outputs if b == n] + [(b, int(re.match(r"^\d+", b.split("@")[1]).group(0))) for b in s.inputs + s.outputs if "@" in b and b.split("@")[0] == n]
                if ":" in l:
                    lo, hi = map(int, l.split(":")[1].split("..."))
                    vals = [(str(k), k - lo) for k in range(lo, hi + 1)]
                else:
                    vals = [("False", 0), ("True", 1)]
                want[n] = [t for t, k in vals if Game(with_value(s, sec, bits, k)).realizable() == real]
                ctx.stats["fixed values judged"] += len(vals)
        got = {}
        for l in lines[1:]:
            m = re.match(r"^Fixing the value of the (output|input) signal (\S+) (?:changes (that)\.|to\s+(.*?)\s*does not change this fact\.)$", l)
            if not m or m.group(1) != sec.lower() or m.group(2) in got:
                return ctx.viol("stuck:format", "line '%s'" % l + info)
            got[m.group(2)] = [] if m.group(3) else [x for x in re.split(r"[ ,]+|\bor\b", m.group(4)) if x]
        if got != want:
            return ctx.viol("stuck:values", "%s instead of %s" % (got, want) + info)
        ctx.stats["stuck-at analyses (%s)" % ("realizable" if real else "unrealizable")] += 1
        if any(want.values()) and not all(len(x) > 1 for x in want.values()):
            ctx.nontrivial(j["src"])

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        exe = ctx.bins["slugs"]
        todo, jobs = [], []
        for kind, script, n in (("binary", "binaryRealizabilitySearch.py", 4), ("multi", "multiDimensionalRealizabilitySearch.py", 3), ("stuck", "analyzeStuckAtConstant.py", 2)):
            for _ in range(n):
                g = self.gen_stuck(ctx, r) if kind == "stuck" else getattr(self, "gen_" + kind)(r, exe)
                if g is None:
                    continue
                todo.append((kind, g[0]))
                jobs.append((script, g[0]["args"], g[1]))
        for (kind, j), res in zip(todo, py2.batch(ctx, jobs, timeout=120, slugs=exe, outputs=["calls"])):
            if res is None:
                ctx.viol(kind + ":hang", "no end: %s" % {k: x for k, x in j.items() if k != "spec"})
                break
            getattr(self, "judge_" + kind)(ctx, j, res)
            ctx.stats["%s searches" % kind] += 1
        ctx.sample = {"searches": [(k, j["args"][1:]) for k, j in todo]}


check = C40()
