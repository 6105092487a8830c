"""C37: failed reads and writes are reported, never answered with incomplete results."""
import os, shutil, subprocess, sys, tempfile
from vlib.harness import Check, SAN_ENV, scratch
from vlib.spec import *
from vlib import gen, opts

# options whose result goes to a file when one is given / to the standard output
FILE = [c for c in opts.STANDARD if opts.files_needed(c) != (1, 0)]
STDOUT = [("--explicitStrategy",), ("--explicitStrategy", "--jsonOutput"), ("--extractExplicitPermissiveStrategy",), ("--counterStrategy",), ("--computeCNFFormOfTheSpecification",),
          ("--analyzeAssumptions",), ("--analyzeInitialPositions",), ("--analyzeInterleaving",), ("--computeInterestingRunOfTheSystem",), ("--computeWeakenedSafetyAssumptions",)]
STDOUT = [c for c in STDOUT if tuple(sorted(c)) in [tuple(sorted(x)) for x in opts.COMBOS]]
LIMIT = ["env", "--ignore-signal=XFSZ", "prlimit"]


class C37(Check):
    id = "C37"
    technique = "fault injection: file size limits at random byte positions for output files and the standard output, full device, unreadable inputs and unwritable targets; results compared with the undisturbed run; ASan/UBSan"
    rule = "random specifications and options; the k-th byte written (random k up to the length of the undisturbed result) fails, the device is full, inputs fail when read. Non-trivial: a fault hits within the result; distinct by specification, options and position."
    quick_n = 700
    thorough_n = 15000
    min_nontrivial = 150

    def extra_cases(self):
        return ["read:%d" % k for k in range(len(opts.COMBOS))]

    def plain(self, ctx, args, files, out):
        q = ctx.run(args, files, outputs=[out] if out else ())
        return q, (q.files.get(out, "") if out else q.out)

    def case(self, ctx, idx):
        if isinstance(idx, str):
            return self.unreadable(ctx, int(idx.split(":")[1]))
        r = self.rng(ctx, idx)
        tofile = r.random() < 0.5
        c = list(r.choice(FILE if tofile else STDOUT))
        counter = "--counterStrategy" in c
        rob = "--sysInitRoboticsSemantics" in c
        verd = lambda g: g.realizable_robotics() if rob else g.realizable()
        s, g = gen.hard_spec(r, max_total=r.choice([2, 3, 4, 5]), tries=4, want=lambda g: verd(g) != counter)
        files = {"s.slugsin": s.slugsin()}
        stdin = None
        target = ["out"] if tofile else []
        q, full = self.plain(ctx, c + ["s.slugsin"] + target, files, "out" if tofile else None)
        if q.rc != 0:
            return ctx.viol("undisturbed", "rc %d %s" % (q.rc, q.err[-500:]))
        n = len(full.encode())
        kind = r.choice(["limit", "limit", "limit", "full", "target"])
        if kind == "limit" and any("--analyze" in x or "--computeInt" in x for x in c):
            kind = "full"       # these also write debugging files, to which a limit would apply
        if kind == "target":
            if not tofile:
                kind = "full"
            else:
                t = r.choice(["no/such/dir/out", "."])
                q = ctx.run(c + ["s.slugsin", t], files)
                hit = n > 0
        if kind == "full":
            hit = n > 0
            if tofile:
                q = ctx.run(c + ["s.slugsin", "/dev/full"], files)
            else:
                q = ctx.run(["-c", '"$0" "$@" > /dev/full', self.slugs(ctx)] + c + ["s.slugsin"], files, exe=["/bin/sh"])
        elif kind == "limit":
            k = r.choice([0, 1, n - 1, n, n + 1, r.randrange(n + 1), r.randrange(n + 1), 4096, 8192, 4095]) if n else 0
            k = max(0, min(k, n + 2))
            hit = k < n
            if tofile:
                q = ctx.run(["--fsize=%d" % k, self.slugs(ctx)] + c + ["s.slugsin", "out"], files, exe=LIMIT, outputs=["out"])
                got = q.files.get("out", "")
            else:
                q = ctx.run(["-c", 'exec env --ignore-signal=XFSZ prlimit --fsize=%d "$0" "$@" > out' % k, self.slugs(ctx)] + c + ["s.slugsin"], files, exe=["/bin/sh"], outputs=["out"])
                got = q.files.get("out", "")
            if q.rc == 0 and got != full and len(got.encode()) < n:
                return ctx.viol("lost-output:" + "+".join(x for x in c if x.startswith("--")), "exit code 0, but only %d of %d bytes written, %s to %s\n%s" % (len(got.encode()), n, c, "file" if tofile else "standard output", files["s.slugsin"]))
        ctx.stats["fault %s %s" % (kind, "file" if tofile else "stdout")] += 1
        ctx.stats["hit"] += hit
        ctx.sample = {"args": c, "kind": kind, "rc": q.rc, "bytes": n, "err": q.err[-200:]}
        if hit:
            ctx.nontrivial((files["s.slugsin"], c, kind))
            if q.rc == 0:
                return ctx.viol("unreported:" + kind, "exit code 0 although the result (%d bytes) could not be written: %s to %s\n%s\n%s" % (n, c, "file" if tofile else "standard output", files["s.slugsin"], q.err[-300:]))
        if kind == "target" and not n:
            return          # an empty result: reporting the target or not are both fine
        if q.rc != (1 if hit else 0):
            return ctx.viol("exit-code", "%d, fault hit: %s, %s %s\n%s" % (q.rc, hit, c, kind, q.err[-600:]))
        if hit and "Error" not in q.err:
            ctx.viol("no-message", "%s %s\n%s" % (c, kind, q.err[-300:]))

    def slugs(self, ctx):
        return ctx.bins["slugs"]

    def unreadable(self, ctx, k):
        """inputs that can be opened but not read"""
        r = self.rng(ctx, 10**6 + k)
        c = list(opts.COMBOS[k])
        req, _ = opts.files_needed(c)
        s, g = gen.hard_spec(r, max_total=3, tries=2)
        for bad in (".", "/proc/self/mem"):
            names = ["s.slugsin"] * req
            j = r.randrange(req)
            if "--symbolicStrategy" in c or "--simpleSymbolicStrategy" in c:
                j = min(j, req - 2)
            if "--nonDeterministicMotion" in c or "--IROSfastslow" in c or "--computeIncompleteInformationEstimator" in c:
                j = 0
            if "--twoDimensionalCost" in c:
                j = r.randrange(2)
            names[j] = bad
            if "--symbolicStrategy" in c or "--simpleSymbolicStrategy" in c:
                names[-1] = "out"
            q = ctx.run(c + names, {"s.slugsin": s.slugsin()})
            ctx.stats["unreadable inputs"] += 1
            if q.rc != 1 or q.verdict is not None or "Error" not in q.err:
                ctx.viol("unreadable-input", "%s %s: rc %d verdict %s\n%s" % (c, names, q.rc, q.verdict, q.err[-400:]))
        ctx.nontrivial(tuple(c))


check = C37()
