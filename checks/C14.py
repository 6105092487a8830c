"""C14: no memory error, undefined behaviour, crash or hang on any input."""
import random
from vlib import build as B
from vlib.harness import Check
from vlib.spec import *
from vlib import gen, opts
from . import C25, C26, C27, C28

COMBOS = opts.COMBOS
TOKENS = ["&", "|", "!", "^", "0", "1", "$", "?", "$ 1", "? 0", "$ 3", "? 99", "$ 0", "$ -1", "$ 4294967297", "? 18446744073709551615", "[INPUT]", "[SYS_TRANS]", "[", "]", "'", "a'", "#", "@", "x@0.0.3", "x@1", "y@0.5.2",
          "z@0..", "w@0.0.99999999999", "v@0.-3.2", "u@0.1.x", "t@", "@0.0.1", "\t", "  ", "\x01", "\u00e9", "A" * 300, "1e400", "-1", "0x10", "4294967296", "<", ">", "1 1 <", "nan", "inf", "%s%n", "\"", "\\"]
CMDS = ["STARTPOS", "XGETINIT", "XMAKETRANS", "MAKETRANS", "XCOMPLETEINIT", "CHECKTRANS", "XPRINTINPUTS", "XPRINTOUTPUTS", "SETPOS", "GETPOS", "SIMU", "SIMU ", "MOVE", "CHECKLIVE", "XSTRATEGYTRANSITION", "XGETINPUTS", "RESET", "QUIT", "XCOMPLETETRANS", "XABSTRACTSTRATEGYTRANSITION", "XCHECKTRANS", "PRINT", ""]


def mutate(r, b):
    """hostile change of a file's bytes"""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
        k = r.randrange(11)
        i = r.randrange(len(b) + 1)
        j = min(len(b), i + r.choice([1, 2, 5, 30]))
        if k == 0:
            if i < len(b):
                b[i] = r.choice([0, 10, 13, 32, 35, 36, 39, 48, 63, 91, 93, 127, 128, 255, r.randrange(256)])
        elif k == 1:
            del b[i:j]
        elif k == 2:
            b[i:i] = b[i:j] * r.choice([1, 1, 2, 5])
        elif k == 3:
            del b[i:]
        elif k in (4, 5, 6):
            t = r.choice(TOKENS)
            b[i:i] = (r.choice(["", " ", "\n"]) + t + r.choice(["", " ", "\n"])).encode()
        elif k == 7:
            b = b.replace(b"\n", b"\r\n") if r.random() < 0.7 else b.replace(b"\n", b"\r")
        elif k == 8:
            L = bytes(b).split(b"\n")
            r.shuffle(L)
            b = bytearray(b"\n".join(L))
        elif k == 9:
            L = bytes(b).split(b"\n")
            x = r.randrange(len(L))
            L.insert(r.randrange(len(L) + 1), L[x])
            b = bytearray(b"\n".join(L))
        else:
            t = bytes(b).split(b" ")
            if len(t) > 2:
                x, y = r.randrange(len(t)), r.randrange(len(t))
                t[x], t[y] = t[y], t[x]
                b = bytearray(b" ".join(t))
    return bytes(b)


def session(r, s):
    """a random interactive session"""
    out = []
    n = len(s.inputs) + len(s.outputs)
    for _ in range(r.choice([0, 1, 3, 8, 20])):
        c = r.choice(CMDS)
        out.append(c)
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            out.append("".join(r.choice("01.?A-") for _ in range(r.choice([n, n, 2 * n, len(s.inputs), len(s.outputs), 1, 0]))) if r.random() < 0.7 else r.choice(["0", "1", "-1", "99", "x"] + TOKENS[:30]))
    if r.random() < 0.6:
        out.append("QUIT")
    return "\n".join(out) + r.choice(["\n", ""])


def invocation(r, c, big=False):
    """(arguments, files, stdin) of a well-formed call of option combination c"""
    stdin = None
    files = {}
    if "--computeIncompleteInformationEstimator" in c:
        files["s.in"] = C28.render(r, C28.rand_case(r))
        return list(c) + ["s.in"], files, None
    if "--nonDeterministicMotion" in c:
        files = C26.render(r, C26.rand_case(r))
        return list(c) + ["s.slugsin", "robot.bdd"], files, None
    if "--IROSfastslow" in c:
        s = gen.spec_for(r, max_total=5)
        files["s.in"] = C27.check.render(r, s, [o for o in s.outputs if r.random() < 0.5])
    else:
        s = gen.spec_for(r, r.choice([r.randrange(len(gen.EDGE)), 10**6, 10**6, 10**6]), max_total=r.choice([3, 5, 5, 6] + [9] * big), plain_names=r.random() < 0.5)
        files["s.in"] = s.slugsin()
    a = list(c) + ["s.in"]
    if "--twoDimensionalCost" in c:
        files["c.cost"] = C25.cost_file(r, s, r.random() < 0.1)[0] if s.inputs + s.outputs else "1 1 <\n"
        a.append("c.cost")
    if "--interactiveStrategy" in c:
        stdin = session(r, s)
    req, opt = opts.files_needed(c)
    n = len([x for x in a if not x.startswith("--")])
    if n < req or (opt and r.random() < 0.5):
        a.append("out")
    return a, files, stdin


class C14(Check):
    id = "C14"
    technique = "AddressSanitizer and UndefinedBehaviorSanitizer (a share of the runs: Valgrind memcheck for uninitialised values) over all option combinations with well-formed and byte-mutated files and interactive sessions; exit status, error message and node accounting monitored"
    rule = ("every documented option combination with well-formed random files for it (specifications, cost files, motion abstractions, fast/slow and estimator models, interactive sessions) and with hostile changes (bit flips, truncation, duplication, inserted tokens, huge numbers, NULs, CR line ends, shuffled lines). "
            "Non-trivial: a run that passes parsing, or a mutated file; distinct by option combination and files.")
    quick_n = 2600
    thorough_n = 80000
    min_nontrivial = 800

    def bins(self):
        return {"slugs": B.slugs(), "plain": B.build("slugs", san="plain")}

    def extra_cases(self):
        return ["combo:%d" % k for k in range(len(COMBOS))]

    def case(self, ctx, idx):
        if isinstance(idx, str):
            k = int(idx.split(":")[1])
            r = self.rng(ctx, 10**6 + k)
            c = COMBOS[k]
        else:
            r = self.rng(ctx, idx)
            c = r.choice(COMBOS) if r.random() < 0.7 else r.choice([x for x in COMBOS if len(x) <= 1 or "--interactiveStrategy" in x or "--twoDimensionalCost" in x])
        a, files, stdin = invocation(r, c, big=r.random() < 0.05)
        hostile = not isinstance(idx, str) and r.random() < 0.6
        if hostile:
            cand = [f for f in files if not f.endswith(".bdd")]
            if stdin is not None and r.random() < 0.5:
                stdin = mutate(r, stdin.encode())
            else:
                f = r.choice(cand)
                files[f] = mutate(r, files[f].encode())
        memcheck = not hostile and r.random() < 0.06
        if memcheck:
            q = ctx.run(["-q", "--error-exitcode=78", "--leak-check=no", "--track-origins=no", ctx.bins["plain"]] + a, files, stdin=stdin, exe=["valgrind"], timeout=120)
            ctx.stats["memcheck runs"] += 1
            if q.rc == 78 or "Invalid read" in q.err or "uninitialised" in q.err:
                return ctx.viol("memcheck:" + "+".join(x for x in a if x.startswith("--")), "%s\n%s" % (a, q.err[-3000:]))
        else:
            q = ctx.run(a, files, stdin=stdin, timeout=40)
        ctx.stats["hostile" if hostile else "well-formed"] += 1
        ctx.stats["exit code %d" % q.rc] += 1
        ctx.stats["interactive"] += stdin is not None
        ctx.nontrivial((tuple(a), repr(sorted(files.items())), repr(stdin)) if q.rc == 0 or hostile else None)
        ctx.sample = {"args": a, "files": {k: repr(v)[:300] for k, v in files.items()}, "rc": q.rc}
        opt = "+".join(x for x in a if x.startswith("--"))
        if q.rc not in (0, 1):
            return ctx.viol("exit-code:" + opt, "%d %s" % (q.rc, q.err[-800:]))
        if q.rc == 1 and "Error" not in q.err:
            ctx.viol("no-message:" + opt, q.err[-800:])
        if "referenced nodes" in q.err:
            ctx.viol("nodes-left:" + opt, q.err[-400:])
        if "bug in slugs" in q.err.lower() or "internal error" in q.err.lower():
            ctx.viol("internal-error:" + opt, q.err[-800:])
        if not hostile and q.rc == 1 and "--twoDimensionalCost" not in a and stdin is None:
            ctx.viol("rejected:" + opt, q.err[-800:])


check = C14()
