"""C13: rejection of malformed inputs and illegal invocations; acceptance of legal ones."""
from vlib.harness import Check
from vlib.spec import *
from vlib import gen, opts

ALLOWED = {"ENV_INIT": "i", "SYS_INIT": "io", "ENV_TRANS": "ioI", "SYS_TRANS": "ioIO", "ENV_LIVENESS": "ioIO", "SYS_LIVENESS": "ioIO"}


class Unspecified(Exception):
    pass


class Bad(Exception):
    pass


def parse_formula(toks, kinds, allowed):
    """Strict reading of one line; raises Bad for malformed, Unspecified where the format says nothing."""
    pos = [0]

    def nxt():
        if pos[0] >= len(toks):
            raise Bad("premature end")
        pos[0] += 1
        return toks[pos[0] - 1]

    def number():
        t = nxt()
        if t.isdigit() and t.isascii():
            return int(t)
        if t[0] in "+-" or t[0].isdigit():
            raise Unspecified
        raise Bad("number expected")

    def rec(avail):
        t = nxt()
        if t in ("&", "|", "^"):
            rec(avail)
            rec(avail)
        elif t == "!":
            rec(avail)
        elif t in "01":
            pass
        elif t == "$":
            n = number()
            if n == 0:
                raise Bad("empty buffer")
            k = 0
            while k < n:
                rec(k)
                k += 1
        elif t == "?":
            n = number()
            if n >= avail:
                raise Bad("recall")
        else:
            k = kinds.get(t)
            if k is None:
                raise Bad("unknown variable " + t)
            if k not in allowed:
                raise Bad("variable not allowed")
    rec(0)
    if pos[0] != len(toks):
        raise Bad("stray")


def judge(text_):
    """None if well-formed, else a reason."""
    kinds, names, sec = {}, [], None
    for l in text_.split("\n"):
        l = l.strip(" \t\r\n\v\f")
        if not l or l[0] == "#":
            continue
        if l[0] == "[":
            if not (l[-1] == "]" and l[1:-1] in SECTIONS):
                return "section"
            sec = l[1:-1]
            continue
        if sec is None:
            return "no section"
        if sec in ("INPUT", "OUTPUT"):
            if " " in l or l in ("&", "|", "^", "!", "$", "?", "0", "1"):
                raise Unspecified
            for nm, kd in ((l, "i" if sec == "INPUT" else "o"), (l + "'", "I" if sec == "INPUT" else "O")):
                names.append(nm)
                kinds.setdefault(nm, kd)
            continue
        try:
            parse_formula(l.split(), kinds, ALLOWED[sec])
        except Bad as e:
            return str(e).split(" ")[0] + "@" + sec
    if len(set(names)) != len(names):
        return "duplicate name"
    return None


class C13(Check):
    id = "C13"
    rule = ("well-formed specifications are broken by deleting, inserting, replacing or swapping tokens, lines, sections and declarations, and an independent strict reader of the format decides whether the result is still well-formed; random option sets (legal and not), unknown options, too few, too many, "
            "missing and unwritable files. The monitor checks exit code, error message, absence of a verdict and of strategy output on rejection, and exit code 0 with a verdict on acceptance. Non-trivial: a rejected input or an option set of size >= 2; distinct by input and arguments.")
    quick_n = 2500
    thorough_n = 40000
    min_nontrivial = 500

    def extra_cases(self):
        return ["combo:%d" % k for k in range(len(opts.COMBOS))]

    def reject(self, ctx, q, why, info, outfile=None):
        if q.rc == 0:
            return ctx.viol("accepted:" + why, "exit code 0 for %s\n%s\n%s" % (why, info, q.err[-400:]))
        if q.rc != 1:
            return ctx.viol("exit-code:" + why, "exit code %d for %s\n%s\n%s" % (q.rc, why, info, q.err[-400:]))
        if q.verdict is not None:
            return ctx.viol("verdict-despite-error:" + why, "%s\n%s" % (info, q.err[-400:]))
        if q.out.strip():
            return ctx.viol("output-despite-error:" + why, "%s\n%s" % (info, q.out[:300]))
        if outfile and q.files.get(outfile):
            return ctx.viol("file-despite-error:" + why, info)
        if "rror" not in q.err and "Sorry" not in q.err:
            return ctx.viol("no-message:" + why, "%s\n%s" % (info, q.err[-400:]))
        ctx.stats["rejected: " + why.split("@")[0].split(":")[0]] += 1

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        if isinstance(idx, str):
            return self.options(ctx, r, list(opts.COMBOS[int(idx.split(":")[1])]))
        q = r.random()
        if q < 0.7:
            self.malformed(ctx, r)
        else:
            self.options(ctx, r, None)

    def mutate(self, r, s):
        lines = s.slugsin().rstrip("\n").split("\n")
        idx = [k for k, l in enumerate(lines) if l and l[0] != "["]
        k = r.choice(idx)
        toks = lines[k].split(" ")
        allnames = s.inputs + s.outputs
        q = r.random()
        if q < 0.2:
            toks.pop(r.randrange(len(toks)))
        elif q < 0.4:
            toks.insert(r.randint(0, len(toks)), r.choice(["&", "|", "^", "!", "0", "1", "?", "$", "2", "$ 2", "? 0", "undeclared", "x''", r.choice(allnames), r.choice(allnames) + "'"]))
        elif q < 0.6:
            toks[r.randrange(len(toks))] = r.choice(["&", "!", "0", "->", "()", "&&", "||", "not", "2", "-1", "? 0", "? 5", "$ 1", "$ 0", "$", "?", "nope", "TRUE", r.choice(allnames), r.choice(allnames) + "'"])
        elif q < 0.68:
            lines.insert(r.randint(0, len(lines)), r.choice(["[FOO]", "[INPUTS]", "[ENV_LIVENESS", "[input]", "[]", "[ENV_TRANS] ", "[OUTPUT_F]", "[SYS_TRANS]x", "[", "[ OUTPUT]"]))
            return "\n".join(lines)
        elif q < 0.76:
            # duplicate declarations
            d = r.choice(allnames)
            lines += [r.choice(["[INPUT]", "[OUTPUT]"]), r.choice([d, d, d + "'", d + "''", "fresh"])]
            if r.random() < 0.3:
                r2 = lines[-2:]
                lines = r2 + lines[:-2]
            return "\n".join(lines)
        elif q < 0.8:
            lines.insert(0, r.choice(["a", "1", "# fine", "", "& a b", "garbage"]))
            return "\n".join(lines)
        elif q < 0.9:
            # move a line elsewhere (into a section that may not allow its variables)
            l = lines.pop(k)
            lines.insert(r.randint(0, len(lines)), l)
            return "\n".join(lines)
        elif q < 0.95:
            lines.insert(r.randint(0, len(lines)), r.choice(["$ 3 1 ? 0", "$ 2 1 ? 1", "$ 2 $ 1 ? 0 1", "? 0", "$ 0", "$ 4294967295 1", "$ 99999999999999999999 1", "$ 2 ? 0 1", "$ 3 1 & ? 0 ? 1 1", "$ 3 1 & ? 0 ? 0 ? 1", "$ 1 $ 1 1", "$ 2 0 ! ? 0", "$ 2 0 $ 2 1 ? 1", "$ 2 0 $ 2 1 ? 0", "? 4294967295", "$ x 1", "$ 1", "& 1", "!", "! ! !"]))
            return "\n".join(lines)
        else:
            # swap two sections
            txt = "\n".join(lines)
            a, b = r.sample(SECTIONS, 2)
            return txt.replace("[%s]" % a, "[#]").replace("[%s]" % b, "[%s]" % a).replace("[#]", "[%s]" % b)
        lines[k] = " ".join(toks)
        return "\n".join(lines)

    def malformed(self, ctx, r):
        s = gen.spec_for(r)
        if r.random() < 0.4:
            vs = s.inputs + s.outputs
            s.sys_trans.append(rand_mem_formula(r, vs + post(vs), 4))
        t = self.mutate(r, s)
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            t2 = self.mutate(r, s)
            t = r.choice([t, t2])
        t = t + r.choice(["\n", ""])
        try:
            why = judge(t)
        except Unspecified:
            ctx.stats["unspecified"] += 1
            return
        o = list(r.choice([(), (), (), ("--explicitStrategy",), ("--explicitStrategy", "--jsonOutput"), ("--symbolicStrategy",), ("--extractExplicitPermissiveStrategy",), ("--counterStrategy",), ("--computeCNFFormOfTheSpecification",), ("--analyzeAssumptions",),
                           ("--fixedPointRecycling",), ("--biasForAction", "--sysInitRoboticsSemantics"), ("--analyzeSafetyLivenessInteraction",), ("--analyzeInitialPositions",), ("--computeWeakenedSafetyAssumptions",)]))
        if why is None and len(o) and o[0].startswith(("--analyze", "--computeW")):
            o = []
        q = ctx.run(o + ["s.slugsin"] + (["out"] if "--symbolicStrategy" in o or ("--explicitStrategy" in o and r.random() < 0.5) else []), {"s.slugsin": t}, outputs=["out"])
        ctx.sample = {"file": t[:400], "expected": why or "accept"}
        if why is None:
            ctx.stats["still well-formed"] += 1
            if q.rc != 0:
                return ctx.viol("rejected-wellformed", "options %s rc %d %s\n%s" % (o, q.rc, q.err[-300:], t))
            if q.verdict is None and "--computeCNFFormOfTheSpecification" not in o:
                ctx.viol("no-verdict", "%s\n%s" % (q.err[-300:], t))
            return
        ctx.nontrivial(t)
        self.reject(ctx, q, "file:" + why, "options %s\n%s" % (o, t), "out")

    def options(self, ctx, r, combo):
        legal = {tuple(sorted(c)) for c in opts.COMBOS}
        if combo is None:
            combo = r.sample(opts.OPTIONS, r.choice([1, 1, 2, 2, 3, 4, 5])) if r.random() < 0.5 else list(r.choice(opts.COMBOS))
        unknown = None
        if r.random() < 0.15:
            unknown = r.choice(["--foo", "-x", "--explicitstrategy", "--help", "-", "--", "--explicitStrategy ", "--onlyRealizability", "--jsonOutput=1"])
        if r.random() < 0.2 and combo:
            if r.random() < 0.5:
                combo.append(r.choice(combo))     # repeated: same set
            else:
                combo.append(r.choice(opts.OPTIONS))
        ok = tuple(sorted(set(combo))) in legal
        req, opt = opts.files_needed(combo)
        s = Spec(["a"], ["x"])
        s.sys_trans = [Not(("^", v("a'"), v("x'")))]
        s.sys_live = [v("a"), Not(v("x"))]
        s.env_live = [v("a'"), Not(v("a"))]
        if r.random() < 0.3:
            s.sys_live.append(And(v("x"), Not(v("x"))))
        special = {"--IROSfastslow", "--nonDeterministicMotion", "--computeIncompleteInformationEstimator"} & set(combo)
        txt = s.slugsin()
        if "--IROSfastslow" in combo:
            txt = txt.replace("[OUTPUT]", "[OUTPUT_F]")
        if "--computeIncompleteInformationEstimator" in combo:
            txt = "[OBSERVABLE_INPUT]\na\n[UNOBSERVABLE_INPUT]\nu\n[OUTPUT]\nx\n[SYS_TRANS]\n| ! u' x'\n"
        files = {"s.slugsin": txt, "cost": "1.0 1.0 <\n1.0 ^ x x'\n", "bdd": ""}
        names = ["s.slugsin"] + (["cost"] if "--twoDimensionalCost" in combo else []) + (["bdd"] if "--nonDeterministicMotion" in combo else [])
        outs = ["out"] if req - len(names) > 0 or (opt and r.random() < 0.5) else []
        names += outs
        what = r.choice(["right", "right", "right", "few", "many", "nofile", "unwritable"])
        if unknown:
            what = "right"
        if "--nonDeterministicMotion" in combo and what in ("right", "unwritable"):
            if ok and not unknown:
                return self.other_nd(ctx, r, combo)
        if what == "few":
            names = names[: req - 1]
        elif what == "many":
            names = names[:req] + ["x%d" % k for k in range(opt + r.choice([1, 1, 2]))]
        elif what == "nofile":
            k = r.randrange(len(names) - len(outs))
            names[k] = "does-not-exist"
        elif what == "unwritable":
            if not outs:
                what = "right"
            else:
                names[-1] = "nodir/out"
        args = combo + ([unknown] if unknown else [])
        r.shuffle(args)
        # file names keep their relative order but may be interleaved with options
        allargs = args[:]
        pos = 0
        for n in names:
            pos = r.randint(pos, len(allargs)) if r.random() < 0.5 else len(allargs)
            allargs.insert(pos, n)
            pos += 1
        q = ctx.run(allargs, files, outputs=["out"], stdin="QUIT\n" if "--interactiveStrategy" in combo else "")
        info = " ".join(allargs)
        ctx.nontrivial(info)
        ctx.sample = {"args": allargs, "legal combination": ok}
        if unknown:
            return self.reject(ctx, q, "unknown option", info, "out")
        if not ok:
            return self.reject(ctx, q, "illegal combination", info, "out")
        if what != "right":
            if what == "unwritable":
                # the verdict may precede the failure to write
                written = (q.verdict is False) if "--counterStrategy" in combo else (q.verdict is True)
                if written and q.rc != 1:
                    ctx.viol("accepted:unwritable", "%s rc %d %s" % (info, q.rc, q.err[-300:]))
                return
            if what == "many" and "--interactiveStrategy" in combo:
                pass
            return self.reject(ctx, q, what + " files", info)
        ctx.stats["legal runs"] += 1
        ctx.stats["legal combination size %d" % len(set(combo))] += 1
        if q.rc != 0:
            ctx.viol("rejected-legal", "%s rc %d %s" % (info, q.rc, q.err[-400:]))

    def other_nd(self, ctx, r, combo):
        ctx.stats["left to C26"] += 1


check = C13()
