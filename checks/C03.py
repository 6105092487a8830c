"""C03: verdicts are invariant under options and presentation, and monotone."""
import os, glob, re
from vlib.harness import Check
from vlib import build as B
from vlib.spec import *
from vlib import gen

OPTS = [[], ["--fixedPointRecycling"], ["--biasForAction"], ["--explicitStrategy"], ["--explicitStrategy", "--jsonOutput"], ["--explicitStrategy", "--simpleRecovery"],
        ["--fixedPointRecycling", "--explicitStrategy"], ["--biasForAction", "--explicitStrategy"], ["--symbolicStrategy"], ["--simpleSymbolicStrategy"], ["--fixedPointRecycling", "--symbolicStrategy"],
        ["--biasForAction", "--simpleSymbolicStrategy"], ["--extractExplicitPermissiveStrategy"], ["--biasForAction", "--explicitStrategy", "--simpleRecovery", "--jsonOutput"], ["--counterStrategy"],
        ["--simpleRecovery", "--symbolicStrategy"], ["--fixedPointRecycling", "--simpleRecovery", "--simpleSymbolicStrategy"]]
HEAVY = {"--explicitStrategy", "--extractExplicitPermissiveStrategy", "--counterStrategy"}


def big_spec(r):
    """Too large for the explicit reference: 7 to 12 variables."""
    q = r.random()
    n = r.randint(7, 12)
    ni = r.randint(1, n // 2)
    I = ["in%d" % k for k in range(ni)]
    O = ["out%d" % k for k in range(n - ni)]
    s = Spec(I, O)
    allv = I + O + post(I) + post(O)
    if q < 0.4:
        for k, o in enumerate(O):
            deps = r.sample(I + O, min(2, len(I + O)))
            if r.random() < 0.7:
                s.sys_trans.append(Or(Not(("^", v(o), v(o + "'"))), lit(r, deps), lit(r, post(I) + I)))
        for _ in range(r.randint(1, 5)):
            s.sys_trans.append(clause(r, allv, r.randint(3, 4)))
    elif q < 0.7:
        for _ in range(r.randint(3, 10)):
            s.sys_trans.append(clause(r, allv, 3))
    else:
        # mutual exclusion with hold
        for a in range(len(O)):
            for b in range(a):
                if r.random() < 0.5:
                    s.sys_trans.append(Or(Not(v(O[a] + "'")), Not(v(O[b] + "'"))))
    for _ in range(r.randint(0, 4)):
        s.env_trans.append(clause(r, I + O + post(I), r.randint(2, 3)))
    for _ in range(r.randint(0, 3)):
        s.env_live.append(rand_formula(r, I + post(I) + O[:2], 2))
    for _ in range(r.randint(1, 4)):
        s.sys_live.append(And(lit(r, O), lit(r, allv)) if r.random() < 0.6 else rand_formula(r, allv, 2))
    if r.random() < 0.6:
        s.sys_init = [Not(v(o)) for o in O]
        s.env_init = [Not(v(i)) for i in I]
    return s


def noise(r, lines):
    out = []
    for l in lines:
        if r.random() < 0.15:
            out.append(r.choice(["# comment", "", "   ", "\t", "#", "  # [INPUT]", "#! & | x"]))
        if l.strip() and r.random() < 0.3:
            l = r.choice([" ", "\t", "   "]) + l + r.choice([" ", "\t ", ""])
        if " " in l.strip() and r.random() < 0.2:
            a, b = l.rstrip().rsplit(" ", 1)
            l = a + r.choice(["  ", "   "]) + b
        out.append(l)
    return out


class C03(Check):
    id = "C03"
    rule = ("specifications small and large (up to 12 variables, plus the shipped examples): the same file under pairs of option sets; the same specification rewritten (line order, declaration order, duplicated lines, split conjunctions, equivalent formulas with and without buffers, "
            "renamed variables, comments and blanks, section order); strengthened or weakened variants. The monitor compares the verdicts of the paired runs. Non-trivial: the compared runs differ in input or options and at least one liveness or transition line exists; distinct by input text.")
    quick_n = 500
    thorough_n = 8000
    min_nontrivial = 150

    def extra_cases(self):
        return ["example:" + os.path.relpath(f, B.REPO) for f in sorted(glob.glob(B.REPO + "/examples/**/*.slugsin", recursive=True)) if os.path.getsize(f) < 6000 and
                set(re.findall(r"^\[(.*)\]\s*$", open(f).read(), re.M)) <= set(SECTIONS)]

    def verdict(self, ctx, args, txt):
        files = ["s.slugsin"] + (["out"] if any("ymbolic" in a for a in args) else [])
        q = ctx.run(args + files, {"s.slugsin": txt}, timeout=60)
        if q.rc != 0 or q.verdict is None:
            ctx.viol("no-verdict", "options %s rc %d: %s\n%s" % (args, q.rc, q.err[-300:], txt[:3000]))
            return None
        return q.verdict

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        if isinstance(idx, str):
            txt = open(os.path.join(B.REPO, idx.split(":", 1)[1])).read()
            vs = {}
            for o in ([], ["--fixedPointRecycling"], ["--biasForAction"], ["--symbolicStrategy"], ["--counterStrategy"]):
                if o == ["--counterStrategy"] and True in vs.values():
                    continue
                v_ = self.verdict(ctx, o, txt)
                if v_ is None:
                    return
                vs[" ".join(o)] = v_
            ctx.nontrivial(idx)
            if len(set(vs.values())) != 1:
                ctx.viol("option-changes-verdict", "%s: %s" % (idx, vs))
            return
        large = r.random() < 0.45
        s = big_spec(r) if large else gen.hard_spec(r, tries=4)[0]
        base = s.slugsin()
        v0 = self.verdict(ctx, [], base)
        if v0 is None:
            return
        ctx.stats["large" if large else "small"] += 1
        ctx.stats["realizable" if v0 else "unrealizable"] += 1
        if s.sys_live or s.sys_trans:
            ctx.nontrivial(base)
        # options (including combinations)
        cand = [o for o in OPTS[1:] if not (large and HEAVY & set(o))]
        for o in r.sample(cand, 2):
            o = list(o)
            r.shuffle(o)
            v1 = self.verdict(ctx, o, base)
            ctx.stats["option pairs"] += 1
            if v1 is not None and v1 != v0:
                return ctx.viol("option-changes-verdict:" + "+".join(sorted(o)), "plain %s, with %s %s\n%s" % (v0, o, v1, base))
        # presentation
        for _ in range(2):
            t, what = self.represent(r, s)
            v1 = self.verdict(ctx, r.choice([[], [], ["--fixedPointRecycling"]]), t)
            ctx.stats["presentation pairs"] += 1
            if v1 is not None and v1 != v0:
                return ctx.viol("presentation-changes-verdict", "original %s, rewritten (%s) %s\n%s\n----\n%s" % (v0, what, v1, base, t))
        # monotonicity
        q = s.copy()
        allv = s.inputs + s.outputs + post(s.inputs) + post(s.outputs)
        ev = s.inputs + s.outputs + post(s.inputs)
        if v0:   # help the system: must stay realizable
            k = r.choice(["drop sys_trans", "drop sys_live", "add env_trans", "add env_live", "weaken sys_trans", "drop sys_init", "add env_init"])
        else:    # hurt the system: must stay unrealizable
            k = r.choice(["add sys_trans", "add sys_live", "drop env_trans", "drop env_live", "weaken env_trans", "drop env_init", "add sys_init"])
        verb, part = k.split(" ")
        lst = getattr(q, part)
        vs = {"sys_trans": allv, "sys_live": allv, "env_live": allv, "env_trans": ev, "env_init": s.inputs, "sys_init": s.inputs + s.outputs}[part]
        if verb == "add":
            lst.insert(r.randint(0, len(lst)), clause(r, vs, 2) if r.random() < 0.6 else rand_formula(r, vs, 2))
        elif verb == "drop" and lst:
            lst.pop(r.randrange(len(lst)))
            if part == "env_live" and not lst:
                pass
        elif verb == "weaken" and lst:
            j = r.randrange(len(lst))
            lst[j] = Or(lst[j], rand_formula(r, vs, 1))
        t = q.slugsin()
        v1 = self.verdict(ctx, [], t)
        ctx.stats["monotonicity: " + k] += 1
        if v1 is not None and v1 != v0:
            ctx.viol("not-monotone:" + k, "%s: %s became %s\n%s\n----\n%s" % (k, v0, v1, base, t))
        ctx.sample = {"spec": base[:400], "verdict": v0, "variant": k}

    def represent(self, r, s):
        q = s.copy()
        what = []
        parts = ["env_init", "sys_init", "env_trans", "sys_trans", "env_live", "sys_live"]
        if r.random() < 0.5:
            for p in parts:
                r.shuffle(getattr(q, p))
            what.append("shuffled lines")
        if r.random() < 0.5:
            r.shuffle(q.inputs)
            r.shuffle(q.outputs)
            what.append("shuffled declarations")
        if r.random() < 0.5:
            for p in parts:
                setattr(q, p, [rewrite(r, f) for f in getattr(q, p)])
            what.append("equivalent formulas")
        if r.random() < 0.3:
            for p in parts:
                l = getattr(q, p)
                if l and r.random() < 0.4:
                    l.insert(r.randint(0, len(l)), r.choice(l))
            what.append("duplicated lines")
        if r.random() < 0.4:
            for p in parts[:4]:
                l = []
                for f in getattr(q, p):
                    l += [f[1], f[2]] if f[0] == "&" else [f]
                if r.random() < 0.3 and len(l) > 1:
                    l = [And(*l)]
                setattr(q, p, l)
            what.append("split or joined conjunctions")
        if r.random() < 0.2:
            if not q.env_live:
                q.env_live = [T]
            if not q.sys_live:
                q.sys_live = [T]
        order = SECTIONS[:]
        if r.random() < 0.4:
            tail = order[2:]
            r.shuffle(tail)
            head = order[:2]
            r.shuffle(head)
            order = head + tail
            what.append("section order")
        t = q.slugsin(order=order, omit_empty=r.random() < 0.5)
        if r.random() < 0.4:
            names = q.inputs + q.outputs
            new = ["w%d%s" % (k, r.choice(["", "_", ".b", "@0.0.1", "INPUT", "TRUE", "x" * 20])) for k in range(len(names))]
            r.shuffle(new)
            m = dict(zip(names, new))
            lines = []
            for l in t.split("\n"):
                lines.append(l if l.startswith("[") else " ".join((m[w] if w in m else m[w[:-1]] + "'" if w.endswith("'") and w[:-1] in m else w) for w in l.split(" ")))
            t = "\n".join(lines)
            what.append("renamed variables")
        if r.random() < 0.5:
            t = "\n".join(noise(r, t.split("\n"))) + "\n"
            what.append("comments and blanks")
        if r.random() < 0.1:
            t = t.rstrip("\n")
        return t, ", ".join(what)


check = C03()
