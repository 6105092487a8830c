"""Shared case body of C04 / C05 / C07: extract an explicit strategy and judge it."""
from vlib.harness import Violation
from vlib import gen, strat

SAFETY_KEYS = {"numbering", "duplicate-state", "losing-state", "initial-missing", "initial-order", "no-successors", "duplicate-successor", "dangling", "nondeterministic", "disallowed-input", "unsafe", "missing-input"}
LIVE_KEYS = {"rank-range", "goal-skipped", "liveness"}


def run_case(chk, ctx, r, keys, recovery=None, want_extra=None, tries=None):
    bias = r.choice([[], [], ["--biasForAction"], ["--fixedPointRecycling"]])
    rob = r.random() < 0.35
    rec = (r.random() < 0.3) if recovery is None else recovery
    js = r.random() < 0.4
    s, g = gen.hard_spec(r, tries=tries or r.choice([2, 6, 10]), want=(lambda g: g.realizable_robotics() if rob else g.realizable()) if r.random() < 0.95 else None)
    if g.mixed() and r.random() < 0.4:
        q, e = gen.probe(r, s, g) if not rob else (gen.robotics_probe(r, s, g), None)
        if q is not None and e is not False:
            s = q
            g.__init__(s)
            g._win = None
    args = ["--explicitStrategy"] + bias + (["--sysInitRoboticsSemantics"] if rob else []) + (["--simpleRecovery"] if rec else []) + (["--jsonOutput"] if js else [])
    r.shuffle(args)
    txt = s.slugsin()
    tofile = r.random() < 0.3
    run = ctx.run(args + ["s.slugsin"] + (["o.txt"] if tofile else []), {"s.slugsin": txt}, outputs=["o.txt"])
    out = run.files.get("o.txt", "") if tofile else run.out
    exp = g.realizable_robotics() if rob else g.realizable()
    for a in args:
        ctx.stats[a] += 1
    ctx.stats["realizable" if exp else "unrealizable"] += 1
    if run.rc != 0:
        ctx.viol("rejected", "rc=%d %s" % (run.rc, run.err[-300:]))
        return None
    noinit = not (g.win() & g.sys_init & (g.env_init | rec)).any()
    if (bool(out.strip()) or (noinit and not js)) != exp and not (noinit and not js and not out.strip()):
        ctx.viol("strategy-iff-realizable", "game is %s, verdict %s, strategy output %d bytes\n%s" % (exp, run.verdict, len(out), txt))
        return None
    if not exp:
        return None
    try:
        st, order = (strat.parse_json if js else strat.parse_text)(out)
        bad = strat.check_explicit(g, st, robotics=rob, recovery=rec, win=g.win())
        pos = strat.positions(g, st)
    except strat.FormatError as e:
        ctx.viol("format", "%s\n%s\n%s" % (e, txt, out[:1500]))
        return None
    ctx.stats["strategy states checked"] += len(st)
    ctx.stats["strategy transitions checked"] += sum(len(x[2] or []) for x in st.values())
    ranks = len(set(x[0] for x in st.values()))
    ctx.stats["strategies using %s goals" % (ranks if ranks < 4 else ">=4")] += 1
    if len(st) > 2 and (g.mixed() or g.depth[1] > 2 or g.depth[2] > 2):
        ctx.nontrivial(txt + out)
    ctx.sample = {"options": args, "spec": txt[:400], "strategy": out[:400], "states": len(st)}
    for k, m in bad:
        if k in keys:
            ctx.viol(k, "%s\noptions %s\n%s\n%s" % (m, args, txt, out[:3000]))
            break
    return s, g, st, pos, args, txt, out
