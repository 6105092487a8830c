"""C23: interactive sessions."""
import os, re, select, subprocess, time
import numpy as np
from vlib.harness import Check, Violation, SAN_ENV, Run, scratch
from vlib.spec import *
from vlib import gen
from vlib.game import Game, fair_bad_cycle


class Session:
    def __init__(self, ctx, args, txt):
        d = scratch()
        with open(os.path.join(d, "s.slugsin"), "w") as f:
            f.write(txt)
        self.errf = open(os.path.join(d, "stderr"), "wb")
        self.p = subprocess.Popen([ctx.bins["slugs"]] + args + ["s.slugsin"], cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=dict(SAN_ENV), bufsize=0)
        self.d = d
        self.script = []
        self.ctx = ctx
        ctx.evals += 1
        ctx.log.append((["slugs"] + args, {"s.slugsin": txt, "session": self.script}))
        self.dead = False

    def transcript(self):
        return "".join(self.script)

    def send(self, t):
        self.script.append(t)
        try:
            self.p.stdin.write(t.encode())
        except BrokenPipeError:
            pass

    def expect(self):
        """output up to the next prompt"""
        buf = b""
        t0 = time.time()
        while True:
            if buf == b"> " or buf.endswith((b"\n> ", b": > ")):
                o = buf[:-2].decode()
                self.script.append(o)
                return o
            rd, _, _ = select.select([self.p.stdout], [], [], 60)
            if not rd:
                self.close(kill=True)
                raise Violation("session-hang", "no prompt within 60 s\n" + self.transcript()[-3000:] + buf.decode())
            c = os.read(self.p.stdout.fileno(), 65536)
            if not c:
                self.dead = True
                o = buf.decode()
                self.script.append(o)
                self.check()
                return o
            buf += c
            if time.time() - t0 > 60:
                self.close(kill=True)
                raise Violation("session-hang", "no prompt within 60 s, but %d bytes of output\n" % len(buf) + self.transcript()[-1000:] + buf.decode()[:1000])

    def check(self):
        """after the end of the process"""
        try:
            rc = self.p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            self.p.kill()
            raise Violation("session-hang", "does not end\n" + self.transcript()[-3000:])
        self.errf.close()
        self.err = open(os.path.join(self.d, "stderr"), errors="replace").read()
        self.log_done()
        a = Run([], rc, "", self.err, {}).abnormal
        if a:
            raise Violation(a, "session ended abnormally (%s)\n%s\n%s" % (a, self.err[-1500:], self.transcript()[-3000:]))
        self.rc = rc

    def log_done(self):
        for k, (args, files) in enumerate(self.ctx.log):
            if files.get("session") is self.script:
                files["session"] = self.transcript()

    def close(self, kill=False):
        if self.dead:
            return
        self.dead = True
        if kill:
            self.p.kill()
            self.p.wait()
            self.log_done()
            return
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.stdout.read()
        self.check()


class C23(Check):
    id = "C23"
    technique = "online monitor of interactive sessions: a model of the session (position, goal, winning region) judges every answer; the complete strategy graph is obtained through stateless queries and searched for fair cycles; ASan/UBSan"
    rule = ("sessions on random specifications (both verdicts): random command sequences with valid and invalid arguments, and full enumeration of the strategy through XSTRATEGYTRANSITION for every position, goal and input. "
            "Non-trivial: a session with at least 5 judged answers in a game with winning and losing positions; distinct by specification.")
    quick_n = 1500
    thorough_n = 12000
    min_nontrivial = 150

    def case(self, ctx, idx):
        r = self.rng(ctx, idx)
        if idx < len(gen.EDGE):
            s = gen.EDGE[idx].copy()
        else:
            want = None
            q = r.random()
            if q < 0.6:
                want = lambda g: g.realizable() and (g.win() & g.env_init & g.sys_init).any()
            elif q < 0.95:
                want = lambda g: not g.realizable()
            s, g = gen.hard_spec(r, tries=8, want=want, plain_names=True, max_total=4 if r.random() < 0.6 else 5)
        if not s.inputs + s.outputs:
            return
        g = Game(s)
        txt = s.slugsin()
        args = ["--interactiveStrategy"] + r.choice([[], [], ["--fixedPointRecycling"], ["--biasForAction"]])
        real = g.realizable()
        S = Session(ctx, args, txt)
        try:
            S.expect()
            if S.dead:
                return ctx.viol("no-prompt", "rc %s %s\n%s" % (S.rc, S.err[-300:], txt))
            if r.random() < 0.5:
                self.graph(ctx, r, S, s, g, txt, real)
            else:
                self.commands(ctx, r, S, s, g, txt, real)
            if not S.dead:
                q = r.random()
                if q < 0.5:
                    S.send(r.choice(["QUIT\n", "exit\n", "Exit \n"]))
                S.close()
                if S.rc != 0:
                    ctx.viol("session-exit", "exit code %d\n%s" % (S.rc, S.transcript()[-1500:]))
                want = "RESULT: Specification is %srealizable" % ("" if real else "un")
                if want not in S.err:
                    ctx.viol("verdict", "expected %r\n%s\n%s" % (want, txt, S.err[:500]))
        finally:
            if not S.dead:
                S.close(kill=True)
        ctx.stats["realizable sessions" if real else "unrealizable sessions"] += 1
        ctx.sample = {"spec": txt[:300], "session": S.transcript()[-600:]}

    # ------------------------------------------------------------- helpers
    def bits(self, s, x, y):
        return "".join("01"[x >> k & 1] for k in range(len(s.inputs))) + "".join("01"[y >> k & 1] for k in range(len(s.outputs)))

    def pos(self, s, g, t):
        n = len(s.inputs)
        return sum((c == "1") << k for k, c in enumerate(t[:n])) * g.O + sum((c == "1") << k for k, c in enumerate(t[n:]))

    def matches(self, s, g, t):
        """positions compatible with a string over 0 1 . (bool[N])"""
        M = np.ones(g.N, bool)
        for n, c in zip(s.inputs + s.outputs, t):
            e = g.env[n].reshape(g.N)
            if c in "1AGS":
                M = M & e
            elif c in "0ags":
                M = M & ~e
        return M

    def letters(self, s, g, line, stages):
        """the first stage (letter, set) that leaves no choice for a bit is the one that must be named"""
        for k, n in enumerate(s.inputs + s.outputs):
            e = g.env[n].reshape(g.N)
            exp = None
            for let, Z in stages:
                if not (Z & e).any():
                    exp = let
                    break
                if not (Z & ~e).any():
                    exp = let.upper()
                    break
            if exp is None:
                if line[k] not in "01":
                    return "value of %s shown as %r although it is free" % (n, line[k])
            elif line[k] != exp:
                return "value of %s shown as %r, expected %r" % (n, line[k], exp)
        return None

    # ------------------------------------------------------------- the whole strategy, through stateless queries
    def transition(self, ctx, S, s, g, txt, real, W, p, forced, la, lg):
        S.send("XSTRATEGYTRANSITION\n%s%s\n%d\n%d\n" % (self.bits(s, p // g.O, p % g.O), forced, la, lg))
        o = S.expect()
        if S.dead:
            raise Violation("session-end", "session ended\n%s" % S.transcript()[-2000:])
        l = o.split("\n")
        ctx.stats["strategy queries judged"] += 1
        F = self.matches(s, g, forced)
        E = g.env_safe[p].reshape(g.N) if False else np.broadcast_to(g.env_safe[p], (g.I, g.O)).reshape(g.N)
        Sy = np.broadcast_to(g.sys_safe[p], (g.I, g.O)).reshape(g.N)
        Ws = W if real else ~W

        def bad(k, m):
            raise Violation(k, "%s: from %r forced %s goals %d/%d answer %r\n%s" % (m, g.posname(p), forced, la, lg, o, txt))
        if not (E & F).any():
            if l[1] != "FAILASSUMPTIONS":
                bad("strategy-answer", "no allowed input, expected FAILASSUMPTIONS")
            return None
        if l[1] == "FAILASSUMPTIONS":
            bad("strategy-answer", "the input is allowed")
        if real and not (E & F & Sy).any():
            if l[1] != "FAILGUARANTEES":
                bad("strategy-answer", "no safe output, expected FAILGUARANTEES")
            q = self.pos(s, g, "".join("1" if c in "1AGS" else "0" for c in l[2]))
            if not (E & F)[q] or l[3:5] != [str(la), str(lg)]:
                bad("strategy-answer", "suggested successor violates the assumptions or what was forced, or goals changed")
            return None
        if l[1] == "FAILGUARANTEES":
            if real:
                bad("strategy-answer", "a safe output exists")
            q = self.pos(s, g, "".join("1" if c in "1AGS" else "0" for c in l[2]))
            if not (E & F)[q] or not Ws[p]:
                bad("strategy-answer", "suggested successor violates the assumptions or what was forced")
            # the environment claims that the system is stuck after the input it chose
            x = q // g.O
            if set(forced) == {"."} and Sy.reshape(g.I, g.O)[x].any():
                bad("strategy-answer", "the system is not stuck after this input")
            return ("stuck", x)
        if l[1] == "FORCEDNONWINNING":
            if set(forced[len(s.inputs):]) <= {"."} and Ws[p] and (real or set(forced) == {"."}):
                bad("strategy-answer", "position is winning, but no move is offered")
            return None
        t = l[1]
        if len(t) != len(s.inputs) + len(s.outputs) or not re.match(r"^[01aAgGsS]*$", t) or not re.match(r"^\d+$", l[2]) or not re.match(r"^\d+$", l[3]):
            bad("strategy-format", "malformed answer")
        q = self.pos(s, g, "".join("1" if c in "1AGS" else "0" for c in t))
        if not (E & F)[q]:
            bad("strategy-unsafe", "the move violates the assumptions or what was forced")
        if not Sy[q]:
            bad("strategy-unsafe", "the move violates the safety guarantees")
        if not Ws[q]:
            bad("strategy-losing", "the move leads to a position that is losing for the winner")
        x, y = q // g.O, q % g.O
        na, ng = int(l[2]), int(l[3])
        ea = (la + bool(g.A[la][p, x, y])) % len(g.A)
        eg = (lg + bool(g.G[lg][p, x, y])) % len(g.G)
        if (na, ng) != (ea, eg):
            bad("strategy-goals", "goal numbers %d/%d expected %d/%d" % (na, ng, ea, eg))
        # letters of what the assumptions (and the forced bits) fix
        st = [("a", E & F)] + ([("g", E & F & Sy)] if real else [])
        m = None
        for k, n in enumerate(s.inputs + s.outputs):
            e = g.env[n].reshape(g.N)
            exp = None
            for let, Z in st:
                if not (Z & e).any():
                    exp = let
                    break
                if not (Z & ~e).any():
                    exp = let.upper()
                    break
            if (exp is not None and t[k] != exp) or (exp is None and t[k] in "aA" + ("gG" if real else "")):
                m = "value of %s shown as %r, expected %s" % (n, t[k], exp)
        if m:
            bad("strategy-letters", m)
        return (x, y, na, ng)

    def graph(self, ctx, r, S, s, g, txt, real):
        W = g.win()
        edges = []
        n = 0
        nj = len(g.G) if real else len(g.A)
        free = "." * len(s.outputs)
        todo = [(p, j) for p in range(g.N) for j in range(nj)]
        complete = len(todo) * (g.I if real else g.O) <= 2500
        if not complete:
            todo = r.sample(todo, 60)
        for p, j in todo:
            if real:
                for x in range(g.I):
                    f = "".join("01"[x >> k & 1] for k in range(len(s.inputs))) + free
                    a = self.transition(ctx, S, s, g, txt, real, W, p, f, r.randrange(len(g.A)), j)
                    if a and W[p]:
                        edges.append(((p, j), (a[0] * g.O + a[1], a[3]), (p, a[0], a[1])))
                    elif W[p] and g.env_safe[p, x].any():
                        raise Violation("no-move", "no move from winning %r with allowed input %d for goal %d\n%s" % (g.posname(p), x, j, txt))
            else:
                lg = r.randrange(len(g.G))
                a = self.transition(ctx, S, s, g, txt, real, W, p, "." * len(s.inputs) + free, j, lg)
                if W[p]:
                    continue
                if a is None:
                    raise Violation("no-move", "no move of the environment from its winning %r for assumption %d\n%s" % (g.posname(p), j, txt))
                if a[0] == "stuck":
                    continue
                # its input against every output (the choice of the input may depend on the tool's choice of output, so ask for each)
                for y in range(g.O):
                    f = "".join("01"[a[0] >> k & 1] for k in range(len(s.inputs))) + "".join("01"[y >> k & 1] for k in range(len(s.outputs)))
                    if not g.sys_safe[p, a[0], y]:
                        continue
                    b = self.transition(ctx, S, s, g, txt, real, W, p, f, j, lg)
                    if b is None or b[0] == "stuck":
                        raise Violation("no-answer", "the environment's own move is not in its strategy for output %d: %r\n%s" % (y, b, txt))
                    edges.append(((p, j), (b[0] * g.O + b[1], b[2]), (p, b[0], b[1])))
        n = len(edges)
        ctx.stats["strategy graph edges"] += n
        if complete and n:
            if real:
                c = fair_bad_cycle(edges, [lambda l, Z=Z: bool(Z[l]) for Z in g.A], [lambda l, Z=Z: bool(Z[l]) for Z in g.G])
                if c:
                    ctx.viol("liveness", "runs of the session's strategy meet all assumptions but never guarantee %d again: %r\n%s" % (c[1], sorted(c[0])[:6], txt))
            else:
                # no run may stay without progress on an assumption, and every run must miss some guarantee
                for i, A in enumerate(g.A):
                    c = fair_bad_cycle(edges, [], [lambda l, Z=A: bool(Z[l])])
                    if c:
                        ctx.viol("env-liveness", "runs of the environment's strategy never meet assumption %d again: %r\n%s" % (i, sorted(c[0])[:6], txt))
                        break
                c = fair_bad_cycle(edges, [lambda l, Z=Z: bool(Z[l]) for Z in g.G], [lambda l: False])
                if c:
                    ctx.viol("env-prevents", "runs of the environment's strategy meet all guarantees: %r\n%s" % (sorted(c[0])[:6], txt))
            ctx.stats["complete strategy graphs"] += 1
        if g.mixed() and n >= 5:
            ctx.nontrivial(txt)

    # ------------------------------------------------------------- random commands
    def commands(self, ctx, r, S, s, g, txt, real):
        W = g.win()
        Ws = W if real else ~W
        names = s.inputs + s.outputs
        order = s.decl_order() if hasattr(s, "decl_order") else names
        cur, lg = None, 0
        judged = 0
        junk = r.random() < 0.3

        def val():
            """text of a value and the number it means"""
            v = r.randrange(2)
            if junk and r.random() < 0.1:
                return r.choice([("7", 1), ("-3", 1), ("x", 0), ("999999999999999999999", 0)])
            return str(v), v

        def bad(k, m):
            raise Violation(k, "%s\n%s\n%s" % (m, txt, S.transcript()[-2500:]))

        def result_line(o):
            m = re.match(r"^\n([01]*),(\d+)\n$", o)
            if not m or len(m.group(1)) != len(names):
                bad("format", "answer %r" % o)
            return self.pos(s, g, m.group(1)), int(m.group(2))
        for _ in range(r.randint(3, 25)):
            cmd = r.choice(["STARTPOS", "CHECKTRANS", "CHECKTRANS", "SETPOS", "MOVE", "MOVE", "MOVE", "XMAKETRANS", "XMAKETRANS", "XMAKETRANS", "XMAKETRANSRANDOM", "XMAKETRANSRANDOM",
                            "XPRINTINPUTS", "XPRINTOUTPUTS", "XGETNOFLIVENESSPROPERTIES", "XGETINIT", "XGETINIT", "XCOMPLETEINIT", "XCOMPLETEINIT", "XSTRATEGYTRANSITION", "junk", ""])
            spell = r.choice([cmd, cmd, cmd.lower(), " " + cmd + " "])
            start = Ws & g.env_init & g.sys_init
            ctx.stats["command " + cmd] += 1
            judged += 1
            if cmd == "":
                S.send("\n")
                continue
            if cmd == "junk":
                S.send("FOO bar\n")
                o = S.expect()
                if "Did not understand" not in o:
                    bad("junk", "unknown command accepted")
            elif cmd == "STARTPOS":
                S.send(spell + "\n")
                o = S.expect()
                m = re.findall(r"^ - (.*): ([01])$", o, re.M)
                if not start.any():
                    if m:
                        bad("startpos", "starting position offered although there is none")
                else:
                    if sorted(x for x, _ in m) != sorted(names):
                        bad("format", "STARTPOS lists %r" % m)
                    d = dict(m)
                    p = self.pos(s, g, "".join(d[n] for n in names))
                    if not start[p]:
                        bad("startpos", "offered starting position %r is not initial and winning" % g.posname(p))
                    cur = p
            elif cmd == "XGETINIT":
                S.send(spell + "\n")
                o = S.expect()
                if not start.any():
                    if re.match(r"^\n[01]+,", o):
                        bad("xgetinit", "initial position %r offered although there is none" % o)
                    continue
                p, j = result_line(o)
                if not start[p] or j != 0:
                    bad("xgetinit", "offered initial position %r is not initial and winning" % g.posname(p))
                cur, lg = p, 0
            elif cmd == "SETPOS":
                vs = [val() for _ in order]
                S.send(spell + "\n" + r.choice([" ", "\n"]).join(t for t, _ in vs) + "\n")
                o = S.expect()
                d = {n: v for n, (_, v) in zip(order, vs)}
                cur = self.pos(s, g, "".join("01"[d[n]] for n in names))
            elif cmd == "CHECKTRANS":
                vs, ws = [val() for _ in order], [val() for _ in order]
                S.send(spell + "\n" + "\n".join(t for t, _ in vs + ws) + "\n")
                o = S.expect()
                d = {n: v for n, (_, v) in zip(order, vs)}
                e = {n: v for n, (_, v) in zip(order, ws)}
                p = self.pos(s, g, "".join("01"[d[n]] for n in names))
                q = self.pos(s, g, "".join("01"[e[n]] for n in names))
                x, y = q // g.O, q % g.O
                tr = (p, x, y)
                res = o.split("Result: \n")[-1]
                if ("- The pre-position is winning." in res) != bool(Ws[p]) or ("- The pre-position is not winning." in res) == bool(Ws[p]):
                    bad("checktrans-winning", "position %r winning: %s" % (g.posname(p), Ws[p]))
                for nm, Z in (("ASSUMPTIONS", g.env_safe), ("GUARANTEES", g.sys_safe)):
                    ok = bool(np.broadcast_to(Z, g.shape)[tr])
                    if ("SATISFIES the SAFETY " + nm in res) != ok or ("VIOLATES the SAFETY " + nm in res) == ok:
                        bad("checktrans-safety", "transition %r -> %r: %s expected %s" % (g.posname(p), g.posname(q), nm, ok))
                for nm, Zs in (("assumptions", g.A), ("guarantees", g.G)):
                    m = re.search(r"goal transition for the following liveness %s: (.*)$" % nm, res, re.M)
                    exp = ", ".join(str(i) for i, Z in enumerate(Zs) if Z[tr]) or "none"
                    if not m or m.group(1) != exp:
                        bad("checktrans-live", "liveness %s expected %s" % (nm, exp))
                m = re.search(r"possible transition in a strategy for the following goals: (.*)$", res, re.M)
                if not m:
                    bad("checktrans-strategy", "no statement on strategies")
                if m.group(1) != "none" and real and not (g.sys_safe[tr] and W[q]):
                    bad("checktrans-strategy", "said to be part of a strategy: %r -> %r" % (g.posname(p), g.posname(q)))
            elif cmd == "MOVE":
                if not real and r.random() < 0.7:
                    continue
                k = r.randrange(len(g.G) + 1)
                gt = str(k)
                if junk and r.random() < 0.1:
                    gt = r.choice(["x", "-1", "99999999999"])
                    k = None
                vs = [val() for _ in s.inputs]
                ask = cur is not None and k is not None and k < len(g.G) and g.env_safe[cur].any() and real
                S.send(spell + "\n" + (gt + "\n" if cur is not None and real else ""))
                if ask:
                    S.send("".join(t + "\n" for t, _ in vs))
                o = S.expect()
                if S.dead:
                    if real:
                        bad("session-end", "the session ended with MOVE")
                    return
                if not ask:
                    if cur is not None and real and k is not None and k < len(g.G) and "no allowed next input" not in o:
                        bad("move-deadlock", "no move is possible")
                    if re.search(r"^ - .* = [01]$", o, re.M):
                        bad("move", "a move was made")
                    continue
                x = sum(v << i for i, (_, v) in enumerate(vs))
                ok = bool(g.env_safe[cur, x].any())
                if ("Warning: that is an illegal next input!" in o) == ok:
                    bad("move-warning", "input %d allowed: %s" % (x, ok))
                m = re.findall(r"^(?:.*: )? - (.*)' = ([01])$", o, re.M)
                if not m and "Input not allowed here" not in o and s.outputs:
                    bad("format", "MOVE answers %r" % o)
                if "Input not allowed here" in o:
                    if ok and W[cur]:
                        bad("move-refused", "no move from winning %r for allowed input" % g.posname(cur))
                    continue
                d = dict(m)
                if sorted(d) != sorted(s.outputs):
                    bad("format", "MOVE lists %r" % m)
                y = sum(int(d[n]) << i for i, n in enumerate(s.outputs))
                tr = (cur, x, y)
                if not g.sys_safe[tr] or not W[x * g.O + y]:
                    bad("move-unsafe", "move %r -> %r is unsafe or losing" % (g.posname(cur), g.posname(x * g.O + y)))
                for nm, Zs in (("assumptions", g.A), ("guarantees", g.G)):
                    mm = re.search(r"goal transition for the following liveness %s: (.*)$" % nm, o, re.M)
                    exp = ", ".join(str(i) for i, Z in enumerate(Zs) if Z[tr]) or "none"
                    if not mm or mm.group(1) != exp:
                        bad("move-live", "liveness %s expected %s" % (nm, exp))
                mm = re.search(r"possible transition in a strategy for the following goals: (.*)$", o, re.M)
                if not mm or str(k) not in mm.group(1).split(", "):
                    bad("move-strategy", "not part of the strategy for goal %d" % k)
                cur = x * g.O + y
            elif cmd in ("XMAKETRANS", "XMAKETRANSRANDOM"):
                if not real:
                    if r.random() < 0.85:
                        continue
                    S.send(spell + "\n")
                    o = S.expect()
                    if not S.dead:
                        if re.match(r"^\n[01]+,", o):
                            bad("maketrans-unreal", "a system move is offered for an unrealizable specification")
                        continue
                    if S.rc == 0:
                        bad("maketrans-unreal", "silently ended")
                    return
                x = r.randrange(g.I)
                if cur is not None and r.random() < 0.8:
                    al = [x for x in range(g.I) if g.env_safe[cur, x].any()]
                    if al:
                        x = r.choice(al)
                S.send(spell + "\n" + "".join("01"[x >> k & 1] for k in range(len(s.inputs))) + "\n")
                o = S.expect()
                if cur is None or not g.env_safe[cur, x].any():
                    if o != "\nERROR\n":
                        bad("maketrans", "expected ERROR (position undefined or input not allowed), got %r" % o)
                    continue
                if not W[cur] and o == "\nERROR\n":
                    continue
                q, j = result_line(o)
                tr = (cur, q // g.O, q % g.O)
                if q // g.O != x:
                    bad("maketrans-input", "the move does not have the requested input")
                if not g.sys_safe[tr] or not W[q]:
                    bad("maketrans-unsafe", "move %r -> %r is unsafe or losing" % (g.posname(cur), g.posname(q)))
                e, first = lg, True
                while (e != lg or first) and g.G[e][tr]:
                    e = (e + 1) % len(g.G)
                    first = False
                if j != e:
                    bad("maketrans-goal", "goal number %d, expected %d" % (j, e))
                cur, lg = q, j
            elif cmd in ("XPRINTINPUTS", "XPRINTOUTPUTS"):
                S.send(spell + "\n")
                o = S.expect()
                if o != "\n" + "".join(n + "\n" for n in (s.inputs if cmd == "XPRINTINPUTS" else s.outputs)) + "\n":
                    bad("print", "lists %r" % o)
            elif cmd == "XGETNOFLIVENESSPROPERTIES":
                S.send(spell + "\n")
                o = S.expect()
                if o.split() != [str(len(g.A)), str(len(g.G))]:
                    bad("nofliveness", "answers %r" % o)
            elif cmd == "XCOMPLETEINIT":
                f = "".join(r.choice("01....") for _ in names)
                S.send(spell + "\n" + f + "\n")
                o = S.expect()
                l = o.split("\n")
                F = self.matches(s, g, f)
                E, I = g.env_init & F, g.sys_init
                if not E.any():
                    exp = "FAILASSUMPTIONS"
                elif real:
                    exp = "FAILGUARANTEES" if not (E & I).any() else "FORCEDNONWINNING" if not (E & I & W).any() else None
                else:
                    exp = ("FAILGUARANTEES" if set(f) == {"."} else "FORCEDNONWINNING") if not (E & ~W).any() else "FAILGUARANTEES" if not (E & ~W & I).any() else None
                if exp is None and (len(l[1]) != len(names) or not re.match(r"^[01aAgGsS]*$", l[1])) or exp is not None and l[1] != exp:
                    bad("completeinit", "answer %r, expected %s" % (l[1], exp or "a position"))
                if exp is None:
                    q = self.pos(s, g, "".join("1" if c in "1AGS" else "0" for c in l[1]))
                    if not (E & I & Ws)[q]:
                        bad("completeinit-position", "position %r is not initial, winning and as forced" % g.posname(q))
                    m = self.letters(s, g, l[1], [("a", E), ("g", E & I), ("s", E & I & W)] if real else [("a", E), ("s", E & ~W), ("g", E & ~W & I)])
                    if m:
                        bad("completeinit-letters", m)
                elif exp == "FAILGUARANTEES":
                    q = self.pos(s, g, "".join("1" if c in "1AGS" else "0" for c in l[2]))
                    if not E[q]:
                        bad("completeinit-position", "position %r violates the assumptions or what was forced" % g.posname(q))
            elif cmd == "XSTRATEGYTRANSITION":
                p = r.randrange(g.N)
                f = "".join(r.choice("01...") for _ in s.inputs) + "".join(r.choice("01......") for _ in s.outputs)
                la, lgg = r.randrange(len(g.A)), r.randrange(len(g.G))
                if junk and r.random() < 0.2:
                    S.send("XSTRATEGYTRANSITION\n%s%s\n%s\n%s\n" % (self.bits(s, p // g.O, p % g.O), f, r.choice(["0", "7", "x"]), r.choice(["0", "99999", "-1"])))
                    S.expect()
                    if S.dead:
                        return
                    continue
                self.transition(ctx, S, s, g, txt, real, W, p, f, la, lgg)
        if g.mixed() and judged >= 5:
            ctx.nontrivial(txt)


check = C23()
