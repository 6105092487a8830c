"""Independent reader for text-mode decision diagram files, and the monitors for symbolic strategies."""
import re
import numpy as np


class FormatError(Exception):
    pass


class BDD:
    def __init__(self, text):
        lines = text.split("\n")
        self.names, self.goals = {}, None
        k = 0
        head = {}
        for k, l in enumerate(lines):
            if l.startswith("#"):
                m = re.match(r"^#\t(\d+): (.*)$", l)
                if m:
                    if int(m.group(1)) in self.names:
                        raise FormatError("variable number %s listed twice" % m.group(1))
                    self.names[int(m.group(1))] = m.group(2)
                m = re.match(r"^# Num goals: (\d+)$", l)
                if m:
                    self.goals = int(m.group(1))
            elif l == ".nodes":
                break
            elif l.startswith("."):
                w = l.split()
                head[w[0]] = w[1:]
            else:
                raise FormatError("unexpected header line %r" % l[:100])
        else:
            raise FormatError("no .nodes section")
        if head.get(".mode") != ["A"] or head.get(".nroots") != ["1"]:
            raise FormatError("unexpected header %r" % head)
        self.ids = [int(x) for x in head[".ids"]]
        self.nodes = {}
        end = None
        for j in range(k + 1, len(lines)):
            if lines[j] == ".end":
                end = j
                break
            w = lines[j].split()
            if len(w) != 5:
                raise FormatError("bad node line %r" % lines[j])
            n = int(w[0])
            if w[1] == "T":
                if (w[2], w[3], w[4]) != ("1", "0", "0"):
                    raise FormatError("bad terminal %r" % lines[j])
                self.nodes[n] = None
            else:
                t, e = int(w[3]), int(w[4])
                if t <= 0 or t not in self.nodes or abs(e) not in self.nodes or n in self.nodes:
                    raise FormatError("bad node %r" % lines[j])
                self.nodes[n] = (int(w[1]), t, e)
                if int(w[1]) not in self.ids:
                    raise FormatError("node over undeclared variable %r" % lines[j])
        if end is None or len(self.nodes) != int(head[".nnodes"][0]):
            raise FormatError("node count")
        self.root = int(head[".rootids"][0])
        if abs(self.root) not in self.nodes:
            raise FormatError("root")

    def eval(self, val):
        """val: variable id -> numpy bool array (broadcastable) or bool"""
        memo = {}
        for n, nd in self.nodes.items():   # children first in the file
            if nd is None:
                memo[n] = np.array(True)
            else:
                x, t, e = nd
                te = memo[t]
                ee = memo[abs(e)]
                if e < 0:
                    ee = ~ee
                c = val[x]
                if isinstance(c, (bool, int)):
                    memo[n] = te if c else ee
                else:
                    memo[n] = np.where(c, te, ee)
        r = memo[abs(self.root)]
        return ~r if self.root < 0 else r
