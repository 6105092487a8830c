"""C31: histories of everything that changes the manager under the feet of held diagrams; operations abandoned because of limits."""
from vlib.ddcheck import DDCheck
from vlib.harness import Violation

FIXED = {"linear": (["fixed-linear"], {}), "zdd-groups": (["13", "200"], {"ZGROUPS": "1"}), "exact-unused": (["95", "600"], {"EXACTUNUSED": "1"})}


class C31(DDCheck):
    id = "C31"
    tools = {"ddhist": ("cudd", 1, 1500, 6000)}
    rule = ("A case is a random history over pools of held Boolean, arithmetic and zero-suppressed diagrams: operations, all reordering methods on request and automatically, shuffles, linear transformations, groups of variables, variables inserted at levels, "
            "hooks, parameters, and operations abandoned because of a termination callback, a node limit or a time limit and then repeated. Held diagrams are re-evaluated on all assignments, references compared with those held. "
            "Non-trivial: a history with at least one reordering and one collection; distinct by generator seed.")
    quick_n = 320
    thorough_n = 4000
    min_nontrivial = 150

    def env(self, r, name):
        return r.choice([{}, {}, {"PARANOID": "1"}])

    def extra_cases(self):
        return ["fixed-" + k for k in FIXED]

    def named(self, ctx, name):
        args, env = FIXED[name[6:]]
        try:
            self.history(ctx, "ddhist", args, env)
        except Violation as v:
            raise Violation("ddhist:" + name, str(v))


check = C31()
