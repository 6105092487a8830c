"""C04: explicit strategies: initial states, input completeness, determinism, safety."""
from vlib.harness import Check
from .strategy_common import *


class C04(Check):
    id = "C04"
    rule = ("random specifications (realizable ones preferred), every combination of --explicitStrategy with bias/recycling/robotics/recovery/JSON/output file; an automaton monitor checks every state and transition of the printed strategy "
            "against the explicit game: initial states, one successor per allowed input, safe, winning, closed. Non-trivial: more than two states and a mixed winning region or a deep fixed point; distinct by specification and strategy.")
    quick_n = 1500
    thorough_n = 25000
    min_nontrivial = 200
    assumptions = ["the explicit game model in /verif/vlib"]

    def case(self, ctx, idx):
        run_case(self, ctx, self.rng(ctx, idx), SAFETY_KEYS)


check = C04()
