"""C05: liveness over all infinite runs of explicit strategies."""
from vlib.harness import Check
from .strategy_common import *


class C05(Check):
    id = "C05"
    rule = ("random specifications with several assumptions and guarantees, all strategy options; the printed strategy's graph is searched for a reachable strongly connected part in which every assumption can recur while a guarantee never holds "
            "(fair-cycle detection, so all infinite runs are covered), and the goal number's updates are monitored. Non-trivial as in C04.")
    quick_n = 1500
    thorough_n = 25000
    min_nontrivial = 200
    assumptions = ["the explicit game model and SCC search in /verif/vlib"]

    def case(self, ctx, idx):
        run_case(self, ctx, self.rng(ctx, idx), LIVE_KEYS, tries=10)


check = C05()
