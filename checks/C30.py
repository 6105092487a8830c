"""C30: histories of Boolean diagram operations (library and slugs' own classes), each result evaluated on all assignments."""
from vlib.ddcheck import DDCheck


class C30(DDCheck):
    id = "C30"
    tools = {"bddops": ("cudd", 5, 4000, 20000), "bfops": ("slugslib", 3, 3000, 12000)}
    rule = ("A case is a random history of diagram operations (79 operations of the library over 3-7 variables, 24 operations of slugs' classes over 3-12 variables) with forced and automatic reorderings, collections, cache flushes and tiny tables; "
            "every result is evaluated on all assignments by following its nodes. Non-trivial: a history with at least one reordering and one collection; distinct by generator seed.")
    quick_n = 320
    thorough_n = 4000
    min_nontrivial = 100

    def env(self, r, name):
        return {"PARANOID": str(r.choice([0, 0, 0, 0, 2, 1]))}

    def extra_cases(self):
        return ["fixed-clauses"]

    def named(self, ctx, name):
        self.history(ctx, "bddops", [name])


check = C30()
