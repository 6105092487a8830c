"""C32: histories of operations on diagrams with numbers and on zero-suppressed diagrams, each result judged against its definition."""
from vlib.ddcheck import DDCheck


class C32(DDCheck):
    id = "C32"
    tools = {"arith": ("cudd", 1, 1500, 6000)}
    rule = ("A case is a random history of about 60 operations on arithmetic diagrams (arithmetic, comparison, threshold, abstraction, composition, permutation, matrix products, residues, distances, matrices read from files, infinities, other background values) "
            "and 20 operations on zero-suppressed diagrams (families of sets; covers with two literals per variable: products, divisions, complements, irredundant covers), with reorderings, shuffles, collections inside of operations, cache flushes and tiny tables. "
            "Every result is evaluated on all assignments by following its nodes. Non-trivial: a history with at least one reordering and one collection; distinct by generator seed.")
    quick_n = 800
    thorough_n = 6000
    min_nontrivial = 150

    def env(self, r, name):
        return {"PARANOID": str(r.choice([0, 0, 1, 2]))}

    def interesting(self, c):
        return c.get("events: reordering", 0) > 0 and c.get("collections of the manager", 0) > 0


check = C32()
