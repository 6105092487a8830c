"""C34: operation histories of the hash table, group trees, extended-exponent numbers and arbitrary-precision integers against simple models."""
from vlib.ddcheck import DDCheck


class C34(DDCheck):
    id = "C34"
    tools = {"support": ("cudd", 1, 1500, 6000)}
    rule = ("A case is a random history on each container: hash tables (all key kinds, sizes, densities, growth factors, move-to-front) against an ordered map; group trees against the list of their groups and the rules of well-formed trees; "
            "extended-exponent numbers against quadruple-precision numbers with unbounded exponents (every result within 2 units in the last place); arbitrary-precision integers and minterm counts over up to 3000 variables against bit strings. "
            "Non-trivial: a history with groups made and refused; distinct by generator seed.")
    technique = "randomized operation histories against the real library (ASan+UBSan), every returned value and the whole content compared with a model after each step"
    quick_n = 200
    thorough_n = 4000
    min_nontrivial = 80

    def interesting(self, c):
        return c.get("groups made", 0) > 0 and c.get("groups refused", 0) > 0


check = C34()
