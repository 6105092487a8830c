"""C33: histories of saving, loading and converting decision diagrams (dddmp), judged by evaluation."""
from vlib.ddcheck import DDCheck


class C33(DDCheck):
    id = "C33"
    tools = {"dddmpio": ("cudd", 1, 80, 400)}
    rule = ("A case is a random history over two managers with different variable orders: vectors of diagrams (also missing roots, constants, shared diagrams) are saved in text, binary or default mode with any variable information, names and numbers, to files or several in one stream, "
            "converted between the modes, and loaded into either manager with each way of matching variables and roots; files are cut and disks full at random positions. All loaded diagrams are evaluated on all assignments; consistency and reference monitors over both managers. "
            "Non-trivial: a history with text, binary and number files loaded; distinct by generator seed.")
    quick_n = 1000
    thorough_n = 8000
    min_nontrivial = 400

    def env(self, r, name):
        return dict([("DDDMPIO_DIR", ".")] + ([("DEEP", "1")] if r.random() < 0.3 else []))

    def interesting(self, c):
        ops = " ".join(k for k in c if k.startswith("op load"))
        return "text" in ops and "binary" in ops and "numbers" in ops and c.get("saved and loaded", 0) > 10


check = C33()
