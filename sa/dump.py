"""Developer tool: print the flow graph of Class.method (or a module function)."""
import sys

from .flow import Builder
from .program import Program

if __name__ == "__main__":
    p = Program()
    spec = sys.argv[1]
    if "." in spec and p.has_cls(spec.rsplit(".", 1)[0]):
        c, m = spec.rsplit(".", 1)
        c = p.cls(c)
        b = Builder(p, p.method(c, m), c)
    else:
        b = Builder(p, p.func(spec))
    for n in b.nodes:
        print("  " * max(0, len(n.stack) - 1), repr(n), "->", [(m.id, l) for m, l in n.succ], n.ctx or "")
