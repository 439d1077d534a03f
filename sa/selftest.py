"""Engine self-test: small programs with known answers (run by setup_cmd and before every check's verdict is trusted)."""
from __future__ import annotations

from .program import Program
from .query import calls, find_path, nodes, setattrs, values
from .flow import Builder, const

SRC = {
    "tianshou/__init__.py": "",
    "tianshou/m.py": """
class A:
    def f(self, x):
        if x:
            self._help()
        else:
            self.v = 1
        return self.v

    def _help(self):
        self.v = 2

    def g(self):
        try:
            self.h()
        finally:
            self.v = 3

    def h(self):
        pass


class B(A):
    def _help(self):
        pass
""",
}


def main():
    p = Program(sources=SRC)
    a, b = p.cls("A"), p.cls("B")
    fa = Builder(p, p.method(a, "f"), a)
    fb = Builder(p, p.method(b, "f"), b)
    assert find_path(fa.entry_node, fa.exit_node, setattrs(fa, "v")) is None
    assert find_path(fb.entry_node, fb.exit_node, setattrs(fb, "v")) is not None
    assert {v for v in values(fa, fa.ret_value)} == {const(1), const(2)}
    fg = Builder(p, p.method(a, "g"), a)
    h = calls(fg, "h")[0]
    assert find_path(h, [fg.exit_node, fg.raise_exit], setattrs(fg, "v"), exc=True) is None
    print("engine self-test ok")
    return 0
