"""Normal form of tensor expressions: polynomials over canonical atoms, so that equal formulas compare equal however they are written.

Shape changes, moves between devices and types, and stopping of gradients are transparent here (what is recorded is judged elsewhere);
means are linear, maxima are minima of negated values, indicators of comparisons are atoms, squares are multiplied out.
"""
from __future__ import annotations

import ast
import itertools

from .flow import NONE, Term, canon_cond, const, is_call, subterms
from .query import Poly

VIEWS = {"reshape", "view", "flatten", "transpose", "squeeze", "unsqueeze", "float", "double", "long", "int", "to", "to_torch_as", "to_torch", "to_numpy", "cpu", "cuda", "contiguous", "clone",
         "detach", "numpy", "permute", "expand", "expand_as", "as_tensor", "asarray", "tensor", "cast", "view_as", "type_as", "from_numpy", "astype", "requires_grad_", "copy", "deepcopy", "swapaxes", "ravel",
         "FloatTensor", "Tensor", "array", "atleast_1d", "expand_dims", "Parameter"}
BIN = {"add": "+", "sub": "-", "subtract": "-", "mul": "*", "multiply": "*", "div": "/", "true_divide": "/", "divide": "/", "__add__": "+", "__sub__": "-", "__mul__": "*", "__truediv__": "/"}
UNARY = {"exp", "log", "sqrt", "softmax", "log_softmax", "sigmoid", "logsigmoid", "tanh", "entropy", "isnan", "softplus", "expm1", "log1p", "rsqrt"}
REDUCE = {"sum", "logsumexp", "std", "var", "argmax", "prod", "argsort", "cumsum", "norm"}
KNOWN = UNARY | REDUCE | {"mean", "dmean", "amin", "eq", "even", "min", "max", "clamp", "ind", "abs", "huber", "inv", "take", "sub", "item", "cat", "stack", "log_prob", "nll", "gather", "cross_entropy", "pow", "dot", "forward", "scale"}
TRANSPARENT_ATTR = {"data", "T", "mT", "values_", "device"}


class Unknown(Exception):
    pass


def last(f):
    return f.a[1] if f.k == "attr" else f.a[0].rsplit(".", 1)[-1] if f.k == "global" else None


class Canon:
    """dims: whether the dimension of a reduction distinguishes it."""

    # private attributes of the class under analysis that hold a constructor parameter: attribute -> parameter
    held = {}

    def __init__(self, fl=None, val=None, alias=None, dims=True, same=()):
        self.fl, self.val, self.alias, self.dims, self.same = fl, val or (lambda t: None), alias or {}, dims, same
        self.memo, self.heads = {}, set()
        self.busy = set()

    # -- entry points
    def form(self, t) -> Poly:
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return self.unknown("loop")
        self.busy.add(t)
        p = self._form(t)
        self.busy.discard(t)
        self.memo[t] = p
        return p

    def s(self, t):
        return self.ps(self.form(t))

    @staticmethod
    def ps(p):
        out = []
        for k, v in sorted(p.m.items(), key=lambda z: repr(z[0])):
            fac = "*".join(f"{a}^{e}" if e != 1 else a for a, e in sorted(k))
            v = round(v, 9) if isinstance(v, float) else v
            v = int(v) if isinstance(v, float) and v == int(v) else v
            out.append(fac if v == 1 and fac else f"{v}*{fac}" if fac else f"{v}")
        return "+".join(out) if out else "0"

    def atom(self, head, *args):
        self.heads.add(head)
        return Poly.x(f"{head}({','.join(args)})")

    def unknown(self, what):
        self.heads.add("?" + what)
        return Poly.x("?" + what)

    def attr_name(self, a):
        if not a.startswith("_"):
            return a
        if self.fl is not None:
            return "~" + self.held[a] if a in self.held else a
        return "~" + a[1:] if a[1:] in self.held.values() else a

    def leaf(self, name):
        return Poly.x(name)

    # -- rules
    def cond(self, t):
        """Indicator polynomial of a condition."""
        x, pol = canon_cond(t)
        p = self._cond(x)
        return p if pol else Poly.c(1) - p

    def _cond(self, t):
        if t.k == "const":
            return Poly.c(1 if t.a[0] else 0)
        v = self.val(t)
        if v is not None:
            return Poly.c(1 if v else 0)
        if t.k == "cmp" and t.a[0] in ("<", "<=", ">", ">="):
            op, a, b = t.a[0], self.form(t.a[1]), self.form(t.a[2])
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            if op == "<":
                return self.ind(a - b)
            return Poly.c(1) - self.ind(b - a)
        if t.k == "cmp" and t.a[0] in ("==", "!="):
            d = self.form(t.a[1]) - self.form(t.a[2])
            x, y = self.ps(d), self.ps(-d)
            e = self.atom("eq", min(x, y))
            return e if t.a[0] == "==" else Poly.c(1) - e
        return self.form(t)

    def ind(self, p):
        """1 where p < 0."""
        if set(p.m) <= {()}:
            return Poly.c(1 if p.m.get((), 0) < 0 else 0)
        return self.atom("ind", self.ps(self.scale(p)))

    @staticmethod
    def scale(p):
        """The sign of p does not change when it is divided by a positive number."""
        if not p.m:
            return p
        k = sorted(p.m, key=repr)[0]
        v = abs(p.m[k])
        return Poly({a: b / v for a, b in p.m.items()}) if v != 1 else p

    def even(self, head, p):
        a, b = self.ps(p), self.ps(-p)
        return self.atom(head, min(a, b))

    def minimum(self, ps, dim=None):
        ss = sorted({self.ps(p) for p in ps})
        if len(ss) == 1:
            return ps[0]
        return self.atom("min", *ss)

    def scalar(self, a):
        """Atoms that are the same for all elements of a tensor."""
        return a.startswith("self.") and "(" not in a and a not in ("self.tau_hat",) or a.startswith("mean(")

    def mean(self, p, dim=None):
        out = Poly()
        for k, v in p.m.items():
            sc = tuple((a, e) for a, e in k if dim is None and self.scalar(a))
            ns = tuple((a, e) for a, e in k if not (dim is None and self.scalar(a)))
            q = Poly({sc: v})
            if ns:
                q = q * (self.atom("mean", self.ps(Poly({ns: 1}))) if dim is None else self.atom("dmean", self.ps(Poly({ns: 1})), dim))
            out = out + q
        return out

    def lin(self, head, p, *extra):
        """Linear reduction other than a full mean."""
        out = Poly()
        for k, v in p.m.items():
            sc = tuple((a, e) for a, e in k if self.scalar(a))
            ns = tuple((a, e) for a, e in k if not self.scalar(a))
            out = out + Poly({sc: v}) * self.atom(head, self.ps(Poly({ns: 1})), *extra)
        return out

    def dim(self, ops, kw, pos):
        d = kw.get("dim", kw.get("axis", ops[pos] if len(ops) > pos else None))
        if d is None or d is NONE:
            return None
        return ("@" + self.s(d)) if self.dims else "@"

    def inverse(self, p):
        if len(p.m) == 1:
            (k, v), = p.m.items()
            if v:
                return Poly({tuple((a, -e) for a, e in k): 1 / v})
        return Poly.x(self._inv(p))

    def _inv(self, p):
        self.heads.add("inv")
        return f"inv({self.ps(p)})"

    def select(self, t):
        from .rules.util import select
        return select(t, self.val)

    def _form(self, t):
        if t in self.alias:
            return self.leaf(self.alias[t])
        k, a = t.k, t.a
        if k == "const":
            if isinstance(a[0], bool):
                return Poly.c(1 if a[0] else 0)
            if isinstance(a[0], int | float):
                return Poly.c(a[0])
            return self.leaf(repr(a[0]))
        if k == "param":
            return self.leaf(a[0])
        if k == "global":
            if a[0] in ("numpy.newaxis",):
                return self.leaf("None")
            return self.leaf(a[0].rsplit(".", 1)[-1])
        if k in ("bin", "ibin"):
            op, l, r = a[0], a[1], a[2]
            return self.binop(op, l, r)
        if k == "un":
            if a[0] == "-":
                return -self.form(a[1])
            if a[0] == "+":
                return self.form(a[1])
            return Poly.c(1) - self.cond(a[1])
        if k == "cmp":
            return self.cond(t)
        if k == "boolop":
            ps = [self.cond(x) for x in a[1]]
            if a[0] == "and":
                r = ps[0]
                for p in ps[1:]:
                    r = r * p
                return r
            r = Poly.c(1) - ps[0]
            for p in ps[1:]:
                r = r * (Poly.c(1) - p)
            return Poly.c(1) - r
        if k == "phi":
            sel = [x for x in self.select(t) if x.k != "undef"] or [t.a[0][0]]
            fs = {self.ps(self.form(x)): x for x in sel}
            if len(fs) == 1:
                return self.form(sel[0])
            if len(sel) == 2 and t.a[1] is not None and len(t.a[0]) == 2:
                c = self.cond(t.a[1])
                if not any(h.startswith("?") for h in self.heads):
                    x, y = self.form(t.a[0][0]), self.form(t.a[0][1])
                    return x * c + y * (Poly.c(1) - c)
            return self.unknown("merge")
        if k == "loopphi":
            vs = [v for v in (self.fl.loops.get(t, ()) if self.fl else ())]
            fs = set()
            for v in vs:
                if v is t:
                    continue
                p = self.ps(self.form(v))
                if "?loop" not in p:
                    fs.add(p)
            self.heads.discard("?loop")
            if len(fs) == 1:
                return self.form([v for v in vs if v is not t and "?loop" not in self.ps(self.form(v))][0])
            return self.unknown("carried")
        if k in ("elem", "val"):
            src = a[0]
            if is_call(src, "split") and src.a[0].k == "attr":
                return self.form(src.a[0].a[0])
            return self.atom("elem", self.s(src))
        if k == "item" or k == "sub" and a[1].k == "const" and isinstance(a[1].a[0], int) and not isinstance(a[1].a[0], bool):
            i = a[1] if isinstance(a[1], int) else a[1].a[0] if isinstance(a[1], Term) else a[1]
            b = a[0]
            if i == 0 and b.k == "call" and last(b.a[0]) in ("min", "max", "sort", "topk"):
                return self.form(b)
            if b.k in ("tuple", "list") and isinstance(i, int) and i < len(b.a[0]):
                return self.form(b.a[0][i])
            if b.k == "phi":
                sel = self.select(b)
                fs = {self.ps(self.form(Term("item", x, i))): x for x in sel}
                if len(fs) == 1:
                    return self.form(Term("item", sel[0], i))
            return self.atom("item", self.s(b), str(i))
        if k == "sub":
            return self.subscript(a[0], a[1])
        if k == "attr":
            if a[1] in TRANSPARENT_ATTR or a[1] == "values" and a[0].k == "call" and last(a[0].a[0]) in ("min", "max"):
                return self.form(a[0])
            if a[1] == "indices" and a[0].k == "call" and last(a[0].a[0]) == "max":
                x = a[0]
                return self.form(Term("call", Term("attr", x.a[0].a[0], "argmax") if x.a[0].k == "attr" else Term("global", "torch.argmax"), x.a[1], x.a[2], x.a[3]))
            if is_call(a[0], "Batch") and a[1] in dict(a[0].a[2]):
                return self.form(dict(a[0].a[2])[a[1]])
            if a[0] == Term("param", "self"):
                return self.leaf("self." + self.attr_name(a[1]))
            return self.leaf(f"{self.s(a[0])}.{a[1]}")
        if k == "list" and not a[0] and self.fl is not None:
            got = self.appended(t)
            if got:
                ps = sorted({self.s(x) for x in got})
                return self.atom("each", *ps) if len(ps) == 1 else self.unknown("list")
        if k == "comp" and a[0] in ("list", "gen") and len(a) > 1 and isinstance(a[1], Term):
            return self.atom("each", self.s(a[1]))
        if k in ("tuple", "list"):
            return self.leaf("[" + ",".join(self.s(x) for x in a[0]) + "]")
        if k == "slice":
            return self.leaf(":".join(self.s(x) if isinstance(x, Term) and x is not NONE else "" for x in a))
        if k == "call":
            return self.call(t)
        return self.unknown(k)

    def appended(self, t):
        if not hasattr(self.fl, "_appended"):
            self.fl._appended = {}
            for n in self.fl.nodes:
                if n.kind == "call" and n.d.get("name") == "append" and n.d.get("recv") is not None and n.d["args"]:
                    self.fl._appended.setdefault(n.d["recv"], []).append(n.d["args"][0])
        return self.fl._appended.get(t, ())

    def binop(self, op, l, r):
        if op == "+":
            return self.form(l) + self.form(r)
        if op == "-":
            return self.form(l) - self.form(r)
        if op in ("*", "@"):
            return self.form(l) * self.form(r)
        if op == "/":
            return self.form(l) * self.inverse(self.form(r))
        if op == "**":
            return self.power(self.form(l), self.form(r))
        if op == "%":
            return self.atom("mod", self.s(l), self.s(r))
        if op == "//":
            return self.atom("floordiv", self.s(l), self.s(r))
        if op == "&":
            return self.cond(l) * self.cond(r)
        if op == "|":
            return Poly.c(1) - (Poly.c(1) - self.cond(l)) * (Poly.c(1) - self.cond(r))
        return self.unknown(op)

    def power(self, p, e):
        if set(e.m) <= {()}:
            v = e.m.get((), 0)
            if v == int(v) and 0 < v < 5:
                r = p
                for _ in range(int(v) - 1):
                    r = r * p
                return r
            if v == 0.5:
                return self.atom("sqrt", self.ps(p))
            if v == -1:
                return self.inverse(p)
        return self.atom("pow", self.ps(p), self.ps(e))

    def subscript(self, b, i):
        parts = list(i.a[0]) if i.k == "tuple" else [i]
        full = lambda x: x.k == "slice" and all(not isinstance(y, Term) or y is NONE for y in x.a) or x is NONE or x.k == "const" and x.a[0] is Ellipsis or x.k == "global" and x.a[0] in ("Ellipsis", "numpy.newaxis")
        core = [x for x in parts if not full(x)]
        if not core:
            return self.form(b)
        if len(core) == 2 and is_call(core[0], "arange"):
            return self.atom("take", self.s(b), self.s(core[1]))
        return self.atom("sub", self.s(b), "|".join(":" if full(x) else self.s(x) for x in parts if not (x is NONE or x.k == "global")))

    def call(self, t):
        f, args, kw = t.a[0], list(t.a[1]), dict((n, v) for n, v in t.a[2] if n != "**")
        me = Term("param", "self")
        if f is me or f.k == "attr" and f.a[0] is me:
            self.heads.update(f"kw:{n}" for n, v in kw.items() if not (n in ("state", "model") and v is NONE))
        if f is me or f.k == "attr" and f.a[1] in ("forward", "__call__") and f.a[0] is me:
            return self.atom("forward", *[self.s(x) for x in args], *[f"{n}={self.s(v)}" for n, v in sorted(kw.items()) if not (n in ("state", "model") and v is NONE)])
        if f.k == "attr" and f.a[0] is me:
            if f.a[1] in self.same and args:
                return self.form(args[0])
            return self.atom("self." + f.a[1], *[self.s(x) for x in args], *[f"{n}={self.s(v)}" for n, v in sorted(kw.items())])
        nm = last(f)
        if nm == "Batch" and "obs" in kw:
            kw.pop("info", None)
        if nm in SIGS and f.k == "global":
            for n_, v_ in zip(SIGS[nm], args):
                kw.setdefault(n_, v_)
            args = args[len(SIGS[nm]):]
        if nm is None:
            return self.atom("call", self.s(f), *[self.s(x) for x in args], *[f"{n}={self.s(v)}" for n, v in sorted(kw.items())])
        if f.k == "global" and nm in ("arange", "linspace"):
            kw = {n: v for n, v in kw.items() if n not in ("dtype", "device", "requires_grad")}
            names = ("start", "end", "step") if nm == "arange" else ("start", "end", "steps")
            if "stop" in kw:
                kw["end"] = kw.pop("stop")
            if "num" in kw:
                kw["steps"] = kw.pop("num")
            if nm == "arange" and len(args) == 1:
                args = [const(0), *args]
            if nm == "arange" and not args:
                kw.setdefault("start", const(0))
            for n_, v_ in zip(names, args):
                kw[n_] = v_
            if kw.get("step") is const(1):
                del kw["step"]
            if nm == "linspace" and kw.get("start") is const(0) and kw.get("end") is not None and "steps" in kw:
                return self.form(kw["end"]) * self.atom("linspace", "end=1", f"start=0", f"steps={self.s(kw['steps'])}")
            return self.atom(nm, *[f"{n}={self.s(v)}" for n, v in sorted(kw.items())])
        if nm in ("flip", "flipud", "fliplr", "roll"):
            b = f.a[0] if f.k == "attr" else args[0] if args else None
            return self.atom("flip", self.s(b)) if b is not None else self.unknown(nm)
        if nm in ("ger", "outer"):
            ops_ = ([f.a[0]] if f.k == "attr" else []) + args
            if len(ops_) == 2:
                return self.atom("outer", *[self.s(x) for x in ops_])
        lib = f.k == "global" and f.a[0].startswith(("torch", "numpy", "math", "tianshou")) or f.k == "global" and "." not in f.a[0] or f.k == "attr"
        ops = ([f.a[0]] if f.k == "attr" else []) + args
        if lib and nm in self.same and ops:
            return self.form(ops[0])
        if nm in VIEWS and ops:
            if nm == "cast" and len(ops) == 2:
                return self.form(ops[1])
            if nm == "copy" and f.k == "global":
                return self.form(ops[0])
            return self.form(ops[0])
        if nm in BIN and len(ops) == 2 and not (kw and "alpha" in kw):
            return self.binop(BIN[nm], ops[0], ops[1])
        if nm in ("square",):
            p = self.form(ops[0])
            return p * p
        if nm in ("neg", "negative"):
            return -self.form(ops[0])
        if nm in ("pow", "power") and len(ops) == 2:
            return self.power(self.form(ops[0]), self.form(ops[1]))
        if nm == "reciprocal":
            return self.inverse(self.form(ops[0]))
        if nm in ("logical_not",):
            return Poly.c(1) - self.cond(ops[0])
        if nm in ("logical_and",) and len(ops) == 2:
            return self.cond(ops[0]) * self.cond(ops[1])
        if nm in ("lt", "le", "gt", "ge", "less", "greater", "less_equal", "greater_equal", "eq", "ne") and len(ops) == 2:
            op = {"lt": "<", "less": "<", "le": "<=", "less_equal": "<=", "gt": ">", "greater": ">", "ge": ">=", "greater_equal": ">=", "eq": "==", "ne": "!="}[nm]
            return self.cond(Term("cmp", op, ops[0], ops[1]))
        if nm == "where" and len(ops) == 3:
            # method form: x.where(cond, y)
            if f.k == "attr" and not (ops[0].k in ("cmp",)):
                ops = [ops[1], ops[0], ops[2]]
            c = self.cond(ops[0])
            return self.form(ops[1]) * c + self.form(ops[2]) * (Poly.c(1) - c)
        if nm == "mean":
            return self.mean(self.form(ops[0]), self.dim(ops, kw, 1))
        if nm == "sum" and not (ops and ops[0].k == "comp"):
            d = self.dim(ops, kw, 1)
            return self.lin("sum", self.form(ops[0]), *([d] if d else []))
        if nm in ("min", "max", "minimum", "maximum", "fmin", "fmax", "amax", "amin"):
            big = "max" in nm
            if len(ops) == 2 and "dim" not in kw and nm not in ("amax", "amin") and not (ops[1].k == "const" and f.k == "attr" or ops[1].k == "const" and nm in ("min", "max") and f.k == "global" and f.a[0].startswith("torch")):
                ps = [self.form(x) for x in ops]
                return -self.minimum([-p for p in ps]) if big else self.minimum(ps)
            d = self.dim(ops, kw, 1)
            p = self.form(ops[0])
            if big:
                return -self.atom("amin", self.ps(-p), *([d] if d else []))
            return self.atom("amin", self.ps(p), *([d] if d else []))
        if nm in ("clamp", "clip", "clamp_", "clip_"):
            lo = kw.get("min", kw.get("a_min", ops[1] if len(ops) > 1 else NONE))
            hi = kw.get("max", kw.get("a_max", ops[2] if len(ops) > 2 else NONE))
            p = self.form(ops[0])
            if hi is NONE and lo is not NONE:
                return -self.minimum([-p, -self.form(lo)])
            if lo is NONE and hi is not NONE:
                return self.minimum([p, self.form(hi)])
            return self.atom("clamp", self.ps(p), self.s(lo), self.s(hi))
        if nm in ("abs", "absolute", "fabs"):
            return self.even("abs", self.form(ops[0]))
        if nm in UNARY and ops:
            extra = [self.dim(ops, kw, 1)] if nm in ("softmax", "log_softmax") else []
            return self.atom(nm, self.s(ops[0]), *[x for x in extra if x])
        if nm in ("smooth_l1_loss", "huber_loss", "mse_loss", "l1_loss") and len(ops) == 2:
            d = self.form(ops[0]) - self.form(ops[1])
            p = d * d if nm == "mse_loss" else self.even("abs", d) if nm == "l1_loss" else self.even("huber", d)
            red = kw.get("reduction", const("mean"))
            return p if red is const("none") else self.mean(p) if red is const("mean") else self.lin("sum", p)
        if nm in ("nll_loss", "cross_entropy") and len(ops) == 2:
            x = self.s(ops[0])
            if nm == "cross_entropy":
                self.heads.add("log_softmax")
                x = f"log_softmax({x},{'@-1' if self.dims else '@'})"
            p = -self.atom("take", x, self.s(ops[1]))
            red = kw.get("reduction", const("mean"))
            return p if red is const("none") else self.mean(p) if red is const("mean") else self.lin("sum", p)
        if nm in REDUCE:
            if not ops:
                return self.unknown(nm)
            if nm in ("std", "var") and f.k == "attr":
                pass
            d = self.dim(ops, kw, 1)
            return self.atom(nm, self.s(ops[0]), *([d] if d else []))
        if nm == "gather" and len(ops) == 3:
            return self.atom("take", self.s(ops[0]), self.s(ops[2]))
        if nm in ("cat", "concatenate", "stack", "hstack", "vstack") and ops and ops[0].k in ("list", "comp") and self.s(ops[0]).startswith("each("):
            return self.form(ops[0])
        if nm in ("cat", "concatenate", "stack", "hstack", "vstack") and ops and ops[0].k in ("list", "tuple"):
            return self.atom("cat", *[self.s(x) for x in ops[0].a[0]])
        if nm in ("log_prob",) and len(ops) == 2:
            return self.atom("log_prob", self.s(ops[0]), self.s(ops[1]))
        if nm in ("pop", "get", "getattr") and len(ops) >= 2 and ops[1].k == "const" and isinstance(ops[1].a[0], str):
            return self.form(Term("attr", ops[0], ops[1].a[0]))
        if nm in ("repeat", "repeat_interleave", "tile"):
            return self.atom("repeat", self.s(ops[0]))
        if nm == "size" and f.k == "attr" and not args and not kw:
            return self.atom("shape", self.s(f.a[0]))
        if nm == "len" or nm == "size" and f.k == "attr" and args and args[0] is const(0):
            return self.atom("len", self.s(ops[0]))
        if nm in ("zeros_like", "ones_like"):
            return Poly.c(0 if nm[0] == "z" else 1)
        if nm in ("dot", "inner") and len(ops) == 2:
            return self.atom("dot", *sorted(self.s(x) for x in ops))
        if nm == "item" and len(ops) == 1:
            return self.form(ops[0])
        if f.k == "attr":
            b = self.s(f.a[0])
            self.heads.add("." + nm)
            return Poly.x(f"{b}.{nm}({','.join([self.s(x) for x in args] + [f'{n}={self.s(v)}' for n, v in sorted(kw.items())])})")
        return self.atom(nm, *[self.s(x) for x in args], *[f"{n}={self.s(v)}" for n, v in sorted(kw.items())])


# ---------------------------------------------------------------- formulas written as text
FUNCS = {"mean": "torch.mean", "sum": "torch.sum", "min": "torch.min", "max": "torch.max", "clamp": "torch.clamp", "exp": "torch.exp", "log": "torch.log", "where": "torch.where", "abs": "torch.abs",
         "mse": "torch.nn.functional.mse_loss", "huber": "torch.nn.functional.smooth_l1_loss", "logsumexp": "torch.logsumexp", "sqrt": "torch.sqrt", "cat": "torch.cat", "gather": "torch.gather",
         "nll": "torch.nn.functional.nll_loss", "log_softmax": "torch.nn.functional.log_softmax", "std": "torch.std", "zeros_like": "torch.zeros_like", "logsigmoid": "torch.nn.functional.logsigmoid", "repeat": "numpy.tile", "tanh": "torch.tanh", "argmax": "torch.argmax", "each": "each"}
SIGS = {"Normal": ("loc", "scale"), "Independent": ("base_distribution", "reinterpreted_batch_ndims"), "Categorical": ("probs", "logits"), "Batch": ("batch_dict",)}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%", ast.FloorDiv: "//"}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


def parse(text, env=None, given=None):
    """Terms of a formula text: assignments `name = expr`, names resolved in order; `x if flag else y` is decided by given[flag]."""
    env = dict(env or {})
    given = given or {}
    n = itertools.count(10 ** 7)

    def decide(x):
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            return not decide(x.operand)
        if isinstance(x, ast.Compare):
            return given[ast.unparse(x)]
        return given[ast.unparse(x).removeprefix("self.")]

    def ev(x):
        if isinstance(x, ast.Constant):
            return const(x.value)
        if isinstance(x, ast.Name):
            return env[x.id] if x.id in env else Term("global" if x.id == "len" or x.id[0].isupper() and not x.id.isupper() else "param", x.id)
        if isinstance(x, ast.Attribute):
            return Term("attr", ev(x.value), x.attr)
        if isinstance(x, ast.BinOp):
            return Term("bin", OPS[type(x.op)], ev(x.left), ev(x.right))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant):
            return const(-x.operand.value)
        if isinstance(x, ast.UnaryOp):
            return Term("un", "-" if isinstance(x.op, ast.USub) else "not", ev(x.operand))
        if isinstance(x, ast.Compare):
            return Term("cmp", CMPS[type(x.ops[0])], ev(x.left), ev(x.comparators[0]))
        if isinstance(x, ast.IfExp):
            return ev(x.body) if decide(x.test) else ev(x.orelse)
        if isinstance(x, ast.Tuple):
            return Term("tuple", tuple(ev(y) for y in x.elts))
        if isinstance(x, ast.List):
            return Term("list", tuple(ev(y) for y in x.elts))
        if isinstance(x, ast.Slice):
            return Term("slice", *[ev(y) if y is not None else NONE for y in (x.lower, x.upper, x.step)])
        if isinstance(x, ast.Subscript):
            return Term("sub", ev(x.value), ev(x.slice))
        if isinstance(x, ast.Call):
            kw = tuple((k.arg, ev(k.value)) for k in x.keywords)
            if isinstance(x.func, ast.Name) and x.func.id == "take":
                b, i = (ev(y) for y in x.args)
                return Term("sub", b, Term("tuple", (Term("call", Term("global", "numpy.arange"), (), (), next(n)), i)))
            fn = Term("global", FUNCS[x.func.id]) if isinstance(x.func, ast.Name) and x.func.id in FUNCS and x.func.id not in env else Term("global", x.func.id) if isinstance(x.func, ast.Name) and x.func.id not in env else ev(x.func)
            return Term("call", fn, tuple(ev(y) for y in x.args), kw, next(n))
        raise ValueError(ast.unparse(x))

    for s in ast.parse(text).body:
        if isinstance(s, ast.Assign):
            v = ev(s.value)
            tg = s.targets[0]
            if isinstance(tg, ast.Tuple):
                for i, y in enumerate(tg.elts):
                    env[y.id] = Term("item", v, i)
            else:
                env[tg.id] = v
    return env


def strip_dims(s):
    return s


def unknowns(cn):
    return {h for h in cn.heads if h.startswith("?")}
