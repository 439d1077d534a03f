"""Which caller-visible objects may a value share storage with, and which events write into them?"""
from __future__ import annotations

from .flow import Term, const, dotted, show
from .query import nodes

VIEW_METHODS = {"reshape", "view", "squeeze", "unsqueeze", "transpose", "swapaxes", "ravel", "permute", "expand", "T", "detach", "numpy", "cpu", "get", "pop", "values", "items"}
VIEW_FUNCS = {"numpy.asarray", "numpy.asanyarray", "torch.as_tensor", "torch.from_numpy", "numpy.squeeze", "numpy.reshape", "numpy.ravel",
              "numpy.atleast_1d", "numpy.atleast_2d", "numpy.transpose", "torch.squeeze", "torch.unsqueeze", "numpy.expand_dims", "typing.cast", "numpy.broadcast_to",
              "tianshou.data.utils.converter.to_torch_as_", "zip", "enumerate", "reversed", "iter"}
SHALLOW_FUNCS = {"copy.copy", "dict", "list", "tuple", "set", "tianshou.data.batch.Batch", "sorted", "collections.OrderedDict"}
INPLACE = {"fill", "sort", "put", "itemset", "partition", "resize", "append", "extend", "insert", "remove", "clear", "reverse", "popitem", "update", "setdefault",
           "pop", "to_numpy_", "to_torch_", "cat_", "stack_", "empty_", "set_array_at_key", "replace_empty_batches_by_none", "__setitem__", "__setattr__", "__delitem__", "__iadd__", "__imul__", "__isub__", "__itruediv__"}
NP_INPLACE = {"numpy.copyto": 0, "numpy.put": 0, "numpy.fill_diagonal": 0, "numpy.random.shuffle": 0, "random.shuffle": 0, "numpy.place": 0, "numpy.putmask": 0}


class Alias:
    def __init__(self, flow, roots, key_subs=True, deep_copies=()):
        """roots: set of terms standing for caller-visible objects."""
        self.f = flow
        self.roots = set(roots)
        self._i, self._s = {}, {}
        self.deep = set(deep_copies)

    def ident(self, t):
        """Roots that contain (or are) the object t evaluates to: writing into t writes into them."""
        if t in self._i:
            return self._i[t]
        self._i[t] = frozenset()
        r = frozenset(self._ident(t))
        self._i[t] = r
        return r

    def members(self, t):
        return self.ident(t) | self.shallow(t)

    def _ident(self, t):
        if t in self.roots:
            return {t}
        k, a = t.k, t.a
        if k == "attr":
            if a[1] in ("shape", "dtype", "ndim", "size", "device"):
                return ()
            return self.members(a[0])
        if k == "sub":
            i = a[1]
            if i.k == "const" and isinstance(i.a[0], str):
                return self.members(a[0])
            if i.k in ("key",) or (i.k == "elem" and (i.a[0].k == "call")):
                return self.members(a[0])
            if i.k == "slice" or (i.k == "tuple" and i.a[0] and all(x.k == "slice" or x is const(None) or (x.k == "const" and isinstance(x.a[0], int)) or x == Term("global", "Ellipsis") for x in i.a[0])):
                return self.members(a[0])
            ty = self.f.typeof(a[0])
            if ty and ty[0] in ("list", "dict"):
                return self.members(a[0])
            return ()
        if k in ("elem", "val", "enter"):
            return self.members(a[0])
        if k == "item":
            return self.members(a[0])
        if k == "phi":
            return set().union(*(self.ident(x) for x in a[0]))
        if k == "loopphi":
            return set().union(*(self.ident(x) for x in self.f.loops.get(t, ()))) if self.f.loops.get(t) else ()
        if k == "boolop":
            return set().union(*(self.ident(x) for x in a[1]))
        if k == "ibin":
            return self.ident(a[1])
        if k == "call":
            fn = a[0]
            if fn.k == "global":
                if fn.a[0] in VIEW_FUNCS and a[1]:
                    return self.ident(a[1][-1] if fn.a[0] == "typing.cast" else a[1][0])
                if fn.a[0] == "getattr" and a[1]:
                    return self.members(a[1][0])
            if fn.k == "attr" and fn.a[1] in VIEW_METHODS:
                if fn.a[1] in ("get", "pop", "values", "items"):
                    return self.members(fn.a[0])
                return self.ident(fn.a[0])
        return ()

    def shallow(self, t):
        """Roots whose members are members of the (fresh) container t."""
        if t in self._s:
            return self._s[t]
        self._s[t] = frozenset()
        r = set()
        k, a = t.k, t.a
        if k == "call":
            fn = a[0]
            kw = dict(a[2])
            if fn.k == "global" and fn.a[0] in SHALLOW_FUNCS:
                if not (fn.a[0].endswith(".Batch") and kw.get("copy") is const(True)):
                    for x in list(a[1]) + [v for n, v in a[2] if n != "copy"]:
                        r |= self.members(x)
        if k in ("list", "tuple", "set"):
            for x in a[0]:
                r |= self.ident(x)
        if k == "dict":
            for _, x in a[0]:
                r |= self.ident(x)
        if k == "comp":
            x = a[1]
            if x.k == "tuple" and a[0] == "dict":
                x = x.a[0][1]
            r |= self.ident(x)
        if k == "phi":
            for x in a[0]:
                r |= self.shallow(x)
        if k == "loopphi":
            for x in self.f.loops.get(t, ()):
                r |= self.shallow(x)
        for m in self.f.amut.get(t, ()):
            if m.k not in ("const",):
                r |= self.ident(m)
        # object.__dict__ fills
        dd = Term("attr", t, "__dict__")
        for m in self.f.amut.get(dd, ()):
            r |= self.ident(m)
        if k == "attr" and a[1] == "__dict__":
            r |= self.shallow(a[0])
        self._s[t] = frozenset(r)
        return self._s[t]

    # -- write events
    def writes(self, node):
        """(term written into, roots hit, description) for one event node."""
        out = []
        d = node.d
        if node.kind == "setattr":
            r = self.ident(d["base"])
            if r:
                out.append((d["base"], r, f"{show(d['base'])}.{d['attr']} is assigned"))
            if d["aug"]:
                old = Term("attr", d["base"], d["attr"])
                r2 = (self.members(d["base"]) | (self.ident(old) if old in self.roots else frozenset())) - r
                if r2:
                    out.append((old, r2, f"{show(old)} is updated in place ({d['op']}=)"))
            if d["base"].k == "attr" and d["base"].a[1] == "__dict__":
                pass
        elif node.kind == "setsub":
            b = d["base"]
            if b.k == "attr" and b.a[1] == "__dict__":
                r = self.ident(b.a[0])
                if r:
                    out.append((b.a[0], r, f"{show(b)}[{show(d['index'])}] is assigned"))
            else:
                r = self.ident(b)
                if r:
                    out.append((b, r, f"{show(b)}[{show(d['index'])}] is written"))
        elif node.kind in ("delattr", "delsub"):
            b = d["base"]
            if b.k == "attr" and b.a[1] == "__dict__":
                b = b.a[0]
            r = self.ident(b)
            if r:
                out.append((b, r, f"an entry of {show(b)} is deleted"))
        elif node.kind == "aug":
            t = d["target"]
            r = self.ident(t)
            if r and not self.scalar(t):
                out.append((t, r, f"{show(t)} is updated in place ({d['op']}=)"))
        elif node.kind == "call":
            nm = d["name"]
            if d["recv"] is not None and not d["inlined"] and (nm in INPLACE or (nm.endswith("_") and not nm.endswith("__") and not nm.startswith("_") and nm not in ("requires_grad_",))):
                rec = d["recv"]
                if rec.k == "attr" and rec.a[1] == "__dict__":
                    rec = rec.a[0]
                r = self.ident(rec)
                if r:
                    out.append((rec, r, f"{show(rec)}.{nm}(...) modifies it in place"))
            q = dotted(d["fn"]) if d["fn"].k == "global" else None
            if q in NP_INPLACE and d["args"]:
                r = self.ident(d["args"][0])
                if r:
                    out.append((d["args"][0], r, f"{q} modifies {show(d['args'][0])}"))
            if "out" in d["kw"]:
                r = self.ident(d["kw"]["out"])
                if r:
                    out.append((d["kw"]["out"], r, f"out= writes {show(d['kw']['out'])}"))
        return out

    def scalar(self, t):
        ty = self.f.typeof(t)
        if ty and ty[0] == "inst" and ty[1] in ("int", "float", "str", "bool", "bytes", "tuple"):
            return True
        if t.k == "param" and ty is None:
            return True
        if t.k == "phi":
            return all(self.scalar(x) for x in t.a[0])
        if t.k == "loopphi":
            v = self.f.loops.get(t)
            return bool(v) and all(x.k == "const" or (x is not t and self.scalar(x)) for x in v[:1])
        return t.k == "const"

    def mutations(self, pred=None):
        out = []
        for n in nodes(self.f):
            for t, r, msg in self.writes(n):
                if pred is None or pred(n, t, r):
                    out.append((n, t, r, msg))
        return out
