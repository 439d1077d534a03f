"""Program model of /repo/tianshou: modules, classes (MRO), functions, imports, static types.

Nothing is imported or executed; everything is read from the source text with `ast`.
"""
from __future__ import annotations

import ast
import hashlib
import os
from dataclasses import dataclass, field

from . import names

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "tianshou"


class AnalysisBroken(Exception):
    """An anchor the rules rely on vanished: error exit, never a silent pass."""


@dataclass(eq=False)
class Func:
    qual: str
    name: str
    node: ast.AST
    module: "Module"
    cls: "Cls | None" = None
    decos: tuple = ()
    outer: "Func | None" = None

    @property
    def is_static(self):
        return "staticmethod" in self.decos

    @property
    def is_class(self):
        return "classmethod" in self.decos

    @property
    def is_property(self):
        return any(d in ("property", "functools.cached_property", "abc.abstractproperty") for d in self.decos)

    @property
    def is_ctxmgr(self):
        return any(d in ("contextlib.contextmanager", "contextmanager") for d in self.decos)

    @property
    def is_abstract(self):
        return any(d.endswith("abstractmethod") for d in self.decos)

    @property
    def is_gen(self):
        return any(isinstance(n, ast.Yield | ast.YieldFrom) for n in walk_own(self.node))

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        r = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            r.append(a.vararg.arg)
        r += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            r.append(a.kwarg.arg)
        return r

    def annotation(self, p):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == p:
                return x.annotation
        return None

    def __repr__(self):
        return f"<Func {self.qual}>"


def walk_own(fn):
    """Walk a function body without descending into nested functions/classes/lambdas."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, ast.FunctionDef | ast.AsyncFunctionDef | ast.Lambda | ast.ClassDef):
            continue
        stack.extend(ast.iter_child_nodes(n))


@dataclass(eq=False)
class Cls:
    qual: str
    name: str
    node: ast.ClassDef
    module: "Module"
    bases: list = field(default_factory=list)  # resolved qualified names
    methods: dict = field(default_factory=dict)
    setters: dict = field(default_factory=dict)
    attrs: dict = field(default_factory=dict)  # name -> (value|None, annotation|None)
    decos: tuple = ()
    prog: "Program" = None
    _mro: list = None

    def mro(self):
        if self._mro is None:
            self._mro = self.prog._c3(self)
        return self._mro

    def mro_classes(self):
        return [c for c in self.mro() if isinstance(c, Cls)]

    def find(self, name, after: "Cls | None" = None):
        m = self.mro_classes()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro_classes():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_sub(self, qual):
        return any((c.qual if isinstance(c, Cls) else c) == qual for c in self.mro())

    @property
    def is_dataclass(self):
        return any("dataclass" in d for d in self.decos)

    def fields(self):
        """Dataclass fields in MRO (base-first) order."""
        out = {}
        for c in reversed(self.mro_classes()):
            if c.is_dataclass:
                for n, (v, a) in c.attrs.items():
                    if a is not None:
                        out[n] = (v, a, c)
        return out

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<Cls {self.qual}>"


@dataclass(eq=False)
class Module:
    name: str
    path: str
    rel: str
    tree: ast.Module
    is_pkg: bool
    syms: dict = field(default_factory=dict)  # name -> Func|Cls|('import',qual)|('var',node)
    star: list = field(default_factory=list)


class Program:
    def __init__(self, repo=None, sources=None):
        self.repo = repo or REPO
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Cls] = {}
        self.funcs: dict[str, Func] = {}
        self.digest = hashlib.sha256()
        for rel, p, src in (self._files() if sources is None else [(r, r, s) for r, s in sources.items()]):
            name = rel[:-3].replace(os.sep, ".")
            is_pkg = name.endswith(".__init__")
            if is_pkg:
                name = name[: -len(".__init__")]
            self.digest.update(rel.encode() + b"\0" + src.encode())
            try:
                tree = ast.parse(src, p)
            except SyntaxError as e:
                raise AnalysisBroken(f"{rel} does not parse: {e}") from e
            self.modules[name] = Module(name, p, rel, tree, is_pkg)
        self.renamed = names.undo({m.name: m.tree for m in self.modules.values()}) if sources is None else {}
        for m in self.modules.values():
            self._collect(m)
        for c in self.classes.values():
            c.bases = [b for b in (self._base_name(c.module, x) for x in c.node.bases) if b]
        self._subs = {}
        for c in self.classes.values():
            for b in c.mro_classes()[1:]:
                self._subs.setdefault(b.qual, []).append(c)

    def _files(self):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} is missing")
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    yield os.path.relpath(p, self.repo), p, open(p, encoding="utf-8").read()

    # ---- collection
    def _collect(self, m: Module):
        def visit(stmts):
            for s in stmts:
                if isinstance(s, ast.ClassDef):
                    self._collect_class(m, s)
                elif isinstance(s, ast.FunctionDef | ast.AsyncFunctionDef):
                    f = Func(f"{m.name}.{s.name}", s.name, s, m, decos=tuple(self._deco(m, d) for d in s.decorator_list))
                    if "overload" in " ".join(f.decos):
                        continue
                    m.syms[s.name] = f
                    self.funcs[f.qual] = f
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        m.syms[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    base = self._from_base(m, s)
                    for a in s.names:
                        if a.name == "*":
                            m.star.append(base)
                        else:
                            m.syms[a.asname or a.name] = ("import", f"{base}.{a.name}")
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.syms[t.id] = ("var", s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.syms[s.target.id] = ("var", s.value)
                elif isinstance(s, ast.If):
                    visit(s.body)
                    visit(s.orelse)
                elif isinstance(s, ast.Try):
                    visit(s.body)
                    for h in s.handlers:
                        visit(h.body)
        visit(m.tree.body)

    def _from_base(self, m, s):
        if s.level == 0:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    def _deco(self, m, d):
        n = d.func if isinstance(d, ast.Call) else d
        q = self.dotted(m, n)
        return q or "?"

    def _collect_class(self, m, s, outer=None):
        qual = f"{m.name}.{s.name}" if outer is None else f"{outer.qual}.{s.name}"
        c = Cls(qual, s.name, s, m, prog=self)
        c.decos = tuple(self._deco(m, d) for d in s.decorator_list)
        if outer is None:
            m.syms[s.name] = c
        self.classes[qual] = c
        for b in s.body:
            if isinstance(b, ast.FunctionDef | ast.AsyncFunctionDef):
                decos = tuple(self._deco(m, d) for d in b.decorator_list)
                if any(d.endswith("overload") for d in decos):
                    continue
                f = Func(f"{qual}.{b.name}", b.name, b, m, c, decos)
                raw = [d for d in b.decorator_list if isinstance(d, ast.Attribute) and d.attr == "setter"]
                if raw:
                    c.setters[b.name] = f
                    continue
                c.methods[b.name] = f
                self.funcs[f.qual] = f
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                c.attrs[b.target.id] = (b.value, b.annotation)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = (b.value, None)
                        if isinstance(b.value, ast.Name) and b.value.id in c.methods:
                            c.methods[t.id] = c.methods[b.value.id]
            elif isinstance(b, ast.ClassDef):
                self._collect_class(m, b, c)

    # ---- resolution
    def dotted(self, m: Module, n):
        if isinstance(n, ast.Name):
            return self.resolve(m, n.id)
        if isinstance(n, ast.Attribute):
            b = self.dotted(m, n.value)
            return self.canon(f"{b}.{n.attr}") if b else None
        return None

    def _base_name(self, m, n):
        if isinstance(n, ast.Subscript):
            n = n.value
        return self.dotted(m, n)

    def resolve(self, m: Module, name: str):
        """Name in module scope -> canonical qualified name."""
        s = m.syms.get(name)
        if s is None:
            for b in m.star:
                bm = self.modules.get(b)
                if bm and name in bm.syms:
                    return self.canon(f"{b}.{name}")
            sub = f"{m.name}.{name}"
            if sub in self.modules:
                return sub
            return name  # builtin or unknown
        if isinstance(s, Func | Cls):
            return s.qual
        if s[0] == "import":
            return self.canon(s[1])
        return f"{m.name}.{name}"

    def canon(self, q: str, depth=0):
        """Follow re-exports: tianshou.data.Batch -> tianshou.data.batch.Batch."""
        if q in self.classes or q in self.funcs or q in self.modules or depth > 6:
            return q
        if "." not in q or not q.startswith(PKG):
            if q == "np" or q.startswith("np."):
                return "numpy" + q[2:]
            return q
        head, tail = q.rsplit(".", 1)
        ch = self.canon(head, depth + 1)
        mod = self.modules.get(ch)
        if mod is not None:
            s = mod.syms.get(tail)
            if isinstance(s, Func | Cls):
                return s.qual
            if s and s[0] == "import":
                return self.canon(s[1], depth + 1)
            for b in mod.star:
                bm = self.modules.get(b)
                if bm and tail in bm.syms:
                    return self.canon(f"{b}.{tail}", depth + 1)
        return f"{ch}.{tail}"

    def _c3(self, c: Cls):
        seqs = []
        for b in c.bases:
            bc = self.classes.get(b)
            seqs.append(list(bc.mro()) if bc else [b])
        seqs.append([self.classes.get(b, b) for b in c.bases])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in t if x is not h and x != h] for t in seqs]
            seqs = [t for t in seqs if t]
        return out

    def subclasses(self, qual, strict=False):
        r = list(self._subs.get(qual, []))
        if not strict and qual in self.classes:
            r.insert(0, self.classes[qual])
        return r

    def cls(self, name):
        """Class by qualified name or by unique simple name."""
        if name in self.classes:
            return self.classes[name]
        c = [x for x in self.classes.values() if x.name == name]
        if len(c) == 1:
            return c[0]
        if not c:
            raise AnalysisBroken(f"class {name} not found in the package")
        raise AnalysisBroken(f"class name {name} is ambiguous: {[x.qual for x in c]}")

    def has_cls(self, name):
        try:
            self.cls(name)
            return True
        except AnalysisBroken:
            return False

    def method(self, cls, name):
        c = self.cls(cls) if isinstance(cls, str) else cls
        f = c.find(name)
        if f is None:
            raise AnalysisBroken(f"method {c.name}.{name} not found")
        return f

    def func(self, qual):
        if qual in self.funcs:
            return self.funcs[qual]
        c = [f for q, f in self.funcs.items() if q.endswith("." + qual)]
        if len(c) == 1:
            return c[0]
        raise AnalysisBroken(f"function {qual} not found (or ambiguous)")

    # ---- static types:  ('inst', qual) | ('list', T) | ('dict', T) | ('cls', qual) | None
    def ann_type(self, m: Module, a, tvars=None):
        if a is None:
            return None
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                try:
                    return self.ann_type(m, ast.parse(a.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            ts = []
            stack = [a]
            while stack:
                x = stack.pop()
                if isinstance(x, ast.BinOp):
                    stack += [x.left, x.right]
                    continue
                if isinstance(x, ast.Constant) and x.value is None:
                    continue
                ts.append(self.ann_type(m, x))
            if len(set(map(repr, ts))) == 1:
                return ts[0]
            if len(ts) > 1:
                return ("union", tuple(ts))
            return None
        if isinstance(a, ast.Subscript):
            b = self.dotted(m, a.value)
            sl = a.slice
            el = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
            if b in ("list", "List", "typing.List", "Sequence", "collections.abc.Sequence", "typing.Sequence", "set", "Iterable", "collections.abc.Iterable"):
                return ("list", self.ann_type(m, el[0]))
            if b in ("tuple",):
                return ("list", None) if len(el) != 2 or not (isinstance(el[1], ast.Constant) and el[1].value is Ellipsis) else ("list", self.ann_type(m, el[0]))
            if b in ("dict", "Dict", "typing.Dict", "Mapping", "collections.abc.Mapping"):
                return ("dict", self.ann_type(m, el[1]) if len(el) == 2 else None)
            if b in ("typing.Optional", "Optional"):
                return self.ann_type(m, el[0])
            if b in ("type", "typing.Type"):
                t = self.ann_type(m, el[0])
                return ("cls", t[1]) if t and t[0] == "inst" else None
            if b in ("typing.Literal", "Callable", "collections.abc.Callable", "typing.Callable"):
                return None
            return self.ann_type(m, a.value)
        if isinstance(a, ast.Name | ast.Attribute):
            q = self.dotted(m, a)
            if q in self.classes:
                return ("inst", q)
            if q and "." in q:
                h, t = q.rsplit(".", 1)
                mod = self.modules.get(h)
                s = mod.syms.get(t) if mod else None
                if isinstance(s, tuple) and s[0] == "var" and isinstance(s[1], ast.Call):
                    fn = self.dotted(mod, s[1].func)
                    if fn and fn.endswith("TypeVar"):
                        for k in s[1].keywords:
                            if k.arg == "bound":
                                return self.ann_type(mod, k.value)
                        return None
                if isinstance(s, tuple) and s[0] == "var" and s[1] is not None:
                    return self.ann_type(mod, s[1])
                return ("inst", q)
            if q in ("int", "float", "str", "bool", "dict", "list", "bytes", "set", "tuple"):
                return ("inst", q)
            return None
        return None
