"""Interprocedural (inlining) control-flow graph + value terms, by abstract interpretation of the AST.

A `Flow` is built for one entry function in the context of one concrete class (dynamic dispatch on
`self` by the MRO of that class).  Helper methods, module functions, closures, properties and
generator-based context managers are inlined up to a stated bound, local variables are replaced by
the values they hold (so renames, temporaries and helper extraction do not show), and what is left is
a graph of events: calls, attribute/element writes, branches, loops, returns, raises, context
enter/exit.  No code of the repository is executed and no solver is consulted.
"""
from __future__ import annotations

import ast
from collections import defaultdict

from .program import PKG, AnalysisBroken, Cls, Func, Program, walk_own


class Term:
    __slots__ = ("k", "a", "n", "_h")
    _tab: dict = {}

    def __new__(cls, k, *a):
        key = (k, a, tuple(type(x) for x in a) if k == "const" else None)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.k, t.a, t.n = k, a, len(cls._tab)
            t._h = hash(key)
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def const(v):
    return Term("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = Term("undef")

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
UOPS = {ast.USub: "-", ast.UAdd: "+", ast.Not: "not", ast.Invert: "~"}
COPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if d > 7:
        return "…"
    s = lambda x: show(x, d + 1)
    k, a = t.k, t.a
    if k == "const":
        return repr(a[0])
    if k in ("param", "global"):
        return a[0]
    if k == "attr":
        return f"{s(a[0])}.{a[1]}"
    if k == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if k == "slice":
        return ":".join("" if x is NONE else s(x) for x in a[:2]) or ":"
    if k == "call":
        args = [s(x) for x in a[1]] + [f"{n}={s(v)}" for n, v in a[2]]
        return f"{s(a[0])}({', '.join(args)})"
    if k in ("bin", "ibin"):
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k == "un":
        return f"({a[0]} {s(a[1])})"
    if k == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k == "boolop":
        return "(" + f" {a[0]} ".join(s(x) for x in a[1]) + ")"
    if k == "phi":
        return "φ(" + ", ".join(s(x) for x in a[0]) + ")"
    if k == "loopphi":
        return f"μ{a[0]}.{a[1]}"
    if k == "elem":
        return f"each({s(a[0])})"
    if k == "idx":
        return f"index({s(a[0])})"
    if k in ("tuple", "list", "set"):
        return f"{k[0]}({', '.join(s(x) for x in a[0])})"
    if k == "dict":
        return "{" + ", ".join(f"{s(x)}: {s(y)}" for x, y in a[0]) + "}"
    if k == "item":
        return f"{s(a[0])}#{a[1]}"
    if k == "comp":
        return f"{a[0]}-comp({s(a[1])})"
    if k == "star":
        return "*" + s(a[0])
    if k == "super":
        return "super()"
    if k == "closure":
        return f"<fn {a[1]}>"
    return f"<{k}>"


class Node:
    __slots__ = ("id", "kind", "d", "line", "file", "fn", "stack", "ctx", "succ", "pred", "exc")

    def __init__(self, i, kind, d, line, file, fn, stack, ctx):
        self.id, self.kind, self.d, self.line, self.file, self.fn = i, kind, d, line, file, fn
        self.stack, self.ctx = stack, ctx
        self.succ, self.pred = [], []
        self.exc = None

    @property
    def where(self):
        return f"{self.file}:{self.line}"

    def __getattr__(self, n):
        if n == "d":
            raise AttributeError(n)
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n) from None

    def get(self, n, default=None):
        return self.d.get(n, default)

    def __repr__(self):
        x = ""
        if self.kind == "call":
            x = show(self.d["term"])
        elif self.kind == "setattr":
            x = f"{show(self.d['base'])}.{self.d['attr']} {'op' if self.d['aug'] else ''}= {show(self.d['value'])}"
        elif self.kind == "setsub":
            x = f"{show(self.d['base'])}[{show(self.d['index'])}] {'op' if self.d['aug'] else ''}= {show(self.d['value'])}"
        elif self.kind in ("branch",):
            x = show(self.d["cond"])
        elif self.kind in ("return", "raise", "yield"):
            x = show(self.d["value"])
        elif self.kind in ("iter",):
            x = show(self.d["it"])
        elif self.kind in ("with_enter", "with_exit"):
            x = show(self.d["cm"])
        elif self.kind == "aug":
            x = f"{show(self.d['target'])} {self.d['op']}= {show(self.d['value'])}"
        return f"<{self.id} {self.kind} {x} @{self.where}>"


def common(paths):
    """Longest common beginning."""
    out = paths[0]
    for p in paths[1:]:
        n = 0
        while n < len(out) and n < len(p) and out[n] == p[n]:
            n += 1
        out = out[:n]
    return out


def boolean(t):
    """A conditional choice between truth values as a formula."""
    if t.k == "phi" and t.a[1] is not None and len(t.a[0]) == 2:
        c, (a, b) = t.a[1], (boolean(x) for x in t.a[0])
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return Term("un", "not", c)
        if a is TRUE:
            return Term("boolop", "or", (c, b))
        if b is FALSE:
            return Term("boolop", "and", (c, a))
        if a is FALSE:
            return Term("boolop", "and", (Term("un", "not", c), b))
        if b is TRUE:
            return Term("boolop", "or", (Term("un", "not", c), a))
    return t


class State:
    __slots__ = ("env", "heap", "preds", "facts", "path")

    def __init__(self, env, heap, preds, facts, path=()):
        self.env, self.heap, self.preds, self.facts, self.path = env, heap, preds, facts, path

    @property
    def dead(self):
        return not self.preds

    def fork(self, preds=None):
        return State(dict(self.env), dict(self.heap), list(self.preds if preds is None else preds), dict(self.facts), self.path)

    def become(self, o):
        self.env, self.heap, self.preds, self.facts, self.path = o.env, o.heap, o.preds, o.facts, o.path

    def kill(self):
        self.preds = []


class Frame:
    def __init__(self, func, cls, self_term, closure_env, exact):
        self.func = func
        self.defcls = func.cls if func else None
        self.cls = cls
        self.self_term = self_term
        self.closure_env = closure_env
        self.exact = exact
        self.returns = []
        self.yield_hook = None
        self.suspended = None
        self.module = func.module


REMOVERS = {"pop", "remove", "clear", "reverse", "sort", "popleft", "popitem", "discard", "rotate"}
MUTATORS = {"append", "extend", "insert", "add", "update", "appendleft", "setdefault", "push"}

# functions whose single argument is passed through unchanged as far as *values* go
IDENT_CALLS = {"typing.cast"}


class FlowLimit(Exception):
    pass


class Builder:
    MAXNODES = 60000

    def __init__(self, prog: Program, entry: Func, cls: Cls | None = None, *, opaque=(), inline_quals=(), inline=None,
                 max_depth=11, assume=None, args=None, inline_props=True, inline_ctor=()):
        self.p = prog
        self.entry = entry
        self.cls = cls
        self.opaque = set(opaque)
        self.inline_quals = set(inline_quals)
        self.inline_ctor = set(inline_ctor)
        self.custom_inline = inline
        self.max_depth = max_depth
        self.assume = assume
        self.inline_props = inline_props
        self.nodes = []
        self.stack = []  # inlined function quals
        self.ctx = []
        self.unwind = []
        self.exc_stack = []
        self.frames = []
        self.closures = {}
        self.mut = defaultdict(list)
        self.touched = set()
        self.amut = defaultdict(list)  # stores that make the container share the stored object
        self.loops = {}
        self.types = {}
        self.frames_types = {}
        self.uid = 0
        self._args = args or {}
        self.split_at = self.split_outs = None
        self._run()

    # ---------------------------------------------------------------- basics
    def fresh(self):
        self.uid += 1
        return self.uid

    def new(self, kind, st, at=None, **d):
        if len(self.nodes) > self.MAXNODES:
            raise FlowLimit(f"flow of {self.entry.qual} exceeds {self.MAXNODES} nodes")
        fr = self.frames[-1] if self.frames else None
        n = Node(len(self.nodes), kind, d, getattr(at, "lineno", 0) or (fr.func.node.lineno if fr else 0),
                 fr.module.rel if fr else "", fr.func.qual if fr else "", tuple(self.stack), tuple(self.ctx))
        self.nodes.append(n)
        for q, l in st.preds:
            q.succ.append((n, l))
            n.pred.append((q, l))
        st.preds = [(n, "")]
        if self.exc_stack and kind in ("call", "setattr", "setsub", "iter", "yield", "aug", "delattr", "delsub"):
            self.exc_stack[-1]["nodes"].append((n, "exc"))
        elif kind in ("call", "setattr", "setsub", "iter", "yield", "aug", "delattr", "delsub"):
            n.succ.append((self.raise_exit, "exc"))
            self.raise_exit.pred.append((n, "exc"))
        return n

    def join(self, states, cond=None):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            return State({}, {}, [], {})
        if len(states) == 1:
            return states[0].fork()
        env = {}
        for v in dict.fromkeys(k for s in states for k in s.env):
            vals = [s.env.get(v, UNDEF) for s in states]
            env[v] = self.phi(vals, cond)
        heap = {}
        for k in dict.fromkeys(k for s in states for k in s.heap):
            vals = [s.heap.get(k, Term("attr", *k)) for s in states]
            heap[k] = self.phi(vals, cond)
        facts = {k: v for k, v in states[0].facts.items() if all(s.facts.get(k) == v for s in states[1:])}
        return State(env, heap, [p for s in states for p in s.preds], facts, common([s.path for s in states]))

    def gated(self, outs, k):
        """The value of several returns [(path, value)], each under the condition that leads to it."""
        if len(outs) == 1:
            return outs[0][1]
        k = len(common([p for p, _ in outs]))
        if all(len(p) > k for p, _ in outs):
            c = outs[0][0][k][0]
            if c is not None and all(p[k][0] is c for p, _ in outs):
                t, f = ([o for o in outs if o[0][k][1] is b] for b in (True, False))
                if t and f:
                    return self.phi([self.gated(t, k + 1), self.gated(f, k + 1)], c)
        return self.phi([v for _, v in outs])

    def phi(self, vals, cond=None):
        u = list(dict.fromkeys(vals))
        if len(u) == 1:
            return u[0]
        if cond is not None and len(vals) == 2:
            return Term("phi", tuple(vals), cond)
        flat = []
        for x in u:
            if x.k == "phi" and x.a[1] is None:
                flat += x.a[0]
            else:
                flat.append(x)
        u = list(dict.fromkeys(flat))
        return u[0] if len(u) == 1 else Term("phi", tuple(u), None)

    # ---------------------------------------------------------------- entry
    def _run(self):
        f = self.entry
        self_term = None
        st = State({}, {}, [], {})
        fr = Frame(f, self.cls, None, None, True)
        self.frames.append(fr)
        self.entry_node = self.new("entry", st, f.node)
        self.raise_exit = Node(-2, "raise_exit", {}, f.node.lineno, f.module.rel, f.qual, (), ())
        for i, p in enumerate(f.all_params()):
            if f.cls is not None and i == 0 and not f.is_static:
                if f.is_class:
                    t = Term("global", (self.cls or f.cls).qual)
                else:
                    t = Term("param", p)
                    self.types[t] = ("inst", (self.cls or f.cls).qual)
                    self.exact_self = t
                fr.self_term = self_term = t
            else:
                t = self._args.get(p) or Term("param", p)
                ty = self.p.ann_type(f.module, f.annotation(p))
                if ty and t.k == "param":
                    self.types[t] = ty
            st.env[p] = t
        self.self_term = self_term
        if f.outer is not None:
            fr.closure_env = {}
            o = f.outer
            while o is not None:  # parameters of the enclosing functions
                for i, p in enumerate(o.all_params()):
                    if p in fr.closure_env:
                        continue
                    t = fr.closure_env[p] = Term("param", p)
                    if o.cls is not None and i == 0 and not o.is_static and not o.is_class:
                        self.types.setdefault(t, ("inst", (self.cls or o.cls).qual))
                        if self_term is None:
                            self.exact_self = fr.self_term = self.self_term = self_term = t
                    else:
                        ty = self.p.ann_type(o.module, o.annotation(p))
                        if ty:
                            self.types.setdefault(t, ty)
                self.outer_locals(o, f, fr, st)
                o = o.outer
        self.stack.append(f.qual)
        ctxn = self._push_deco_ctx(f, st)
        self.exec_block(f.node.body if isinstance(f.node.body, list) else [ast.Return(f.node.body, lineno=f.node.lineno)], st)
        if not st.dead:
            n = self.new("return", st, f.node, value=NONE, implicit=True)
            fr.returns.append((st.fork(), NONE))
        rets = fr.returns
        end = self.join([s for s, _ in rets])
        for _ in range(ctxn):
            self.ctx.pop()
        self.exit_node = self.new("exit", end, f.node)
        self.end_heap = end.heap
        self.ret_value = self.phi([v for _, v in rets]) if rets else None
        self.raise_exit.id = len(self.nodes)
        self.nodes.append(self.raise_exit)

    def outer_locals(self, o, f, fr, st):
        """Functions and plain aliases an enclosing function defines exactly once."""
        body = getattr(o.node, "body", None)
        if not isinstance(body, list):
            return
        bound, todo = {}, list(body)
        while todo:
            x = todo.pop()
            if isinstance(x, ast.FunctionDef | ast.AsyncFunctionDef | ast.ClassDef):
                bound.setdefault(x.name, []).append(x)
                continue
            if isinstance(x, ast.Lambda):
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store | ast.Del):
                bound.setdefault(x.id, []).append(None)
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Name):
                bound.setdefault(x.targets[0].id, []).append(x)
                continue
            todo += ast.iter_child_nodes(x)
        for name, ds in bound.items():
            if len(ds) != 1 or name in fr.closure_env or name in o.all_params():
                continue
            d = ds[0]
            if isinstance(d, ast.FunctionDef) and d is not f.node:
                g = Func(f"{o.qual}.<{name}>", name, d, fr.module, None, tuple(self.p._deco(fr.module, x) for x in d.decorator_list), outer=o)
                t = Term("closure", self.fresh(), g.qual)
                self.closures[t] = (g, {}, fr.closure_env, fr)
                fr.closure_env[name] = t
            elif isinstance(d, ast.Assign) and d.value.id in fr.closure_env:
                fr.closure_env[name] = fr.closure_env[d.value.id]

    def _push_deco_ctx(self, f, st):
        n = 0
        for d in f.decos:
            if d in ("torch.no_grad", "torch.inference_mode", "torch.enable_grad"):
                self.ctx.append(d)
                n += 1
        return n

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        skip = None
        for i, s in enumerate(stmts):
            if st.dead:
                return
            if s is skip:
                continue
            if i + 1 < len(stmts) and self.is_flag_of(s, stmts[i + 1]):  # x = a and b(); if x: ... is decided like if a and b(): ...
                skip = stmts[i + 1]
                self.x_If(skip, st, (s.targets[0].id, s.value))
                continue
            if i + 1 < len(stmts) and self.sets_flag(s, stmts[i + 1]):  # if a: if b: x = True; if x: ... decides in the first statement
                skip = stmts[i + 1]
                ts, fs, name, e = [], [], None, skip.test
                neg = False
                while isinstance(e, ast.UnaryOp):
                    e, neg = e.operand, not neg
                name = e.id
                p0 = st.path
                ends = [s_ for s_ in self.parts([s], st) if not s_.dead]
                c = boolean(self.gated([(s_.path, s_.env.get(name, UNDEF)) for s_ in ends], 0)) if ends else None
                for s_ in ends:
                    a, b = self.branch(s_.env.get(name, UNDEF), s_, skip)
                    ts.append(a)
                    fs.append(b)
                t, f = self.join(ts), self.join(fs)
                if c is not None and (c.k in ("phi", "const", "undef") or c is UNDEF):
                    c = None
                if neg:
                    t, f, c = f, t, Term("un", "not", c) if c is not None else None
                t.path, f.path = ((*p0, (c, True)), (*p0, (c, False))) if c is not None else (p0, p0)
                self.exec_block(skip.body, t)
                self.exec_block(skip.orelse, f)
                st.become(self.join([t, f], c))
                continue
            self.exec(s, st)

    def sets_flag(self, s, n):
        if not isinstance(s, ast.If) or not isinstance(n, ast.If):
            return False
        t = n.test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
        if not isinstance(t, ast.Name):
            return False
        sets = [x for x in ast.walk(s) if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == t.id for y in x.targets)]
        return bool(sets) and all(isinstance(x.value, ast.Constant) and isinstance(x.value.value, bool) for x in sets) and \
            sum(isinstance(x, ast.Name) and x.id == t.id and not isinstance(x.ctx, ast.Load) for x in ast.walk(s)) == len(sets) and sum(isinstance(x, ast.If) for x in ast.walk(s)) <= 6

    def parts(self, stmts, st):
        """The states in which a block of nested ifs ends, kept apart."""
        self.exec_block(stmts[:-1], st)
        if st.dead or not stmts:
            return [st]
        s = stmts[-1]
        if not isinstance(s, ast.If):
            self.exec(s, st)
            return [st]
        t, f = self.cond(s.test, st)
        c = self.last_cond
        if c is not None:
            t.path, f.path = (*t.path, (c, True)), (*f.path, (c, False))
        return self.parts(s.body, t) + (self.parts(s.orelse, f) if s.orelse else [f])

    def is_flag_of(self, s, n):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(n, ast.If)):
            return False
        v, t = s.value, n.test
        while isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            v = v.operand
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
        return isinstance(v, ast.BoolOp) and isinstance(t, ast.Name) and t.id == s.targets[0].id and any(isinstance(x, ast.Call) for x in ast.walk(v))

    def exec(self, s, st):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is not None:
            m(s, st)

    def x_Expr(self, s, st):
        self.ev(s.value, st)

    def x_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            st.env[nm] = Term("global", self.p.canon(a.name if a.asname else a.name.split(".")[0]))

    def x_ImportFrom(self, s, st):
        base = self.p._from_base(self.frames[-1].module, s)
        for a in s.names:
            st.env[a.asname or a.name] = Term("global", self.p.canon(f"{base}.{a.name}"))

    def x_FunctionDef(self, s, st):
        st.env[s.name] = self.make_closure(s, s.name, st)

    x_AsyncFunctionDef = x_FunctionDef

    def make_closure(self, node, name, st):
        fr = self.frames[-1]
        i = self.fresh()
        f = Func(f"{fr.func.qual}.<{name}>", name, node, fr.module, None,
                 tuple(self.p._deco(fr.module, d) for d in getattr(node, "decorator_list", [])), outer=fr.func)
        t = Term("closure", i, f.qual)
        env = dict(fr.closure_env or {})
        self.closures[t] = (f, st.env, env, fr)
        return t

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            ty = self.p.ann_type(self.frames[-1].module, s.annotation)
            if ty and v.k not in ("const",) and v not in self.types and self.typeof(v) is None:
                self.types[v] = ty
            self.assign(s.target, v, st)

    def assign(self, t, v, st):
        if st.dead:
            return
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(b, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            i = self.ev(t.slice, st)
            self.setsub(b, i, v, st, t)
        elif isinstance(t, ast.Tuple | ast.List):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, Term("item", v, "*"), st)
                elif star and i > star[0]:
                    self.assign(e, self.item(v, i - len(t.elts), st), st)
                else:
                    self.assign(e, self.item(v, i, st), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def item(self, v, i, st=None):
        if v.k in ("tuple", "list") and -len(v.a[0]) <= i < len(v.a[0]) and not any(x.k == "star" for x in v.a[0]):
            return v.a[0][i]
        if v.k == "phi":
            return self.phi([self.item(x, i) for x in v.a[0]], v.a[1])
        if v.k == "elem":
            it = v.a[0]
            if it.k == "call" and it.a[0] == Term("global", "enumerate") and it.a[1]:
                if i == 0:
                    return Term("idx", it.a[1][0], v.a[1])
                if i == 1:
                    return self.elem(it.a[1][0], v.a[1])
            if it.k == "call" and it.a[0] == Term("global", "zip") and 0 <= i < len(it.a[1]):
                x = it.a[1][i]
                if x.k != "star":
                    return self.elem(x, v.a[1])
            if it.k == "call" and it.a[0].k == "attr" and it.a[0].a[1] == "items" and not it.a[1]:
                return Term("key", it.a[0].a[0], v.a[1]) if i == 0 else Term("val", it.a[0].a[0], v.a[1])
        return Term("item", v, i)

    def elem(self, it, lid):
        if it.k == "call" and it.a[0].k == "attr" and not it.a[1]:
            if it.a[0].a[1] == "values":
                return Term("val", it.a[0].a[0], lid)
            if it.a[0].a[1] == "keys":
                return Term("key", it.a[0].a[0], lid)
        if it.k == "call" and it.a[0] == Term("global", "list") and len(it.a[1]) == 1:
            return self.elem(it.a[1][0], lid)
        return Term("elem", it, lid)

    def setattr(self, b, name, v, st, at, aug=False, op=None, rhs=None):
        self.new("setattr", st, at, base=b, attr=name, value=v, aug=aug, op=op, rhs=rhs if rhs is not None else v)
        if b.k == "phi":
            for x in b.a[0]:
                st.heap.pop((x, name), None)
        st.heap[(b, name)] = v
        # deeper chains rooted here are stale
        for k in [k for k in st.heap if k[0].k == "attr" and k[0].a[0] is b and k[0].a[1] == name]:
            del st.heap[k]

    def setsub(self, b, i, v, st, at, aug=False, op=None, rhs=None):
        self.new("setsub", st, at, base=b, index=i, value=v, aug=aug, op=op, rhs=rhs if rhs is not None else v)
        self.mut[b].append(v)
        ty = self.typeof(b)
        if (i.k == "const" and isinstance(i.a[0], str)) or i.k == "key" or b.k in ("list", "dict") or (ty and ty[0] in ("list", "dict")) or (
                b.k == "attr" and b.a[1] == "__dict__"):
            self.amut[b].append(v)
        if i.k != "const":
            self.mut[b].append(i)

    def x_AugAssign(self, s, st):
        op = OPS.get(type(s.op), "?")
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(t.id, ast.Load(), lineno=s.lineno, col_offset=0), st)
            v = self.ev(s.value, st)
            self.new("aug", st, s, target=old, op=op, value=v)
            st.env[t.id] = self.mkbin(op, old, v, "ibin")
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            old = self.getattr(b, t.attr, st, s)
            v = self.ev(s.value, st)
            self.setattr(b, t.attr, self.mkbin(op, old, v, "ibin"), st, s, True, op, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            i = self.ev(t.slice, st)
            old = self.getsub(b, i, st)
            v = self.ev(s.value, st)
            self.setsub(b, i, self.mkbin(op, old, v, "ibin"), st, s, True, op, v)

    def mkbin(self, op, l, r, k="bin"):
        if l.k == "const" and r.k == "const":
            try:
                a, b = l.a[0], r.a[0]
                if isinstance(a, int | float) and isinstance(b, int | float):
                    return const({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]())
                if isinstance(a, str) and isinstance(b, str) and op == "+":
                    return const(a + b)
            except (KeyError, ZeroDivisionError):
                pass
        if op == "+" and l.k == r.k and l.k == "tuple":
            return Term("tuple", l.a[0] + r.a[0])
        return Term(k, op, l, r)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.new("delattr", st, t, base=b, attr=t.attr)
                st.heap.pop((b, t.attr), None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                i = self.ev(t.slice, st)
                self.new("delsub", st, t, base=b, index=i)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.dead:
            return
        fr = self.frames[-1]
        self.new("return", st, s, value=v, implicit=False)
        self.run_unwind(st, ("frame", fr))
        if not st.dead:
            if self.yield_barrier(fr):
                self.yield_barrier(fr).append(("return", st.fork(), v))
            else:
                fr.returns.append((st.fork(), v))
        st.kill()

    def yield_barrier(self, fr):
        return None

    def run_unwind(self, st, until):
        """Run finally bodies / with-exits between here and `until` (exclusive)."""
        saved = list(self.unwind)
        sx = list(self.exc_stack)
        i = len(self.unwind) - 1
        while i >= 0:
            e = self.unwind[i]
            if e[0] == until[0] and e[1] is until[1]:
                break
            self.unwind = saved[:i]
            if e[0] == "finally":
                _, body, fr, exc_depth, ctx_depth = e
                self.exc_stack = sx[:exc_depth]
                c = self.ctx
                self.ctx = self.ctx[:ctx_depth]
                if fr is not self.frames[-1] and fr.suspended is not None:
                    # the body of a context manager that is waiting at its yield
                    mine, st.env = st.env, dict(fr.suspended)
                    self.frames.append(fr)
                    self.exec_block(body, st)
                    self.frames.pop()
                    st.env = mine
                else:
                    self.exec_block(body, st)
                self.ctx = c
            elif e[0] == "with":
                _, cm, at, exc_depth = e
                self.exc_stack = sx[:exc_depth]
                self.new("with_exit", st, at, cm=cm)
            if st.dead:
                break
            i -= 1
        self.unwind = saved
        self.exc_stack = sx

    def x_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else NONE
        if st.dead:
            return
        n = self.new("raise", st, s, value=v)
        self.throw(st)

    def throw(self, st, label="raise"):
        if self.exc_stack:
            self.exc_stack[-1]["nodes"] += [(n, label) for n, _ in st.preds]
            self.exc_stack[-1]["raised"] = True
            self.exc_stack[-1]["states"].append((st.fork(), self.frames[-1]))
        else:
            for n, _ in st.preds:
                n.succ.append((self.raise_exit, label))
                self.raise_exit.pred.append((n, label))
        st.kill()

    def x_Assert(self, s, st):
        t, f = self.cond(s.test, st)
        if not f.dead:
            n = self.new("raise", f, s, value=Term("global", "AssertionError"))
            self.throw(f)
        st.become(t)

    def x_If(self, s, st, flag=None):
        if flag is not None:
            t, f = self.cond(flag[1], st)
            c = self.last_cond
            t.env[flag[0]] = TRUE if c is None else c
            f.env[flag[0]] = FALSE if c is None else c
            e = s.test
            while isinstance(e, ast.UnaryOp):
                t, f, e = f, t, e.operand
                c = Term("un", "not", c) if c is not None else None
        else:
            t, f = self.cond(s.test, st)
            c = self.last_cond
        if c is not None:
            t.path, f.path = (*t.path, (c, True)), (*f.path, (c, False))
        self.exec_block(s.body, t)
        self.exec_block(s.orelse, f)
        st.become(self.join([t, f], c))

    def x_Match(self, s, st):
        subj = self.ev(s.subject, st)
        outs = []
        cur = st.fork()
        for case in s.cases:
            if cur.dead:
                break
            pc = self.pat_cond(case.pattern, subj, cur) if case.guard is None else None
            t, cur = self.match_pat(case.pattern, subj, cur)
            if case.guard is not None and not t.dead:
                t, g = self.cond(case.guard, t)
                cur = self.join([cur, g])
            self.exec_block(case.body, t)
            outs.append((t, pc))
        for t, pc in reversed(outs):
            cur = self.join([t, cur], pc)
        st.become(cur)

    def pat_cond(self, pat, subj, st):
        if isinstance(pat, ast.MatchValue):
            return Term("cmp", "==", subj, self.ev(pat.value, st.fork()))
        if isinstance(pat, ast.MatchSingleton):
            return Term("cmp", "is", subj, const(pat.value))
        return None

    def match_pat(self, pat, subj, st):
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is None:
                if pat.name:
                    st.env[pat.name] = subj
                return st, State({}, {}, [], {})
            t, f = self.match_pat(pat.pattern, subj, st)
            if pat.name:
                t.env[pat.name] = subj
            return t, f
        if isinstance(pat, ast.MatchValue):
            v = self.ev(pat.value, st)
            return self.branch(Term("cmp", "==", subj, v), st, pat)
        if isinstance(pat, ast.MatchSingleton):
            return self.branch(Term("cmp", "is", subj, const(pat.value)), st, pat)
        if isinstance(pat, ast.MatchClass):
            c = self.ev(pat.cls, st)
            return self.branch(Term("call", Term("global", "isinstance"), (subj, c), (), 0), st, pat)
        if isinstance(pat, ast.MatchOr):
            ts = []
            for p in pat.patterns:
                t, st = self.match_pat(p, subj, st)
                ts.append(t)
            return self.join(ts), st
        return self.branch(Term("unknown", self.fresh()), st, pat)

    # loops
    def assigned(self, body):
        out = set()
        for b in body:
            stack = [b]
            while stack:
                n = stack.pop()
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store | ast.Del):
                    out.add(n.id)
                elif isinstance(n, ast.NamedExpr):
                    out.add(n.target.id)
                elif isinstance(n, ast.FunctionDef):
                    out.add(n.name)
                    continue
                elif isinstance(n, ast.Lambda | ast.ListComp | ast.SetComp | ast.DictComp | ast.GeneratorExp):
                    for c in ast.iter_child_nodes(n):
                        for w in ast.walk(c):
                            if isinstance(w, ast.NamedExpr):
                                out.add(w.target.id)
                    continue
                stack.extend(ast.iter_child_nodes(n))
        return out

    def loop_head(self, st, kind, at, names, **d):
        lid = self.fresh()
        n = self.new(kind, st, at, lid=lid, **d)
        n.d["fwd"] = {(q.id, l) for q, l in n.pred}
        init = {}
        for v in sorted(names):
            if v in st.env:
                init[v] = st.env[v]
                lp = Term("loopphi", lid, v)
                self.loops[lp] = [st.env[v]]
                ty = self.typeof(st.env[v])
                if ty:
                    self.types[lp] = ty
                st.env[v] = lp
        st.heap.clear()
        return n, lid

    def loop_back(self, n, lid, states):
        for s in states:
            if s.dead:
                continue
            for q, l in s.preds:
                q.succ.append((n, l or "back"))
                n.pred.append((q, l or "back"))
            for v, x in s.env.items():
                lp = Term("loopphi", lid, v)
                if lp in self.loops and x is not lp and x not in self.loops[lp]:
                    self.loops[lp].append(x)

    def fixed(self, b):
        """A literal container that nothing met so far (or later in a loop around this point) changes."""
        return not self.mut.get(b) and b not in self.touched

    def touch(self, body, st):
        """Literal containers that a loop body changes are not constants inside the loop."""
        for s in body:
            for x in ast.walk(s):
                t = None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS | REMOVERS:
                    t = x.func.value
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store | ast.Del):
                    t = x.value
                elif isinstance(x, ast.AugAssign):
                    t = x.target
                if isinstance(t, ast.Name):
                    v = st.env.get(t.id)
                    if v is not None and v.k in ("list", "dict", "set"):
                        self.touched.add(v)

    def x_While(self, s, st):
        self.touch(s.body, st)
        n, lid = self.loop_head(st, "loop", s, self.assigned(s.body + [ast.Expr(s.test)]))
        lp = {"break": [], "continue": []}
        self.unwind.append(("loop", lp))
        t, f = self.cond(s.test, st)
        self.exec_block(s.body, t)
        self.unwind.pop()
        self.loop_back(n, lid, [t] + lp["continue"])
        if s.orelse and not f.dead:
            self.exec_block(s.orelse, f)
        st.become(self.join([f] + lp["break"]))

    def literal_items(self, it):
        if it.k in ("tuple", "list") and 0 < len(it.a[0]) <= 6 and not any(x.k == "star" for x in it.a[0]):
            if it.k == "list" and not self.fixed(it):
                return None
            return list(it.a[0])
        if it.k == "call" and it.a[0] == Term("global", "zip") and it.a[1]:
            ls = [self.literal_items(x) for x in it.a[1]]
            if all(ls):
                return [Term("tuple", tuple(x)) for x in zip(*ls, strict=False)]
        if it.k == "call" and it.a[0] == Term("global", "enumerate") and len(it.a[1]) == 1 and not it.a[2]:
            l = self.literal_items(it.a[1][0])
            if l:
                return [Term("tuple", (const(i), x)) for i, x in enumerate(l)]
        if it.k == "call" and it.a[0].k == "attr" and it.a[0].a[1] == "items" and not it.a[1]:
            d = it.a[0].a[0]
            if d.k == "dict" and 0 < len(d.a[0]) <= 6 and self.fixed(d) and all(k is not None for k, _ in d.a[0]):
                return [Term("tuple", (k, v)) for k, v in d.a[0]]
        return None

    def x_For(self, s, st):
        it = self.ev(s.iter, st)
        if st.dead:
            return
        lits = self.literal_items(it)
        if lits and not s.orelse:
            lp = {"break": [], "continue": []}
            for x in lits:
                if st.dead:
                    break
                lp["continue"] = []
                self.unwind.append(("loop", lp))
                self.assign(s.target, x, st)
                self.exec_block(s.body, st)
                self.unwind.pop()
                st.become(self.join([st] + lp["continue"]))
            st.become(self.join([st] + lp["break"]))
            return
        self.touch(s.body, st)
        n, lid = self.loop_head(st, "iter", s, self.assigned(s.body) | self.assigned([ast.Assign([s.target], ast.Constant(0), lineno=0)]), it=it)
        lp = {"break": [], "continue": []}
        body = st.fork([(n, "next")])
        done = st.fork([(n, "done")])
        self.unwind.append(("loop", lp))
        el = self.elem(it, lid)
        self.assign(s.target, el, body)
        self.exec_block(s.body, body)
        self.unwind.pop()
        self.loop_back(n, lid, [body] + lp["continue"])
        if s.orelse:
            self.exec_block(s.orelse, done)
        # the loop target keeps its last value
        st.become(self.join([done] + lp["break"]))

    x_AsyncFor = x_For

    def _loopexit(self, which, st):
        for e in reversed(self.unwind):
            if e[0] == "loop":
                self.run_unwind(st, e)
                e[1][which].append(st.fork())
                break
            if e[0] == "frame":
                break
        st.kill()

    def x_Break(self, s, st):
        self._loopexit("break", st)

    def x_Continue(self, s, st):
        self._loopexit("continue", st)

    # try / with
    def x_Try(self, s, st):
        start = st.fork()
        tgt = {"nodes": [], "raised": False, "states": []}
        fin = bool(s.finalbody)
        depth = len(self.exc_stack)
        if fin:
            self.unwind.append(("finally", s.finalbody, self.frames[-1], depth, len(self.ctx)))
        self.exc_stack.append(tgt)
        self.exec_block(s.body, st)
        self.exc_stack.pop()
        outs = []
        if not st.dead and s.orelse:
            self.exec_block(s.orelse, st)
        outs.append(st.fork())
        exc_state = None
        tgt2 = {"nodes": [], "raised": False, "states": []}
        if tgt["nodes"]:
            own = [x for x, fr in tgt["states"] if fr is self.frames[-1]]
            es = self.join([x for x in [start, st] + own if not x.dead] or [start])
            if st.dead:
                for x in s.body:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            es.env[y.id] = self.phi([es.env.get(y.id, UNDEF), UNDEF])
            es.preds = list(tgt["nodes"])
            es.heap = {}
            es.facts = {}
            self.new("exc", es, s)
            catch_all = False
            if fin:
                self.exc_stack.append(tgt2)
            cur = es
            for h in s.handlers:
                ty = None
                if h.type is None:
                    catch_all = True
                else:
                    ty = self.dotted_ast(h.type)
                    if ty in ("Exception", "BaseException"):
                        catch_all = True
                hs = es.fork()
                for q, _ in hs.preds:
                    pass
                hs.preds = [(q, "except") for q, _ in es.preds]
                if h.name:
                    hs.env[h.name] = Term("unknown", self.fresh())
                self.new("handler", hs, h, type=ty)
                self.exec_block(h.body, hs)
                outs.append(hs)
            if fin:
                self.exc_stack.pop()
            if not catch_all:
                exc_state = es.fork()
                exc_state.preds = [(q, "uncaught") for q, _ in es.preds]
        if fin:
            self.unwind.pop()
        if fin and tgt2["nodes"]:
            e2 = (exc_state or start).fork()
            e2.preds = (exc_state.preds if exc_state else []) + tgt2["nodes"]
            exc_state = e2
        if exc_state is not None:
            if fin:
                self.exec_block(s.finalbody, exc_state)
            if not exc_state.dead:
                if fin:
                    self.new("exc", exc_state, s)
                self.throw(exc_state, "reraise")
        o = self.join(outs)
        if fin and not o.dead:
            self.exec_block(s.finalbody, o)
        st.become(o)

    x_TryStar = x_Try

    def dotted_ast(self, n):
        return self.p.dotted(self.frames[-1].module, n)

    def x_With(self, s, st):
        self._with(s.items, s.body, st, s)

    x_AsyncWith = x_With

    def _with(self, items, body, st, at):
        if not items:
            self.exec_block(body, st)
            return
        it = items[0]
        # generator-based context manager of the repository: inline it around the body
        if isinstance(it.context_expr, ast.Call):
            fterm = self.ev(it.context_expr.func, st)
            args, kw = self.ev_args(it.context_expr, st)
            tg = self.resolve_call(fterm, st)
            cm = Term("call", fterm, args, kw, self.fresh())
            if tg and tg["func"] is not None and tg["func"].is_ctxmgr and self.stack.count(tg["func"].qual) == 0:
                n = self.new("with_enter", st, at, cm=cm, name=tg["func"].name, qual=tg["func"].qual)
                fr = self.frames[-1]
                caller_env = st.env

                def hook(s2, v, fr=fr):
                    cenv = s2.env
                    s2.env = holder["env"]
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, s2)
                    self.frames.append(fr)
                    self.ctx.append(tg["func"].qual)
                    self._with(items[1:], body, s2, at)
                    self.ctx.pop()
                    self.frames.pop()
                    holder["env"] = s2.env
                    s2.env = cenv
                holder = {"env": caller_env}
                self.inline_call(tg, args, kw, st, at, hook=hook, holder=holder)
                if not st.dead:
                    self.new("with_exit", st, at, cm=cm, name=tg["func"].name, qual=tg["func"].qual)
                return
        else:
            cm = self.ev(it.context_expr, st)
        nm = dotted(cm.a[0]) if cm.k == "call" else dotted(cm)
        self.new("with_enter", st, at, cm=cm, name=(nm or "?").rsplit(".", 1)[-1], qual=nm)
        if it.optional_vars is not None:
            ty = self.typeof(cm)
            v = Term("enter", cm)
            if ty:
                self.types[v] = ty
            self.assign(it.optional_vars, v, st)
        self.ctx.append(nm or "?")
        self.unwind.append(("with", cm, at, len(self.exc_stack)))
        self._with(items[1:], body, st, at)
        self.unwind.pop()
        self.ctx.pop()
        if not st.dead:
            self.new("with_exit", st, at, cm=cm, name=(nm or "?").rsplit(".", 1)[-1], qual=nm)

    # ---------------------------------------------------------------- conditions
    def cond(self, e, st):
        self.last_cond = None
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                falses = []
                cur = st
                conds = []
                for v in e.values:
                    if cur.dead:
                        break
                    cur, f = self.cond(v, cur)
                    conds.append(self.last_cond)
                    falses.append(f)
                fj = self.join(falses)
                self.last_cond = Term("boolop", "and", tuple(conds)) if all(c is not None for c in conds) else None
                return cur, fj
            trues = []
            cur = st
            conds = []
            for v in e.values:
                if cur.dead:
                    break
                t, cur = self.cond(v, cur)
                conds.append(self.last_cond)
                trues.append(t)
            tj = self.join(trues)
            self.last_cond = Term("boolop", "or", tuple(conds)) if all(c is not None for c in conds) else None
            return tj, cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st)
            if self.last_cond is not None:
                self.last_cond = Term("un", "not", self.last_cond)
            return f, t
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # a < b < c
            left = self.ev(e.left, st)
            falses, cur, conds = [], st, []
            for op, r in zip(e.ops, e.comparators, strict=True):
                if cur.dead:
                    break
                rt = self.ev(r, cur)
                c = Term("cmp", COPS[type(op)], left, rt)
                conds.append(c)
                cur, f = self.branch(c, cur, e)
                falses.append(f)
                left = rt
            self.last_cond = Term("boolop", "and", tuple(conds))
            return cur, self.join(falses)
        self.split_at, self.split_outs = (e, None) if isinstance(e, ast.Call) else (None, None)
        t = self.ev(e, st)
        outs = self.split_outs if self.split_at is e and isinstance(e, ast.Call) else None
        self.split_at = self.split_outs = None
        if st.dead:
            self.last_cond = None
            return st, st.fork()
        if outs:  # a predicate of this package with several returns: each return decides on its own
            ts, fs = [], []
            for s_, v in outs:
                if s_.dead:
                    continue
                a, b = self.branch(v, s_, e)
                ts.append(a)
                fs.append(b)
            tj, fj = self.join(ts), self.join(fs)
            self.last_cond = boolean(t)
            return tj, fj
        r = self.branch(t, st, e)
        self.last_cond = t
        return r

    def branch(self, t, st, at):
        b, pol = canon_cond(t)
        v = self.const_cond(b, st)
        if v is not None:
            v = v == pol
            dead = State({}, {}, [], {})
            return (st, dead) if v else (dead, st)
        if b.k == "boolop":
            # branch on a stored conjunction/disjunction: split into its parts
            parts = b.a[1]
            if b.a[0] == "and":
                cur, falses = st, []
                for x in parts:
                    if cur.dead:
                        break
                    cur, f = self.branch(x, cur, at)
                    falses.append(f)
                tt, ff = cur, self.join(falses)
            else:
                cur, trues = st, []
                for x in parts:
                    if cur.dead:
                        break
                    t2, cur = self.branch(x, cur, at)
                    trues.append(t2)
                tt, ff = self.join(trues), cur
            return (tt, ff) if pol else (ff, tt)
        n = self.new("branch", st, at, cond=b)
        T = st.fork([(n, "T")])
        F = st.fork([(n, "F")])
        if self.stable(b):
            T.facts[b] = True
            F.facts[b] = False
        return (T, F) if pol else (F, T)

    def const_cond(self, b, st):
        if self.assume is not None:
            r = self.assume(b)
            if r is not None:
                return r
        if b in st.facts:
            return st.facts[b]
        if b.k == "const":
            return bool(b.a[0])
        if b.k in ("tuple", "list", "set", "dict") and self.fixed(b):
            return bool(b.a[0]) if b.k != "list" else (True if b.a[0] else None)
        if b.k == "cmp":
            op, l, r = b.a
            if op == "is":
                if l is r and l.k in ("const",):
                    return True
                for x, y in ((l, r), (r, l)):
                    if y is NONE:
                        if x.k in ("tuple", "list", "dict", "set", "comp", "closure", "bin", "boolop_", "fstr") or (x.k == "const" and x.a[0] is not None):
                            return False
                        if x.k == "call" and x.a[0].k == "global" and x.a[0].a[0] in self.p.classes:
                            return False
                if l.k == r.k == "const":
                    return l.a[0] is r.a[0]
            if op == "==" and l.k == r.k == "const":
                return l.a[0] == r.a[0]
            if op in ("<", "<=", ">", ">=") and l.k == r.k == "const":
                try:
                    x, y = l.a[0], r.a[0]
                    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
                except TypeError:
                    return None
            if op == "in" and l.k == "const" and r.k in ("tuple", "list", "set") and self.fixed(r) and all(x.k == "const" for x in r.a[0]):
                return l.a[0] in [x.a[0] for x in r.a[0]]
        if b.k == "call" and b.a[0] == Term("global", "isinstance") and len(b.a[1]) == 2:
            x, c = b.a[1]
            if x.k == "const" and x.a[0] is None and c.k == "global":
                return False
            if x.k == "param" and x is getattr(self, "exact_self", None) and c.k == "global" and self.cls is not None and c.a[0] in self.p.classes:
                return self.cls.is_sub(c.a[0])
        return None

    _stable_attrs = {}

    def stable(self, b):
        """May the truth of this condition change between two evaluations on one path? (False = may)."""
        for x in subterms(b):
            if x.k in ("attr",) and not self.stable_attr(x.a[1]):
                return False
            if x.k in ("sub", "elem", "loopphi", "unknown", "phi", "idx", "key", "val", "item", "list", "comp"):
                return False
            if x.k == "call" and x.a[0] not in (Term("global", "isinstance"), Term("global", "hasattr")):
                return False
        return b.k in ("cmp", "call", "param", "attr")

    def stable_attr(self, name):
        tab = Builder._stable_attrs.get(id(self.p))
        if tab is None:
            tab = {}
            for m in self.p.modules.values():
                for f in ast.walk(m.tree):
                    if isinstance(f, ast.FunctionDef):
                        init = f.name == "__init__"
                        for n in ast.walk(f):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store | ast.Del) and not init:
                                tab[n.attr] = False
            Builder._stable_attrs[id(self.p)] = tab
        return tab.get(name, True)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st) -> Term:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return Term("unknown", self.fresh())
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value) if isinstance(e.value, int | float | str | bool | bytes | complex | type(None)) else Term("global", "Ellipsis")

    def e_Name(self, e, st):
        v = self.lookup(e.id, st)
        return v

    def lookup(self, name, st):
        if name in st.env:
            return st.env[name]
        fr = self.frames[-1]
        ce = fr.closure_env
        while ce is not None:
            if name in ce:
                return ce[name]
            ce = ce.get("__outer__") if isinstance(ce, dict) else None
        return self.global_term(fr.module, name)

    def global_term(self, module, name):
        q = self.p.resolve(module, name)
        return self.fold_global(q)

    def fold_global(self, q):
        if q and "." in q:
            h, t = q.rsplit(".", 1)
            mod = self.p.modules.get(h)
            s = mod.syms.get(t) if mod else None
            if isinstance(s, tuple) and s[0] == "var" and isinstance(s[1], ast.Constant) and isinstance(s[1].value, int | float | str):
                return const(s[1].value)
            if isinstance(s, tuple) and s[0] == "var" and isinstance(s[1], ast.UnaryOp) and isinstance(s[1].op, ast.USub) and isinstance(s[1].operand, ast.Constant) and isinstance(s[1].operand.value, int | float):
                return const(-s[1].operand.value)
            if isinstance(s, tuple) and s[0] == "var" and isinstance(s[1], ast.Tuple | ast.List | ast.Set) and all(isinstance(x, ast.Constant) for x in s[1].elts):
                k = {ast.Tuple: "tuple", ast.List: "tuple", ast.Set: "set"}[type(s[1])]
                return Term(k, tuple(const(x.value) for x in s[1].elts))
        return Term("global", q)

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, name, st, at):
        if (b, name) in st.heap:
            return st.heap[(b, name)]
        if b.k == "global":
            return self.fold_global(self.p.canon(f"{b.a[0]}.{name}"))
        if b.k == "phi" and any((x, name) in st.heap for x in b.a[0]):
            return self.phi([st.heap.get((x, name), Term("attr", x, name)) for x in b.a[0]], b.a[1])
        if self.inline_props and b.k in ("param", "super", "attr", "call"):
            f = None
            if b.k == "super":
                ctx = b.a[1]
                f = self.ctxcls(b).find(name, after=self.p.classes.get(ctx)) if self.ctxcls(b) else None
            elif self.is_exact(b):
                c = self.typecls(b)
                f = c.find(name) if c else None
            if f is not None and f.is_property and not f.is_abstract and len(self.stack) <= self.max_depth and f.qual not in self.stack and f.qual not in self.opaque and f.name not in self.opaque:
                selfb = self.frames[-1].self_term if b.k == "super" else b
                return self.inline_call({"func": f, "self": selfb, "cls": self.typecls(selfb), "exact": True}, (), (), st, at)
        return Term("attr", b, name)

    def ctxcls(self, b):
        t = self.typeof(self.frames[-1].self_term) if self.frames[-1].self_term is not None else None
        return self.p.classes.get(t[1]) if t and t[0] == "inst" else None

    def is_exact(self, b):
        return b is getattr(self, "exact_self", None) or b in getattr(self, "exact_terms", ())

    def typecls(self, b):
        t = self.typeof(b)
        return self.p.classes.get(t[1]) if t and t[0] == "inst" else None

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        i = self.ev(e.slice, st)
        return self.getsub(b, i, st)

    def getsub(self, b, i, st):
        if b.k in ("tuple", "list") and i.k == "const" and isinstance(i.a[0], int) and self.fixed(b):
            return self.item(b, i.a[0]) if -len(b.a[0]) <= i.a[0] < len(b.a[0]) else Term("sub", b, i)
        if b.k == "dict" and i.k == "const" and self.fixed(b):
            for k, v in b.a[0]:
                if k is i:
                    return v
        if b.k == "phi" and i.k == "const":
            if all(x.k in ("tuple", "dict") for x in b.a[0]):
                return self.phi([self.getsub(x, i, st) for x in b.a[0]], b.a[1])
        return Term("sub", b, i)

    def e_Slice(self, e, st):
        f = lambda x: self.ev(x, st) if x is not None else NONE
        return Term("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st):
        return Term("tuple", tuple(self.ev(x, st) for x in e.elts))

    def e_List(self, e, st):
        return Term("list", tuple(self.ev(x, st) for x in e.elts), self.fresh())

    def e_Set(self, e, st):
        return Term("set", tuple(self.ev(x, st) for x in e.elts), self.fresh())

    def e_Dict(self, e, st):
        return Term("dict", tuple((self.ev(k, st) if k is not None else None, self.ev(v, st)) for k, v in zip(e.keys, e.values, strict=True)), self.fresh())

    def e_Starred(self, e, st):
        return Term("star", self.ev(e.value, st))

    def e_BinOp(self, e, st):
        l = self.ev(e.left, st)
        r = self.ev(e.right, st)
        return self.mkbin(OPS.get(type(e.op), "?"), l, r)

    def e_UnaryOp(self, e, st):
        x = self.ev(e.operand, st)
        op = UOPS[type(e.op)]
        if x.k == "const" and op == "-" and isinstance(x.a[0], int | float):
            return const(-x.a[0])
        if x.k == "const" and op == "not":
            return const(not x.a[0])
        return Term("un", op, x)

    def e_BoolOp(self, e, st):
        # value context: operands after the first are evaluated under a branch
        op = "and" if isinstance(e.op, ast.And) else "or"
        vals = [self.ev(e.values[0], st)]
        skips = []
        for v in e.values[1:]:
            if any(isinstance(n, ast.Call) for n in ast.walk(v)):
                t, f = self.branch(vals[-1], st, e)
                go, skip = (t, f) if op == "and" else (f, t)
                if not skip.dead:
                    skips.append(skip.fork())
                st.become(go)
                if st.dead:
                    break
            vals.append(self.ev(v, st))
        if skips:
            st.become(self.join([st] + skips))
        return vals[0] if len(vals) == 1 else Term("boolop", op, tuple(vals))

    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        parts = []
        for op, r in zip(e.ops, e.comparators, strict=True):
            rt = self.ev(r, st)
            parts.append(Term("cmp", COPS[type(op)], l, rt))
            l = rt
        return parts[0] if len(parts) == 1 else Term("boolop", "and", tuple(parts))

    def e_IfExp(self, e, st):
        t, f = self.cond(e.test, st)
        c = self.last_cond
        a = self.ev(e.body, t) if not t.dead else None
        b = self.ev(e.orelse, f) if not f.dead else None
        if t.dead and f.dead:
            st.kill()
            return UNDEF
        st.become(self.join([t, f], c))
        if a is None or t.dead:
            return b
        if b is None or f.dead:
            return a
        return self.phi([a, b], c)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st):
        return self.make_closure(e, "lambda", st)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            elif isinstance(v, ast.FormattedValue):
                parts.append(self.ev(v.value, st))
        if all(p.k == "const" for p in parts):
            return const("".join(str(p.a[0]) for p in parts))
        return Term("fstr", tuple(parts))

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        n = self.new("yield", st, e, value=v)
        fr = self.frames[-1]
        if fr.yield_hook is not None:
            # run the with-body as the caller
            self.frames.pop()
            saved_stack = self.stack
            fr.suspended = st.env
            self.stack = list(fr.caller_stack)
            fr.yield_hook(st, v)
            self.stack = saved_stack
            self.frames.append(fr)
        return Term("unknown", self.fresh())

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.new("yield", st, e, value=v)
        return Term("unknown", self.fresh())

    def _comp(self, e, st, kind, elt_fn):
        saved = dict(st.env)
        gens = []
        lits = None
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ev(e.generators[0].iter, st)
            if st.dead:
                return UNDEF
            lits = self.literal_items(it)
            if lits and kind in ("list", "gen", "set"):
                out = []
                for x in lits:
                    self.assign(e.generators[0].target, x, st)
                    out.append(elt_fn(st))
                st.env = saved if not st.dead else st.env
                return Term("list" if kind != "set" else "set", tuple(out), self.fresh())
            first = it
        else:
            first = None
        heads = []
        exits = []
        for gi, g in enumerate(e.generators):
            it = first if (gi == 0 and first is not None) else self.ev(g.iter, st)
            lid = self.fresh()
            n = self.new("iter", st, e, it=it, lid=lid, comp=True)
            n.d["fwd"] = {(q.id, l) for q, l in n.pred}
            st.heap = {}
            heads.append(n)
            exits.append(st.fork([(n, "done")]))
            st.preds = [(n, "next")]
            self.assign(g.target, self.elem(it, lid), st)
            for c in g.ifs:
                t, f = self.cond(c, st)
                self.loop_back(n, -1, [f])
                st.become(t)
                if st.dead:
                    break
            gens.append((it, lid))
            if st.dead:
                break
        val = elt_fn(st) if not st.dead else UNDEF
        heads[-1].d["keep"] = [(n, l) for n, l in st.preds]
        self.loop_back(heads[-1], -1, [st])
        for i in range(len(heads) - 1, 0, -1):
            self.loop_back(heads[i - 1], -1, [exits[i]])
        out = exits[0]
        out.env = saved
        st.become(out)
        site = self.fresh()
        for h in heads:
            h.d["compsite"] = site
        return Term("comp", kind, val, tuple(it for it, _ in gens), site)

    def e_ListComp(self, e, st):
        return self._comp(e, st, "list", lambda s: self.ev(e.elt, s))

    def e_SetComp(self, e, st):
        return self._comp(e, st, "set", lambda s: self.ev(e.elt, s))

    def e_GeneratorExp(self, e, st):
        return self._comp(e, st, "gen", lambda s: self.ev(e.elt, s))

    def e_DictComp(self, e, st):
        return self._comp(e, st, "dict", lambda s: Term("tuple", (self.ev(e.key, s), self.ev(e.value, s))))

    # ---------------------------------------------------------------- calls
    def ev_args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v.k in ("tuple", "list") and self.fixed(v):
                    args += list(v.a[0])
                else:
                    args.append(Term("star", v))
            else:
                args.append(self.ev(a, st))
        kw = []
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None and v.k == "dict" and self.fixed(v) and all(x is not None and x.k == "const" for x, _ in v.a[0]):
                kw += [(x.a[0], y) for x, y in v.a[0]]
            else:
                kw.append((k.arg if k.arg is not None else "**", v))
        return tuple(args), tuple(kw)

    def e_Call(self, e, st):
        fr = self.frames[-1]
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            d = fr.defcls
            f = fr
            if d is None:  # inside closure
                for x in reversed(self.frames):
                    if x.defcls is not None:
                        d = x.defcls
                        break
            return Term("super", fr.self_term or Term("param", "self"), d.qual if d else "?")
        fterm = self.ev(e.func, st)
        args, kw = self.ev_args(e, st)
        if st.dead:
            return UNDEF
        return self.do_call(fterm, args, kw, st, e)

    def do_call(self, fterm, args, kw, st, at):
        if fterm.k == "phi":
            # call through a conditional choice of functions
            tgs = [x for x in fterm.a[0]]
            if len(tgs) <= 3 and all(x.k in ("attr", "global", "closure") for x in tgs):
                outs, vals = [], []
                n = self.new("branch", st, at, cond=fterm.a[1] or Term("unknown", self.fresh()))
                for i, x in enumerate(tgs):
                    s2 = st.fork([(n, "T" if i == 0 else "F")])
                    vals.append(self.do_call(x, args, kw, s2, at))
                    outs.append(s2)
                live = [v for v, s in zip(vals, outs, strict=True) if not s.dead]
                st.become(self.join(outs))
                return self.phi(live, fterm.a[1]) if live else UNDEF
        if fterm.k == "call" and fterm.a[0] == Term("global", "functools.partial") and fterm.a[1]:
            return self.do_call(fterm.a[1][0], fterm.a[1][1:] + args, fterm.a[2] + kw, st, at)
        if fterm.k == "global" and fterm.a[0] in IDENT_CALLS and len(args) == 2:
            return args[1]
        if fterm.k == "global" and fterm.a[0] == "getattr" and len(args) >= 2 and args[1].k == "const" and len(args) == 2:
            return self.getattr(args[0], args[1].a[0], st, at)
        if fterm.k == "global" and fterm.a[0] == "setattr" and len(args) == 3 and args[1].k == "const":
            self.setattr(args[0], args[1].a[0], args[2], st, at)
            return NONE
        if fterm.k == "global" and fterm.a[0] in ("tuple", "list") and len(args) == 1 and args[0].k == "tuple":
            return args[0]
        if fterm.k == "global" and fterm.a[0] in ("list", "dict") and not args and not any(k in ("**", None) for k, _ in kw) and (fterm.a[0] == "dict" or not kw):
            return Term("list", (), self.fresh()) if fterm.a[0] == "list" else Term("dict", tuple((const(k), v) for k, v in kw), self.fresh())
        tg = self.resolve_call(fterm, st)
        args, kw = self.spelled(tg, args, kw)
        if fterm.k == "global" and fterm.a[0] in ("isinstance", "hasattr", "len", "issubclass", "callable"):
            # pure: same arguments, same term
            site = 0 if fterm.a[0] != "len" else self.fresh()
            if fterm.a[0] == "len" and args and args[0].k in ("tuple", "list") and self.fixed(args[0]) and not any(x.k == "star" for x in args[0].a[0]) and args[0].k == "tuple":
                return const(len(args[0].a[0]))
        else:
            site = self.fresh()
        term = Term("call", fterm, args, kw, site)
        name = fterm.a[1] if fterm.k == "attr" else (fterm.a[0].rsplit(".", 1)[-1] if fterm.k == "global" else (fterm.a[1] if fterm.k == "closure" else "?"))
        recv = fterm.a[0] if fterm.k == "attr" else None
        if recv is not None and recv.k == "super":
            recv = recv.a[0]
        quals = ()
        bound = None
        if tg:
            quals = tuple(tg.get("quals") or ())
            if tg["func"] is not None:
                bound = self.bind(tg, args, kw, None)
        n = self.new("call", st, at, fn=fterm, name=name, recv=recv, args=args, kw=dict(kw), kwt=kw, term=term, quals=quals,
                     target=tg["func"] if tg else None, cls=tg.get("new") if tg else None, bound=bound, inlined=False, result=term,
                     is_super=fterm.k == "attr" and fterm.a[0].k == "super")
        if fterm.k == "attr" and name in REMOVERS and recv is not None and recv.k in ("list", "dict", "set"):
            self.touched.add(recv)
        if fterm.k == "attr" and name in MUTATORS and recv is not None and not (tg and tg["func"] is not None):
            for x in args:
                self.mut[recv].append(x)
                self.amut[recv].append(x)
            for _, x in kw:
                self.mut[recv].append(x)
                self.amut[recv].append(x)
        if tg and tg["func"] is not None and self.want_inline(tg):
            n.d["inlined"] = True
            split = self.split_at is not None and self.split_at is at
            v = self.inline_call(tg, args, kw, st, at, split=split)
            n.d["result"] = v
            if split and self.split_outs:
                for s_, v_ in self.split_outs:
                    self.new("ret", s_, at, call=n, value=v_)
                j = self.join([s_ for s_, _ in self.split_outs])
                st.heap, st.preds, st.facts = j.heap, j.preds, j.facts
            elif not st.dead:
                self.new("ret", st, at, call=n, value=v)
            if tg.get("new"):
                return term
            return v
        if recv is not None and fterm.a[0].k != "super" and name in ("train", "eval") and len(args) + len(kw) <= 1:
            # switching a module's mode is a write to its flag
            m = args[0] if args else dict(kw).get("mode", TRUE)
            st.heap[(recv, "training")] = FALSE if name == "eval" else m
        if tg and tg["func"] is not None and tg["func"].node.returns is not None and isinstance(tg["func"].node.returns, ast.Name) and tg["func"].node.returns.id in ("NoReturn", "Never"):
            self.throw(st)
        return term

    def want_inline(self, tg):
        f = tg["func"]
        if f.qual in self.opaque or f.name in self.opaque:
            return False
        if f.is_abstract or len(self.stack) > self.max_depth or f.qual in self.stack:
            return False
        if tg.get("new"):
            return tg["new"].qual in self.inline_ctor or tg["new"].name in self.inline_ctor
        if f.is_gen and not f.is_ctxmgr:
            return False
        if f.is_ctxmgr or any("jit" in d for d in f.decos):
            return f.qual in self.inline_quals or f.name in self.inline_quals
        if self.custom_inline is not None:
            r = self.custom_inline(tg)
            if r is not None:
                return r
        if f.qual in self.inline_quals or f.name in self.inline_quals:
            return True
        return bool(tg.get("exact"))

    def resolve_call(self, ft, st):
        """-> dict(func, self, cls, exact, quals, new)"""
        p = self.p
        if ft.k == "closure":
            f, env, cenv, fr = self.closures[ft]
            return {"func": f, "self": fr.self_term, "cls": fr.cls, "exact": True, "quals": (f.qual,), "closure": (env, cenv, fr)}
        if ft.k == "global":
            q = ft.a[0]
            if q in p.classes:
                c = p.classes[q]
                return {"func": c.find("__init__"), "self": None, "cls": c, "exact": False, "quals": (q,), "new": c}
            if q in p.funcs:
                f = p.funcs[q]
                if f.cls is not None:
                    if f.is_class:
                        return {"func": f, "self": Term("global", q.rsplit(".", 1)[0]), "cls": f.cls, "exact": True, "quals": (q,)}
                    return {"func": f, "self": None, "cls": f.cls, "exact": True, "quals": (q,), "unbound": not f.is_static}
                return {"func": f, "self": None, "cls": None, "exact": True, "quals": (q,)}
            if "." in q:  # inherited static/class method via class name
                h, t = q.rsplit(".", 1)
                if h in p.classes:
                    f = p.classes[h].find(t)
                    if f is not None:
                        if f.is_class:
                            return {"func": f, "self": Term("global", h), "cls": p.classes[h], "exact": True, "quals": (f.qual,)}
                        return {"func": f, "self": None, "cls": p.classes[h], "exact": True, "quals": (f.qual,), "unbound": not f.is_static}
            return {"func": None, "quals": (q,)}
        if ft.k == "attr":
            b, name = ft.a
            if name == "__class__":
                return None
            if b.k == "super":
                c = self.ctxcls(b)
                d = p.classes.get(b.a[1])
                if c is None:
                    c = d
                f = c.find(name, after=d) if c is not None and d is not None else None
                return {"func": f, "self": b.a[0], "cls": c, "exact": True, "quals": (f.qual,) if f else ()}
            t = self.typeof(b)
            if t and t[0] == "inst" and t[1] in p.classes:
                c = p.classes[t[1]]
                f = c.find(name)
                ex = self.is_exact(b)
                if f is None:
                    if not ex:
                        qs = tuple(x.methods[name].qual for x in p.subclasses(c.qual, True) if name in x.methods)
                        return {"func": None, "quals": qs}
                    return None
                qs = [f.qual]
                if not ex:
                    qs += [x.methods[name].qual for x in p.subclasses(c.qual, True) if name in x.methods]
                if f.is_property:
                    return {"func": None, "quals": tuple(qs)}
                if f.is_class:
                    return {"func": f, "self": Term("global", c.qual), "cls": c, "exact": ex, "quals": tuple(qs)}
                return {"func": f, "self": None if f.is_static else b, "cls": c, "exact": ex or (f.is_static and len(qs) == 1), "quals": tuple(qs), "typed": True}
            if t and t[0] == "union":
                qs = []
                for x in t[1]:
                    if x and x[0] == "inst" and x[1] in p.classes:
                        f = p.classes[x[1]].find(name)
                        if f:
                            qs.append(f.qual)
                return {"func": None, "quals": tuple(qs)}
            if t and t[0] == "inst":
                return {"func": None, "quals": (f"{t[1]}.{name}",)}
            return None
        if ft.k == "call" and ft.a[0] == Term("global", "type") and len(ft.a[1]) == 1:
            t = self.typeof(ft.a[1][0])
            if t and t[0] == "inst" and t[1] in p.classes:
                c = p.classes[t[1]]
                return {"func": c.find("__init__"), "self": None, "cls": c, "exact": False, "quals": (c.qual,), "new": c}
        return None

    def spelled(self, tg, args, kw):
        """One spelling for the two ways to pass an argument: parameters without default by position, those with a
        default by keyword."""
        f = tg["func"] if tg else None
        if f is None or any(x.k == "star" for x in args) or any(k in ("**", None) for k, _ in kw):
            return args, kw
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        req = len(names) - len(a.defaults)
        if f.cls is not None and not f.is_static and not tg.get("unbound"):
            names, req = names[1:], req - 1
        if len(args) > len(names):
            return args, kw
        given = dict(kw)
        pos = list(args[:req])
        while len(pos) < req and names[len(pos)] in given:
            pos.append(given.pop(names[len(pos)]))
        extra = dict(zip(names[req:], args[req:], strict=False)) if len(args) > req and a.vararg is None and not a.posonlyargs else None
        if extra is None:
            pos += args[req:]
        extra = {k: v for k, v in (extra or {}).items() if k not in given}
        return tuple(pos) if isinstance(args, tuple) else pos, type(kw)([*extra.items(), *((k, v) for k, v in kw if k in given)])

    def bind(self, tg, args, kw, st):
        f = tg["func"]
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if f.cls is not None and not f.is_static and not tg.get("unbound"):
            if names:
                sv = tg["self"]
                if tg.get("new"):
                    sv = None
                if sv is not None:
                    env[names[0]] = sv
                names = names[1:]
        pos = list(args)
        unknown_star = False
        for n in list(names):
            if pos:
                v = pos[0]
                if v.k == "star":
                    unknown_star = True
                    break
                env[n] = pos.pop(0)
            else:
                break
        extra = []
        for k, v in kw:
            if k == "**":
                unknown_star = True
                extra.append((None, v))
            elif k in f.all_params() and (a.kwarg is None or k != a.kwarg.arg):
                env[k] = v
            else:
                extra.append((const(k), v))
        if a.vararg:
            env[a.vararg.arg] = pos[0].a[0] if len(pos) == 1 and pos[0].k == "star" and pos[0].a[0].k == "param" else Term("tuple", tuple(pos)) if pos or not unknown_star else Term("unknown", self.fresh())
        if a.kwarg:
            env[a.kwarg.arg] = extra[0][1] if len(extra) == 1 and extra[0][0] is None and extra[0][1].k == "param" else Term("dict", tuple(extra), self.fresh())
        if st is not None:
            ds = list(zip([x.arg for x in (a.posonlyargs + a.args)][-len(a.defaults):] if a.defaults else [], a.defaults, strict=False))
            ds += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults, strict=True) if d is not None]
            for n, d in ds:
                if n not in env:
                    if unknown_star:
                        env[n] = Term("unknown", self.fresh())
                    else:
                        env[n] = self.default_term(f, d)
            for n in f.params() + [x.arg for x in a.kwonlyargs]:
                if n not in env:
                    env[n] = Term("unknown", self.fresh())
        return env

    def default_term(self, f, d):
        if isinstance(d, ast.Constant):
            return const(d.value) if d.value is not Ellipsis else Term("global", "Ellipsis")
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return const(-d.operand.value)
        if isinstance(d, ast.Name | ast.Attribute):
            q = self.p.dotted(f.module, d)
            if q:
                return Term("global", q)
        return Term("unknown", self.fresh())

    def inline_call(self, tg, args, kw, st, at, hook=None, holder=None, split=False):
        f = tg["func"]
        if split:
            self.split_at = None
        env = self.bind(tg, args, kw, st)
        cenv = None
        if tg.get("closure"):
            oenv, ocenv, ofr = tg["closure"]
            cenv = dict(ocenv)
            cenv.update(oenv)
            fr = Frame(f, ofr.cls, ofr.self_term, cenv, True)
            fr.defcls = ofr.defcls
        else:
            names = f.params()
            sv = env.get(names[0]) if (f.cls is not None and names and not f.is_static) else None
            if tg.get("new"):
                sv = Term("obj", tg["new"].qual, self.fresh())
                self.types[sv] = ("inst", tg["new"].qual)
                env[names[0]] = sv
            fr = Frame(f, tg.get("cls"), sv, None, True)
        for n, v in env.items():
            if v.k in ("unknown", "param", "item", "sub", "attr", "elem", "call", "star") and v not in self.types:
                ty = self.p.ann_type(f.module, f.annotation(n))
                if ty and self.typeof(v) is None:
                    self.types[v] = ty
        fr.yield_hook = hook
        fr.caller_stack = tuple(self.stack)
        saved_env, path = st.env, st.path
        st.env = env
        self.frames.append(fr)
        self.stack.append(f.qual)
        self.unwind.append(("frame", fr))
        nctx = self._push_deco_ctx(f, st)
        body = f.node.body if isinstance(f.node.body, list) else [ast.Return(f.node.body, lineno=f.node.lineno, col_offset=0)]
        self.exec_block(body, st)
        if not st.dead:
            fr.returns.append((st.fork(), NONE))
        for _ in range(nctx):
            self.ctx.pop()
        self.unwind.pop()
        self.stack.pop()
        self.frames.pop()
        outs = fr.returns
        for s, _ in outs:
            s.env = {}
        j = self.join([s for s, _ in outs])
        val = self.gated([(s.path, v) for s, v in outs], 0) if outs else UNDEF
        st.heap, st.preds, st.facts, st.path = j.heap, j.preds, j.facts, path
        st.env = holder["env"] if holder is not None else saved_env
        if split:
            self.split_at, self.split_outs = at, None
            if 1 < len(outs) <= 6:
                for s_, _ in outs:
                    s_.env, s_.path = dict(st.env), path
                self.split_outs = outs
        return val

    # ---------------------------------------------------------------- types
    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        self.types[t] = None
        r = self._typeof(t)
        if r is None:
            self.types.pop(t, None)
        else:
            self.types[t] = r
        return r

    def _typeof(self, t):
        p = self.p
        k, a = t.k, t.a
        if k == "attr":
            bt = self.typeof(a[0])
            if bt and bt[0] == "inst" and bt[1] in p.classes:
                return attr_type(p, p.classes[bt[1]], a[1])
            return None
        if k == "super":
            return self.typeof(a[0])
        if k == "call":
            fn = a[0]
            if fn.k == "global":
                q = fn.a[0]
                if q in p.classes:
                    return ("inst", q)
                if q in p.funcs:
                    f = p.funcs[q]
                    return p.ann_type(f.module, getattr(f.node, "returns", None))
                if q == "list" and a[1]:
                    return self.typeof(a[1][0])
                if q.startswith(("numpy.", "torch.")):
                    return {"numpy.array": ("inst", "numpy.ndarray")}.get(q)
                if q in ("copy.deepcopy", "copy.copy", "deepcopy") and a[1]:
                    return self.typeof(a[1][0])
                if q == "len":
                    return ("inst", "int")
            if fn.k == "call" and fn.a[0] == Term("global", "type") and len(fn.a[1]) == 1:
                return self.typeof(fn.a[1][0])
            if fn.k == "attr":
                if fn.a[1] == "__class__":
                    return None
                bt = self.typeof(fn.a[0])
                if bt and bt[0] == "inst" and bt[1] in p.classes:
                    f = p.classes[bt[1]].find(fn.a[1])
                    if f is not None:
                        r = getattr(f.node, "returns", None)
                        if isinstance(r, ast.Name) and r.id in ("Self",):
                            return bt
                        ty = p.ann_type(f.module, r)
                        if ty == ("inst", "typing.Self") or ty == ("inst", "Self"):
                            return bt
                        return ty
                if bt and bt[0] == "dict" and fn.a[1] in ("get", "pop"):
                    return bt[1]
                if bt and bt[0] == "list" and fn.a[1] in ("pop",):
                    return bt[1]
                if bt and bt[0] == "dict" and fn.a[1] == "values":
                    return ("list", bt[1])
            return None
        if k in ("elem",):
            bt = self.typeof(a[0])
            return bt[1] if bt and bt[0] == "list" else None
        if k == "val":
            bt = self.typeof(a[0])
            return bt[1] if bt and bt[0] == "dict" else None
        if k == "sub":
            bt = self.typeof(a[0])
            if bt and bt[0] in ("list", "dict"):
                return bt[1] if a[1].k != "slice" else bt
            if bt == ("inst", "tianshou.data.batch.Batch") and a[1].k not in ("const",):
                return bt
            return None
        if k == "phi":
            ts = {self.typeof(x) for x in a[0] if x is not NONE}
            if len(ts) == 1:
                return next(iter(ts))
            return None
        if k == "list" and a[0]:
            e = self.typeof(a[0][0])
            return ("list", e) if e else None
        if k == "comp" and a[0] in ("list", "gen", "set"):
            e = self.typeof(a[1])
            return ("list", e) if e else None
        if k == "comp" and a[0] == "dict" and a[1].k == "tuple":
            e = self.typeof(a[1].a[0][1])
            return ("dict", e) if e else None
        if k in ("ibin",):
            return self.typeof(a[1])
        if k == "enter":
            return self.typeof(a[0])
        if k == "obj":
            return ("inst", a[0])
        return None


_attr_types: dict = {}


def attr_type(p: Program, c: Cls, name: str):
    key = (id(p), c.qual, name)
    if key in _attr_types:
        return _attr_types[key]
    _attr_types[key] = None
    r = None
    for k in c.mro_classes():
        if name in k.attrs and k.attrs[name][1] is not None:
            r = p.ann_type(k.module, k.attrs[name][1])
            if r:
                break
        m = k.methods.get(name)
        if m is not None and m.is_property:
            r = p.ann_type(m.module, m.node.returns)
            if r:
                break
        for f in [k.methods.get("__init__")] + [x for n, x in k.methods.items() if n != "__init__"]:
            if f is None:
                continue
            for n in walk_own(f.node):
                tgt = val = ann = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tgt, val = n.targets[0], n.value
                elif isinstance(n, ast.AnnAssign):
                    tgt, val, ann = n.target, n.value, n.annotation
                if not (isinstance(tgt, ast.Attribute) and tgt.attr == name and isinstance(tgt.value, ast.Name) and f.params() and tgt.value.id == f.params()[0]):
                    continue
                if ann is not None:
                    r = p.ann_type(k.module, ann)
                elif isinstance(val, ast.Name) and val.id in f.all_params():
                    r = p.ann_type(k.module, f.annotation(val.id))
                elif isinstance(val, ast.BoolOp) or isinstance(val, ast.IfExp):
                    vs = val.values if isinstance(val, ast.BoolOp) else [val.body, val.orelse]
                    for v in vs:
                        if isinstance(v, ast.Call):
                            q = p.dotted(k.module, v.func)
                            if q in p.classes:
                                r = ("inst", q)
                        elif isinstance(v, ast.Name) and v.id in f.all_params():
                            r = r or p.ann_type(k.module, f.annotation(v.id))
                elif isinstance(val, ast.Call):
                    q = p.dotted(k.module, val.func)
                    if q in p.classes:
                        r = ("inst", q)
                    elif q in p.funcs:
                        r = p.ann_type(p.funcs[q].module, p.funcs[q].node.returns)
                    elif q in ("copy.deepcopy", "deepcopy") and val.args and isinstance(val.args[0], ast.Name):
                        r = p.ann_type(k.module, f.annotation(val.args[0].id))
                elif isinstance(val, ast.ListComp) and isinstance(val.elt, ast.Call):
                    q = p.dotted(k.module, val.elt.func)
                    if q in p.classes:
                        r = ("list", ("inst", q))
                if r:
                    break
            if r:
                break
        if r:
            break
    _attr_types[key] = r
    return r


# -------------------------------------------------------------------- term helpers
def canon_cond(t):
    pol = True
    while True:
        if t.k == "un" and t.a[0] == "not":
            t, pol = t.a[1], not pol
            continue
        if t.k == "cmp":
            op, l, r = t.a
            if op in ("is not", "!=", "not in"):
                t, pol = Term("cmp", {"is not": "is", "!=": "==", "not in": "in"}[op], l, r), not pol
                continue
            if op == ">":
                t = Term("cmp", "<", r, l)
                continue
            if op == ">=":
                t, pol = Term("cmp", "<", l, r), not pol
                continue
            if op == "<=":
                t, pol = Term("cmp", "<", r, l), not pol
                continue
            if op == "is" and r is TRUE:
                t = l
                continue
            if op == "is" and r is FALSE:
                t, pol = l, not pol
                continue
            if op == "is" and l is NONE and r is not NONE:
                t = Term("cmp", "is", r, l)
                continue
        if t.k == "call" and t.a[0] == Term("global", "bool") and len(t.a[1]) == 1:
            t = t.a[1][0]
            continue
        break
    return t, pol


def children(t):
    k, a = t.k, t.a
    if k == "attr":
        return (a[0],)
    if k == "sub":
        return (a[0], a[1])
    if k == "slice":
        return a
    if k == "call":
        return (a[0],) + a[1] + tuple(v for _, v in a[2])
    if k in ("bin", "ibin", "cmp"):
        return (a[1], a[2])
    if k == "un":
        return (a[1],)
    if k == "boolop":
        return a[1]
    if k == "phi":
        return a[0] + ((a[1],) if a[1] is not None else ())
    if k in ("elem", "idx", "key", "val", "enter", "star", "super"):
        return (a[0],)
    if k == "item":
        return (a[0],)
    if k in ("tuple", "list", "set", "fstr"):
        return a[0]
    if k == "dict":
        return tuple(x for kv in a[0] for x in kv if x is not None)
    if k == "comp":
        return (a[1],) + a[2]
    return ()


def subterms(t, seen=None):
    st = [t]
    seen = set() if seen is None else seen
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def dotted(t):
    if t is None:
        return None
    if t.k == "global":
        return t.a[0]
    if t.k == "param":
        return t.a[0]
    if t.k == "attr":
        b = dotted(t.a[0])
        return f"{b}.{t.a[1]}" if b else None
    return None


def is_call(t, *names):
    """Call term whose callee's dotted name or last component is one of names."""
    if t.k != "call":
        return False
    f = t.a[0]
    n = f.a[1] if f.k == "attr" else (f.a[0] if f.k == "global" else None)
    if n is None:
        return False
    return n in names or n.rsplit(".", 1)[-1] in names
