"""Options reach what they configure: an argument that a function shares by name with what it calls is handed on, under its own name, and none is ignored."""
from __future__ import annotations

import ast

from ..core import rule
from ..flow import Term
from ..query import closure, guards, nodes
from .util import P

# parameters that are required by a protocol (the callee of a callback) and not needed by this implementation, or are documented as without effect
WITHOUT_EFFECT = {
    ("WandbLogger.__init__", "monitor_gym"): "disabled until gymnasium > 1.0 is supported (stated at the call of wandb.init)",
    ("PSRLModel.__call__", "state"): "the model is called like a network",
    ("PSRLModel.__call__", "info"): "the model is called like a network",
    ("OnpolicyTrainer.policy_update_fn", "result"): "the trainers' update hook",
}


def params(f, with_self=False):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if with_self or x.arg not in ("self", "cls")]


def optional(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    return {x.arg for x in pos[len(pos) - len(a.defaults):]} | {x.arg for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None}


def short(f):
    return f"{f.cls.name}.{f.node.name}" if getattr(f, "cls", None) is not None else f.qual.rsplit(".", 1)[-1]


def functions(c):
    for q, f in sorted(c.p.funcs.items()):
        if q.startswith("tianshou.") and isinstance(f.node, ast.FunctionDef):
            try:
                yield f, c.flow(f, getattr(f, "cls", None), inline_quals=())
            except Exception:
                continue


def calls_of(c, fl):
    """Calls of package functions whose arguments are all known by parameter name."""
    for n in nodes(fl, "call"):
        b, t = n.d.get("bound"), n.d.get("target")
        if len(n.stack) != 1 or b is None or t is None:
            continue
        t = t if hasattr(t, "node") else c.p.funcs.get(t)
        if t is None or not isinstance(t.node, ast.FunctionDef):
            continue
        if any(x is None or x == "**" for x, _ in n.d["kwt"]) or any(x.k == "star" for x in n.d["args"]) or any(x.k == "star" for _, x in n.d["kwt"]):
            continue
        yield n, t, b


@rule("S01")
def handed_on(c):
    """A function that takes an option and calls something taking an option of the same name hands it on."""
    for f, fl in functions(c):
        own = set(params(f))
        if not own:
            continue
        got = {}
        for n, t, b in calls_of(c, fl):
            opt = optional(t)
            for x in sorted(own & opt):
                v = b.get(x)
                con = f"{short(f)}/{short(t)}/{x}"
                if v is not None and v.k != "const":
                    got.setdefault(con, []).append((True, n))
                    continue
                # the option may be what decides about this call; a recursive call is another stage of the same work
                if t is f or any(P(x) in closure(fl, g) for g, _ in guards(fl, n)):
                    got.setdefault(con, []).append((None, n))
                    continue
                got.setdefault(con, []).append((False, n))
        for con, xs in sorted(got.items()):
            bad = [n for ok, n in xs if ok is False]
            if bad:
                c.bad(con, bad[0].where, "the option is accepted here, but what it configures is called with its default" if bad[0].d["bound"].get(con.rsplit("/", 1)[1]) is None else "the option is accepted here, but what it configures is called with a constant")
            else:
                c.decide(True if any(ok for ok, _ in xs) else None, con, xs[0][1].where, "")


@rule("S01")
def own_name(c):
    """An argument is not passed under the name of another parameter of the caller."""
    for f, fl in functions(c):
        own = set(params(f))
        got = {}
        for n in nodes(fl, "call"):
            if len(n.stack) != 1:
                continue
            b = n.d.get("bound")
            full = b is not None
            if b is None:
                b = {k: v for k, v in n.d["kwt"] if k is not None}
            for k, v in b.items():
                if k not in own or v.k != "param" or v.a[0] not in own:
                    continue
                con = f"{short(f)}/{n.d['name']}/{k}"
                if v.a[0] == k:
                    got.setdefault(con, (True, n, ""))
                elif v.a[0] in b and b[v.a[0]] is not v:
                    got[con] = (False, n, f"{v.a[0]} is passed as {k}, although there is a {k} here and {v.a[0]} is accepted there")
                elif full:
                    got.setdefault(con, (None, n, f"{v.a[0]} passed as {k}"))
        for con, (ok, n, why) in sorted(got.items()):
            c.decide(ok, con, n.where, why)


def related(c, f, x):
    """Whether a base or derived class has the method with that parameter."""
    k = getattr(f, "cls", None)
    if k is None:
        return False
    nm = f.node.name
    for b in k.mro_classes()[1:]:
        if nm in b.methods and x in params(b.methods[nm]):
            return True
    return any(nm in s.methods and x in params(s.methods[nm]) for s in c.p.subclasses(k.qual) if s is not k)


@rule("S01")
def none_ignored(c):
    """Every parameter is used by the function that takes it, unless the signature is fixed by a base class, a subclass or a protocol."""
    for q, f in sorted(c.p.funcs.items()):
        if not q.startswith("tianshou.") or not isinstance(f.node, ast.FunctionDef):
            continue
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
        if not body or any("abstract" in ast.dump(d) or "overload" in ast.dump(d) for d in f.node.decorator_list) or all(isinstance(s, ast.Raise) for s in body):
            continue
        if f.node.name.startswith("_") and not f.node.name.endswith("__"):
            # a helper may be called with more than it needs
            continue
        k = getattr(f, "cls", None)
        if k is not None and any("Protocol" in ast.dump(b) for b in k.node.bases):
            continue
        names = {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        # a name that is only handed on to a call written with locals() counts as used
        every = "locals" in names
        free = [x for x in params(f) if x not in names and not every]
        for x in free:
            if x.startswith("_") or related(c, f, x) or (short(f), x) in WITHOUT_EFFECT:
                continue
            c.bad(f"{short(f)}/{x}", f.where, f"the parameter {x} has no effect")
        if params(f) and not free:
            c.ok(short(f), f.where)
