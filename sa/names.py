"""Undoing renames of private names.

Rules refer to some private attributes and functions of the package by name.  sa/names.json records, for the tree on which the
rules were confirmed, where each private name is defined and used.  When a private name has vanished from places where a new
name now stands in its stead (same class, same functions, same number of reads and writes; for functions: same place, same
parameters, same public names in the body), the new name is a rename: the syntax tree is given the old name back before it is
analysed.  The names are not part of what is decided; a name without a counterpart stays as it is."""
from __future__ import annotations

import ast
import json
import os
from collections import Counter, defaultdict

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")
FD = ast.FunctionDef | ast.AsyncFunctionDef


def private(n):
    return n.startswith("_") and not n.startswith("__") and n.strip("_") != ""


def scan(trees):
    """-> (attrs: {name: Counter(site)}, funcs: {(place, name): [params, [identifiers]]}, allnames)"""
    attrs, funcs, every = defaultdict(Counter), {}, set()

    def go(node, mod, cls, fns):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, ast.ClassDef):
                every.add(x.name)
                go(x, mod, x.name, [])
                continue
            if isinstance(x, FD):
                every.add(x.name)
                a = x.args
                if private(x.name) or fns:
                    idents = sorted({n for y in ast.walk(x) for n in ([y.attr] if isinstance(y, ast.Attribute) else [y.id] if isinstance(y, ast.Name) else [y.arg] if isinstance(y, ast.keyword) and y.arg else [str(y.value)] if isinstance(y, ast.Constant) and isinstance(y.value, str | int) and len(str(y.value)) < 40 else []) if not private(n)})
                    place = f"{mod}:{cls}:{fns[-1] if fns and not private(fns[-1]) else '_' if fns else ''}"
                    funcs.setdefault(f"{place}:{x.name}", [[y.arg for y in a.posonlyargs + a.args + a.kwonlyargs], idents])
                go(x, mod, cls, [*fns, x.name])
                continue
            if isinstance(x, ast.Attribute):
                every.add(x.attr)
                if private(x.attr):
                    attrs[x.attr][f"{mod}:{cls}:{fns[0] if fns and not private(fns[0]) else '_' if fns else ''}:{type(x.ctx).__name__}"] += 1
            elif isinstance(x, ast.Name):
                every.add(x.id)
            elif isinstance(x, ast.AnnAssign) and not fns and cls and isinstance(x.target, ast.Name) and private(x.target.id):
                attrs[x.target.id][f"{mod}:{cls}::field"] += 1
            elif isinstance(x, ast.arg):
                every.add(x.arg)
            go(x, mod, cls, fns)
    for mod, t in trees.items():
        go(t, mod, "", [])
    return attrs, funcs, every


def record(trees):
    attrs, funcs, every = scan(trees)
    json.dump({"attrs": {n: dict(sorted(c.items())) for n, c in sorted(attrs.items())}, "funcs": dict(sorted(funcs.items())), "names": sorted(every)},
              open(FILE, "w"), indent=0, sort_keys=True)
    open(FILE, "a").write("\n")


def overlap(a, b):
    i, u = sum((a & b).values()), sum((a | b).values())
    return i / u if u else 0.0


def jac(a, b):
    a, b = set(a), set(b)
    return len(a & b) / len(a | b) if a | b else 1.0


def best(new, old, score, least):
    """Unique best partners in both directions."""
    sc = {(n, o): score(n, o) for n in new for o in old}
    out = {}
    for n in new:
        c = sorted(((s, o) for (m, o), s in sc.items() if m == n and s >= least), reverse=True)
        if not c or len(c) > 1 and c[1][0] == c[0][0]:
            continue
        o = c[0][1]
        if max(s for (m, p), s in sc.items() if p == o) == c[0][0] and sum(1 for (m, p), s in sc.items() if p == o and s == c[0][0]) == 1:
            out[n] = o
    return out


def undo(trees):
    """Rename private names back in place; returns {new: old}."""
    if not os.path.exists(FILE):
        return {}
    ref = json.load(open(FILE))
    known = set(ref["names"])
    attrs, funcs, every = scan(trees)
    # functions: by place
    ren = {}
    rfun = ref["funcs"]
    lost, came = defaultdict(list), defaultdict(list)
    for k in rfun:
        if k not in funcs:
            lost[k.rsplit(":", 1)[0]].append(k)
    for k in funcs:
        if k not in rfun and k.rsplit(":", 1)[1] not in known:
            came[k.rsplit(":", 1)[0]].append(k)
    votes = defaultdict(Counter)
    for place, new in came.items():
        old = lost.get(place, [])
        for n, o in best(new, old, lambda n, o: (jac(funcs[n][1], rfun[o][1]) + (len(funcs[n][0]) == len(rfun[o][0]))) / 2, 0.7).items():
            votes[n.rsplit(":", 1)[1]][o.rsplit(":", 1)[1]] += 1
    for n, c in votes.items():
        if len(c) == 1:
            ren[n] = next(iter(c))
    # attributes: by the places of use
    rat = {n: Counter(c) for n, c in ref["attrs"].items()}
    fnames = {k.rsplit(":", 1)[1] for k in rfun}
    defined = {k.rsplit(":", 1)[1] for k in funcs}
    new = [n for n in attrs if n not in known and n not in ren and n not in defined]
    if new:
        gone = {}
        for o, c in rat.items():
            if o in fnames:
                continue
            d = c - attrs.get(o, Counter())
            if d and sum(d.values()) >= 0.5 * sum(c.values()):
                gone[o] = d
        ren.update(best(new, list(gone), lambda n, o: overlap(attrs[n], gone[o]), 0.5))
    if ren:
        # a name that still stands elsewhere may be given back twice only if it is the same name everywhere
        for t in trees.values():
            apply(t, ren)
    # parameters of private functions
    attrs, funcs, every = scan(trees)
    par = {}
    for k, (ps, _) in funcs.items():
        if k in rfun and ps != rfun[k][0] and len(ps) == len(rfun[k][0]):
            m = {a: b for a, b in zip(ps, rfun[k][0], strict=True) if a != b}
            if m and not set(m.values()) & set(ps):
                par[k] = m
    if par:
        for mod, t in trees.items():
            params(t, mod, par)
    return ren | {f"{k}({a})": b for k, m in par.items() for a, b in m.items()}


def apply(tree, ren):
    for x in ast.walk(tree):
        if isinstance(x, FD) and x.name in ren:
            x.name = ren[x.name]
        elif isinstance(x, ast.Attribute) and x.attr in ren:
            x.attr = ren[x.attr]
        elif isinstance(x, ast.Name) and x.id in ren:
            x.id = ren[x.id]
        elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value in ren:
            x.value = ren[x.value]
        elif isinstance(x, ast.alias):
            if x.name in ren:
                x.name = ren[x.name]
            if x.asname in ren:
                x.asname = ren[x.asname]
        elif isinstance(x, ast.keyword | ast.arg) and x.arg in ren:
            x.arg = ren[x.arg]


def params(tree, mod, par):
    names = {k.rsplit(":", 1)[1]: m for k, m in par.items()}

    def go(node, cls, fns):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, ast.ClassDef):
                go(x, x.name, [])
            elif isinstance(x, FD):
                k = f"{mod}:{cls}:{fns[-1] if fns and not private(fns[-1]) else '_' if fns else ''}:{x.name}"
                m = par.get(k)
                if m and not any(isinstance(y, ast.Name) and y.id in m.values() for y in ast.walk(x)):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and y.id in m:
                            y.id = m[y.id]
                    for y in x.args.posonlyargs + x.args.args + x.args.kwonlyargs:
                        y.arg = m.get(y.arg, y.arg)
                go(x, cls, [*fns, x.name])
            else:
                go(x, cls, fns)
    go(tree, "", [])
    for x in ast.walk(tree):
        if isinstance(x, ast.Call):
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
            if nm in names:
                for kw in x.keywords:
                    if kw.arg in names[nm]:
                        kw.arg = names[nm][kw.arg]
