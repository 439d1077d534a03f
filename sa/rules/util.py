"""Small shared helpers of the rule modules."""
from __future__ import annotations

import ast

from ..flow import Term, canon_cond, const, is_call, subterms
from ..query import closure, find_path, nodes, skey, values

SELF = Term("param", "self")
LENP = ("list", "tuple", "array", "asarray", "iter")


def P(x):
    return Term("param", x)


def A(name, base=SELF):
    return Term("attr", base, name)


REORDERS = ("sorted", "reversed", "set", "frozenset", "unique", "sort", "flip", "permutation", "roll", "shuffle")


def cut(cond_pred, want):
    """edge_ok: do not take branch edges on which the condition matching cond_pred has truth value != want."""
    def ok(n, m, l):
        if n.kind != "branch" or l not in ("T", "F"):
            return True
        c, pol = canon_cond(n.d["cond"])
        if not cond_pred(c):
            return True
        return (l == "T") == (pol == want)
    return ok


def both(*fs):
    fs = [f for f in fs if f]
    return lambda n, m, l: all(f(n, m, l) for f in fs)


def edge_succ(n, label):
    return [m for m, l in n.succ if l == label]


def each_src(t):
    """Iterable a loop element comes from (None if t is not a loop element)."""
    return t.a[0] if t is not None and t.k in ("elem", "val", "key") else None


def kwname(n, name):
    return n.d["kw"].get(name)


def loop_of(fl, t):
    """iter node that produces element t."""
    if t is None or t.k not in ("elem", "idx", "key", "val"):
        return None
    for n in nodes(fl, "iter"):
        if n.d.get("lid") == t.a[1]:
            return n
    return None


def args_in_order(n, names):
    """Are the call's arguments exactly the caller's parameters of these names (by position or keyword)?"""
    return [n.d["args"][i] if i < len(n.d["args"]) else n.d["kw"].get(x) for i, x in enumerate(names)]


def one_of(c, fl, term, *preds):
    return any(p(term) for p in preds)


def iter_heads(fl):
    return [n for n in nodes(fl, "iter") if not n.d.get("comp")]


def same_skey(a, b):
    return a is b or skey(a) == skey(b)


def comp_elt(t):
    return t.a[1] if t.k == "comp" else None


def flag_true(term, name):
    return term.k == "attr" and term.a[1] == name


def rat(t, atom):
    """Rational function (num, den) of polynomials for an arithmetic term."""
    from ..query import Poly, TORCH_BIN
    a = atom(t)
    if a is not None:
        return (a if isinstance(a, Poly) else Poly.x(a), Poly.c(1))
    if t.k == "const" and isinstance(t.a[0], int | float) and not isinstance(t.a[0], bool):
        return (Poly.c(t.a[0]), Poly.c(1))
    op = l = r = None
    if t.k in ("bin", "ibin"):
        op, l, r = t.a[0], t.a[1], t.a[2]
    elif t.k == "call":
        f = t.a[0]
        nm = f.a[1] if f.k == "attr" else (f.a[0].rsplit(".", 1)[-1] if f.k == "global" else "")
        ops = ([f.a[0]] if f.k == "attr" else []) + list(t.a[1])
        if nm in TORCH_BIN and len(ops) == 2 and not t.a[2]:
            op, l, r = TORCH_BIN[nm], ops[0], ops[1]
        if nm in ("square",) and len(ops) == 1:
            n, d = rat(ops[0], atom)
            return n * n, d * d
    if op == "**" and r.k == "const" and isinstance(r.a[0], int | float) and r.a[0] in (2, 3):
        n, d = rat(l, atom)
        n2, d2 = n, d
        for _ in range(int(r.a[0]) - 1):
            n2, d2 = n2 * n, d2 * d
        return n2, d2
    if op in ("+", "-", "*", "/"):
        (n1, d1), (n2, d2) = rat(l, atom), rat(r, atom)
        if op == "+":
            return n1 * d2 + n2 * d1, d1 * d2
        if op == "-":
            return n1 * d2 - n2 * d1, d1 * d2
        if op == "*":
            return n1 * n2, d1 * d2
        return n1 * d2, d1 * n2
    if t.k == "un" and t.a[0] == "-":
        n, d = rat(t.a[1], atom)
        return -n, d
    return (Poly.x(skey(t)), Poly.c(1))


def rat_eq(a, b):
    return a[0] * b[1] == b[0] * a[1]


def field(fl, t, name):
    """Entry `name` of a Batch-like value built from named entries (None if it is not built that way)."""
    from ..query import strip
    if t is None:
        return None
    while True:
        u = strip(t, "copy", "deepcopy")
        if u.k == "call" and is_call(u, "cast") and len(u.a[1]) == 2:
            u = u.a[1][1]
        if u is t:
            break
        t = u
    if t.k == "attr":
        u = field(fl, t.a[0], t.a[1])
        if u is not None:
            return field(fl, u, name)
        return None
    if t.k == "phi":
        vs = [field(fl, x, name) for x in t.a[0]]
        if None in vs:
            return None
        return vs[0] if all(v is vs[0] for v in vs) else Term("phi", tuple(vs), t.a[1])
    if t.k == "call":
        for k, v in t.a[2]:
            if k == name:
                return flat_attr(fl, v)
        if is_call(t, "Batch") and t.a[1] and t.a[1][0].k == "dict":
            for k, v in t.a[1][0].a[0]:
                if k is const(name):
                    return flat_attr(fl, v)
    if t.k == "dict":
        for k, v in t.a[0]:
            if k is const(name):
                return flat_attr(fl, v)
    return None


def flat_attr(fl, t):
    """Resolve x.name where x is built from named entries."""
    while t.k == "attr":
        u = field(fl, t.a[0], t.a[1])
        if u is None:
            return t
        t = u
    return t


def find_branch(fl, pred):
    return [n for n in nodes(fl, "branch") if pred(canon_cond(n.d["cond"])[0])]


def seq_source(t):
    """Sequence whose entries a loop variable runs through, looking through zip/enumerate."""
    return t.a[0] if t.k in ("elem", "val", "key", "idx") else None


def params_of(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


# ------------------------------------------------------------------ evaluation under assumptions
def truths(t, val):
    """Truth values a condition may have, given val(atom) -> True / False / None (unknown)."""
    if t.k == "const":
        return {bool(t.a[0])}
    v = val(t)
    if v is not None:
        return {v}
    if t.k == "un" and t.a[0] == "not":
        return {None if r is None else not r for r in truths(t.a[1], val)}
    if t.k == "call" and is_call(t, "bool") and t.a[1]:
        return truths(t.a[1][0], val)
    if t.k == "cmp":
        x, pol = canon_cond(t)
        if x is not t:
            v = val(x)
            if v is not None:
                return {v == pol}
    if t.k == "boolop":
        rs = [truths(x, val) for x in t.a[1]]
        dom = t.a[0] == "or"
        if any(r == {dom} for r in rs):
            return {dom}
        out = set()
        if any(dom in r for r in rs):
            out.add(dom)
        if all((not dom) in r for r in rs):
            out.add(not dom)
        if any(None in r for r in rs):
            out.add(None)
        return out
    if t.k in ("bin", "call") and (t.k == "bin" and t.a[0] in ("&", "|")):
        return truths(Term("boolop", "and" if t.a[0] == "&" else "or", (t.a[1], t.a[2])), val)
    if t.k == "phi":
        return {r for x in select(t, val) for r in truths(x, val)}
    return {None}


def select(t, val):
    """Alternatives of a merged value that are left under the assumptions."""
    sel = list(t.a[0])
    if t.a[1] is not None and len(sel) == 2:
        x, pol = canon_cond(t.a[1])
        r = truths(x, val)
        if r == {True}:
            sel = [sel[0] if pol else sel[1]]
        elif r == {False}:
            sel = [sel[1] if pol else sel[0]]
    return sel


def assume(val):
    """edge_ok: branches whose condition is decided under the assumptions are taken only that way."""
    def ok(n, m, l):
        if n.kind != "branch" or l not in ("T", "F"):
            return True
        x, pol = canon_cond(n.d["cond"])
        r = truths(x, val)
        if r == {True}:
            return (l == "T") == pol
        if r == {False}:
            return (l == "T") != pol
        return True
    return ok


def resolve(t, val, memo=None):
    """The term with merges that are decided under the assumptions replaced by the value taken."""
    memo = {} if memo is None else memo

    def rec(x):
        if isinstance(x, Term):
            if x in memo:
                return memo[x]
            memo[x] = x
            if x.k == "phi":
                sel = select(x, val)
                y = rec(sel[0]) if len(sel) == 1 else Term("phi", tuple(rec(s) for s in sel), x.a[1])
                if y.k == "phi" and len(set(y.a[0])) == 1:
                    y = y.a[0][0]
            else:
                y = Term(x.k, *(rec(a) for a in x.a)) if any(isinstance(a, Term | tuple) for a in x.a) else x
            memo[x] = y
            return y
        if isinstance(x, tuple):
            return tuple(rec(a) for a in x)
        return x
    return rec(t)


def live(fl, val):
    """Nodes that can run under the assumptions."""
    from ..query import reachable
    return reachable([fl.entry_node], edge_ok=assume(val))


def returned(fl, val):
    """Values the function may return under the assumptions."""
    out = []
    for n in live(fl, val):
        if n.kind == "return" and len(n.stack) == 1:
            t = resolve(n.d["value"], val)
            if t not in out:
                out.append(t)
    return out


def inner_step(k, name):
    """A private method that other methods of the class call on themselves: a part of them, judged where it is called."""
    if not name.startswith("_") or name.startswith("__"):
        return False
    for kk in k.mro_classes():
        for m, f in kk.methods.items():
            if m == name:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load):
                    return True
    return False
