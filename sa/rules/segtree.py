"""The sum tree behind prioritised sampling: every inner node is the sum of its two children, and a search follows the partial sums."""
from __future__ import annotations

from ..canon import parse, unknowns
from ..core import rule
from ..flow import Term, canon_cond, const, is_call, show, subterms
from ..query import Poly, calls, nodes, setattrs, setsubs, strip, values
from .buffers import SELF, IntCanon

MOD = "tianshou.data.utils.segtree."
ST = MOD + "SegmentTree"


def _same(c, cn, got, text, con, where, msg, names=None):
    """Compare a term with a formula text over the same leaf names."""
    cw = IntCanon(cn.fl)
    env = parse("want = " + text)
    w = cw.form(env["want"] if isinstance(env, dict) else env)
    g = cn.form(got)
    c.decide(g == w if not unknowns(cn) or g == w else None, con, where, f"{msg}: {cn.ps(g)} instead of {cn.ps(w)}")


def _carried(fl, init):
    """Loop variable whose initial value satisfies `init`, with its step terms."""
    out = []
    for lp, vs in fl.loops.items():
        # its own value before and after an iteration
        ini = [v for v in vs if not _depends(fl, v, lp)]
        st = [v for v in vs if _depends(fl, v, lp)]
        if st and ini and all(init(v) for v in ini):
            out.append((lp, st))
    return out


def _depends(fl, t, lp):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is lp:
            return True
        st.extend(y for y in subterms(x) if y is not x)
    return False


@rule("B05")
def inner_nodes_are_sums(c):
    """Setting leaves recomputes every ancestor up to the root as the sum of its two children."""
    fl = c.flow(MOD + "_setitem")
    con = "_setitem"
    tree, index, value = (Term("param", x) for x in fl.entry.params()[:3])
    leaf = [n for n in setsubs(fl, base=tree) if strip(n.d["index"], "copy", "asarray", "array", "astype") is index]
    c.decide(bool(leaf) or None, con + "/leaves", fl.entry.where, "the leaves are not written")
    for n in leaf:
        c.decide(True if n.d["value"] is value else (False if n.d["value"].k == "bin" else None), con + "/leaves", n.where, f"the leaves are set to {show(n.d['value'])}")
    inner = [n for n in setsubs(fl, base=tree) if n not in leaf]
    if not inner:
        c.und(con + "/parents", "no parent is written")
        return
    lps = _carried(fl, lambda v: strip(v, "copy", "asarray", "array", "astype") is index or is_call(v, "copy") or v.k == "bin")
    if len(lps) != 1:
        c.und(con + "/parents", "loop not recognised")
        return
    lp, steps = lps[0]
    alias = {lp: "i", tree: "t"}
    inits = [v for v in fl.loops[lp] if v not in steps]
    first = [strip(v, "copy", "asarray", "array", "astype") is index for v in inits]
    for s in steps:
        cn = IntCanon(fl, alias=alias)
        _same(c, cn, s, "i // 2", con + "/next level", fl.entry.where, "the next level is reached by")
    at_parent = None
    for n in inner:
        cn = IntCanon(fl, alias=alias)
        j = cn.form(n.d["index"])
        half = IntCanon(fl, alias=alias).form(parse("want = i // 2")["want"])
        if all(first) and j == half:
            name, at_parent = "(i // 2)", True
        elif j == IntCanon(fl).form(Term("param", "i")):
            name, at_parent = "i", False
        else:
            c.decide(False if not unknowns(cn) else None, con + "/parents", n.where, f"the node at {cn.ps(j)} is written")
            continue
        _same(c, cn, n.d["value"], f"t[{name} * 2] + t[{name} * 2 + 1]", con + "/sum of children", n.where, "a parent is set to")
    for b in nodes(fl, "branch"):
        cn = IntCanon(fl, alias=alias)
        cond, pos = canon_cond(b.d["cond"])
        if cond.k != "cmp" or not _depends(fl, cond, lp):
            continue
        g = cn.cond(cond)
        lim = 1 if at_parent else 0
        w = [IntCanon(fl).form(parse(f"want = i[0] {op}")["want"]) for op in (f"> {lim}",)]
        alt = [IntCanon(fl).form(parse(f"want = i[0] {op}")["want"]) for op in (f"!= {lim}",)]
        if at_parent is not None and all(first):
            ok = g in w + [Poly.c(1) - x for x in w] + alt + [Poly.c(1) - x for x in alt]
            c.decide(ok if not unknowns(cn) else None, con + "/up to the root", b.where, f"levels are recomputed while {show(cond)}")


@rule("B05")
def search_follows_partial_sums(c):
    """get_prefix_sum_idx descends from the root: to the right child, minus the left sum, exactly when the left sum is smaller than the value."""
    fl = c.flow(MOD + "_get_prefix_sum_idx")
    con = "_get_prefix_sum_idx"
    value, bound, sums = (Term("param", x) for x in fl.entry.params()[:3])
    one = lambda v: is_call(v, "ones", "ones_like", "full") or v is const(1)
    li = _carried(fl, one)
    lv = _carried(fl, lambda v: strip(v, "copy", "asarray", "array", "astype") is value)
    if len(li) != 1 or len(lv) != 1:
        c.und(con, "loop not recognised")
        return
    (i, si), (v, sv) = li[0], lv[0]
    alias = {i: "i", v: "v", sums: "s", bound: "b"}
    for s in si:
        _same(c, IntCanon(fl, alias=alias), s, "2 * i + (s[2 * i] < v)", con + "/descend", fl.entry.where, "the search continues at")
    for s in sv:
        _same(c, IntCanon(fl, alias=alias), s, "v - s[2 * i] * (s[2 * i] < v)", con + "/remaining", fl.entry.where, "the remaining value is")
    heads = [b for b in nodes(fl, "branch") if canon_cond(b.d["cond"])[0].k == "cmp" and _depends(fl, b.d["cond"], i)]
    for b in heads:
        cn = IntCanon(fl, alias=alias)
        cond, pos = canon_cond(b.d["cond"])
        g = cn.cond(cond)
        w = IntCanon(fl).form(parse("want = i[0] < b")["want"])
        c.decide(g in (w, Poly.c(1) - w) if not unknowns(cn) else None, con + "/down to the leaves", b.where, f"the search goes on while {show(cond)}")
    for r in [n for n in nodes(fl, "return") if len(n.stack) == 1]:
        _same(c, IntCanon(fl, alias=alias), r.d["value"], "i - b", con + "/result", r.where, "the found leaf is reported as")


@rule("B05")
def interval_sum(c):
    """reduce adds exactly the nodes that cover the interval."""
    fl = c.flow(MOD + "_reduce")
    con = "_reduce"
    tree, start, end = (Term("param", x) for x in fl.entry.params()[:3])
    ls, le = _carried(fl, lambda v: v is start), _carried(fl, lambda v: v is end)
    lr = _carried(fl, lambda v: v.k == "const" and v.a[0] == 0)
    if len(ls) != 1 or len(le) != 1 or len(lr) != 1:
        c.und(con, "loop not recognised")
        return
    alias = {ls[0][0]: "a", le[0][0]: "z", lr[0][0]: "r", tree: "t"}
    for (lp, st), text, what in ((ls[0], "a // 2", "lower end"), (le[0], "z // 2", "upper end"), (lr[0], "r + (a % 2 == 0) * t[a + 1] + (z % 2 == 1) * t[z - 1]", "sum")):
        for s in st:
            cn = IntCanon(fl, alias=alias)
            if what == "sum":
                g = cn.form(s)
                ws = [IntCanon(fl).form(parse("want = " + x)["want"]) for x in
                      (text, "r + (a % 2 != 1) * t[a + 1] + (z % 2 == 1) * t[z - 1]", "r + (a % 2 == 0) * t[a + 1] + (z % 2 != 0) * t[z - 1]", "r + (a % 2 != 1) * t[a + 1] + (z % 2 != 0) * t[z - 1]")]
                c.decide(g in ws if not unknowns(cn) else None, f"{con}/{what}", fl.entry.where, f"an iteration adds {cn.ps(g)}")
            else:
                _same(c, cn, s, text, f"{con}/{what}", fl.entry.where, f"the {what} moves to")
    for b in nodes(fl, "branch"):
        cond, pos = canon_cond(b.d["cond"])
        if cond.k == "cmp" and cond.a[0] in ("<", "<=", ">", ">=") and _depends(fl, cond, le[0][0]):
            cn = IntCanon(fl, alias=alias)
            g = cn.cond(cond)
            w = IntCanon(fl).form(parse("want = z - a > 1")["want"])
            c.decide(g in (w, Poly.c(1) - w) if not unknowns(cn) else None, con + "/while not empty", b.where, f"nodes are added while {show(cond)}")
    for r in [n for n in nodes(fl, "return") if len(n.stack) == 1]:
        c.decide(True if r.d["value"] is lr[0][0] else None, con + "/result", r.where, "")


@rule("B05")
def leaves_are_addressed_consistently(c):
    """Reading, writing, searching and summing use the same place for the leaf of an index: index + bound, in an array of twice the bound, where the bound is a power of two not below the size."""
    cls = c.p.cls(ST)
    opq = ("_setitem", "_reduce", "_get_prefix_sum_idx", "_compile")
    fl = c.flow("__init__", cls, opaque=opq)
    B = Term("attr", SELF, "_bound")
    size = Term("param", fl.entry.params()[1])
    for n in setattrs(fl, "_bound", base=SELF):
        v = n.d["value"]
        if v.k != "loopphi":
            c.und("SegmentTree.__init__/bound", show(v))
            continue
        vs = fl.loops[v]
        cn = IntCanon(fl, alias={v: "b", size: "n"})
        st = [x for x in vs if _depends(fl, x, v)]
        for s in st:
            _same(c, cn, s, "2 * b", "SegmentTree.__init__/power of two", n.where, "the bound grows to")
        for x in vs:
            if x not in st:
                c.decide(x.k == "const" and isinstance(x.a[0], int) and x.a[0] > 0 and x.a[0] & (x.a[0] - 1) == 0 if x.k == "const" else None, "SegmentTree.__init__/power of two", n.where, f"the bound starts at {show(x)}")
        for b in nodes(fl, "branch"):
            cond, pos = canon_cond(b.d["cond"])
            if cond.k == "cmp" and _depends(fl, cond, v):
                g = IntCanon(fl, alias={v: "b", size: "n"}).cond(cond)
                w = [IntCanon(fl).form(parse("want = " + t)["want"]) for t in ("b < n", "b <= n")]
                c.decide(g in w + [Poly.c(1) - x for x in w], "SegmentTree.__init__/not below the size", b.where, f"the bound grows while {show(cond)}")
        for m in setattrs(fl, "_value", base=SELF):
            z = m.d["value"]
            if is_call(z, "zeros") and z.a[1]:
                d = z.a[1][0]
                d = d.a[0][0] if d.k in ("list", "tuple") and len(d.a[0]) == 1 else d
                g = IntCanon(fl, alias={v: "b", B: "b", size: "n"}).form(d)
                have = [IntCanon(fl).form(parse(f"want = {k} * b")["want"]) for k in range(2, 5)]
                c.decide(True if g in have else (False if "n" in repr(g.atoms()) or g == IntCanon(fl).form(Term("param", "b")) else None), "SegmentTree.__init__/room", m.where,
                         "the array has no room for the inner nodes and the leaves")
    V = Term("attr", SELF, "_value")
    fl = c.flow("__getitem__", cls, opaque=opq)
    ix = Term("param", fl.entry.params()[1])
    for r in [n for n in nodes(fl, "return") if len(n.stack) == 1]:
        _same(c, IntCanon(fl, alias={ix: "i", B: "b", V: "t"}), r.d["value"], "t[i + b]", "SegmentTree.__getitem__", r.where, "the value of an index is")

    def plain(fl, t, p):
        return all(x is p or is_call(x, "array", "asarray", "atleast_1d") and p in (x.a[1][0], *(x.a[1][0].a[0] if x.a[1][0].k in ("list", "tuple") else ())) for x in values(fl, t))

    def offset(fl, t, p, k, con, where, what):
        """t == p + bound + k with p the caller's value."""
        al = {B: "b"}
        for x in subterms(t):
            if x.k in ("phi", "param", "call") and plain(fl, x, p):
                al[x] = "i"
        _same(c, IntCanon(fl, alias=al), t, f"i + b + {k}" if k >= 0 else f"i + b - {-k}", con, where, what)
    fl = c.flow("__setitem__", cls, opaque=opq)
    ix, val = (Term("param", x) for x in fl.entry.params()[1:3])
    for n in calls(fl, "_setitem"):
        a = n.d["args"]
        if len(a) != 3:
            c.und("SegmentTree.__setitem__", "call form")
            continue
        c.decide(True if a[0] is V else None, "SegmentTree.__setitem__/tree", n.where, "")
        offset(fl, a[1], ix, 0, "SegmentTree.__setitem__/leaf", n.where, "the leaf written is")
        c.decide(True if plain(fl, a[2], val) else (False if a[2].k == "bin" else None), "SegmentTree.__setitem__/value", n.where, f"the value written is {show(a[2])}")
    fl = c.flow("get_prefix_sum_idx", cls, opaque=opq)
    val = Term("param", fl.entry.params()[1])
    for n in calls(fl, "_get_prefix_sum_idx"):
        a = n.d["args"]
        if len(a) != 3:
            c.und("SegmentTree.get_prefix_sum_idx", "call form")
            continue
        c.decide(True if plain(fl, a[0], val) else None, "SegmentTree.get_prefix_sum_idx/value", n.where, "")
        c.decide(a[1] is B if a[1].k in ("attr", "const", "bin") else None, "SegmentTree.get_prefix_sum_idx/bound", n.where, f"the search stops at {show(a[1])}")
        c.decide(True if a[2] is V else None, "SegmentTree.get_prefix_sum_idx/tree", n.where, "")
    fl = c.flow("reduce", cls, opaque=opq)
    st, en = (Term("param", x) for x in fl.entry.params()[1:3])
    for n in calls(fl, "_reduce"):
        a = n.d["args"]
        if len(a) != 3:
            c.und("SegmentTree.reduce", "call form")
            continue
        _same(c, IntCanon(fl, alias={st: "i", B: "b"}), a[1], "i + b - 1", "SegmentTree.reduce/from", n.where, "the sum starts after")
        e = a[2]
        al = {B: "b"}
        for x in subterms(e):
            if x.k in ("phi",) and en in values(fl, x):
                al[x] = "i"
        if any(v == "i" for v in al.values()):
            _same(c, IntCanon(fl, alias=al), e, "i + b", "SegmentTree.reduce/to", n.where, "the sum ends before")
    for r in [n for n in nodes(fl, "return") if len(n.stack) == 1]:
        for v in values(fl, r.d["value"]):
            if v.k == "sub" and v.a[0] is V:
                c.decide(v.a[1] is const(1) if v.a[1].k == "const" else None, "SegmentTree.reduce/total", r.where, f"the total is read at {show(v.a[1])}")
