"""B12: concatenating, stacking, adding, assigning, blanking and extending batches, key by key and row by row."""
from __future__ import annotations

from ..core import rule
from ..flow import FALSE, NONE, TRUE, Term, canon_cond, const, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import Poly, arg, calls, closure, comp_filter, describe, find_path, nodes, poly, reachable, setsubs, skey, values
from .util import REORDERS, SELF, A, P, assume, both, each_src, edge_succ, live, resolve, returned, truths

D = A("__dict__")


def B(c):
    return c.p.cls("tianshou.data.batch.Batch")


def entry_key(t):
    """Key k when t denotes the receiver's entry k (self.__dict__[k], self[k], loop value of self.items())."""
    if t.k == "sub" and t.a[0] in (D, SELF):
        return t.a[1]
    if t.k == "val" and own_items(t.a[0]):
        return Term("key", t.a[0], t.a[1])
    return None


def own_items(s):
    while is_call(s, "enumerate", "list", "tuple") and s.a[1]:
        s = s.a[1][0]
    return s in (SELF, D) or (is_call(s, "items") and s.a[0].k == "attr" and s.a[0].a[0] in (SELF, D))


def key_form(t):
    return (t.a[1],) if t.k in ("key", "elem") else t


def same_key(a, b):
    return a is b or (a.k in ("key", "elem") and b.k in ("key", "elem") and a.a[1] == b.a[1])


def emptiness(t, pred):
    """True if t says that something `pred` holds of is empty, False if it says it is not, None otherwise."""
    def sized(x):
        return is_call(x, "len") and x.a[1] and any(pred(y) for y in subterms(x.a[1][0]))
    if sized(t) or (is_call(t, "get_keys", "keys", "bool") and any(pred(y) for y in subterms(t))):
        return False
    if t.k == "cmp" and len(t.a) == 3:
        o, l, r = t.a
        if o == "==" and const(0) in (l, r) and (sized(l) or sized(r)):
            return True
        if o == "<" and sized(l) and r is const(1) or o == "<=" and sized(l) and r is const(0):
            return True
        if o == "<" and l is const(0) and sized(r) or o == "<=" and l is const(1) and sized(r):
            return False
    return None


def kinds(ent):
    """val(atom) for 'this entry is of kind K'."""
    def typ(t):
        s = skey(t)
        out = set()
        if "Tensor" in s:
            out.add("tensor")
        if "ndarray" in s:
            out |= {"num", "obj"}
        if "Batch" in s or "dict" in s:
            out.add("batch")
        return out

    def make(kind):
        def val(t):
            if is_call(t, "isinstance") and len(t.a[1]) == 2 and ent(t.a[1][0]):
                ks = typ(t.a[1][1])
                return kind in ks
            if is_call(t, "issubclass") and any(ent(x) for x in subterms(t.a[1][0])):
                s = skey(t.a[1][1])
                if "number" in s or "bool" in s:
                    return kind == "num" if kind in ("num", "obj") else None
            if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and any(ent(x) for x in t.a[1:]):
                return False
            if t.k == "cmp" and t.a[0] == "==" and any(x.k == "attr" and x.a[1] == "dtype" and ent(x.a[0]) for x in t.a[1:]):
                if any("object" in skey(x) for x in t.a[1:]):
                    return kind == "obj" if kind in ("num", "obj") else None
            emp = emptiness(t, ent)
            return not emp if emp is not None and kind == "batch" else None
        return val
    return make


def zero(v):
    return v.k == "const" and v.a[0] is not None and not isinstance(v.a[0], str) and v.a[0] == 0


def blank(v):
    return is_call(v, "Batch") and not v.a[1] and not v.a[2]


WANT = {"tensor": (zero, "0"), "num": (zero, "0"), "obj": (lambda v: v is NONE, "None"), "batch": (blank, "an empty Batch")}


# ------------------------------------------------------------------ assignment and blanking
@rule("B12")
def assigning_replaces_named_rows(c):
    """batch[index] = value: every entry's rows at index come from the entry of the same name, missing ones become zero/None/blank, unknown names are refused."""
    k = B(c)
    fl = c.flow("__setitem__", k, opaque=("_parse_value",))
    idx = P("index")
    rows = [n for n in setsubs(fl) if n.d["index"] is idx and entry_key(n.d["base"]) is not None]
    # setattr by name
    byname = [n for n in setsubs(fl) if n.d["base"] in (D,) and n.d["index"] is idx]
    isstr = lambda t: True if is_call(t, "isinstance") and t.a[1][0] is idx else None
    pth = find_path(fl.entry_node, fl.exit_node, byname, edge_ok=assume(lambda t: True if isstr(t) else None))
    c.decide(bool(byname) and pth is None, "setitem/by name", fl.entry.where, f"assigning an entry by name has no effect: {describe(pth)}")
    for n in byname:
        c.decide(P("value") in closure(fl, n.d["value"]), "setitem/by name value", n.where, f"{show(n.d['value'])} is stored")
    if not rows:
        c.und("setitem", "row assignment not recognised")
        return
    src = [n for n in rows if P("value") in closure(fl, n.d["value"]) and n.d["value"].k in ("sub", "call", "attr")]
    fill = [n for n in rows if n not in src]
    c.decide(bool(src), "setitem/rows", fl.entry.where, "no row is taken from the value")
    for n in src:
        key = entry_key(n.d["base"])
        v = n.d["value"]
        if v.k == "sub":
            c.decide(same_key(v.a[1], key), "setitem/same name", n.where, f"entry {show(key)} receives {show(v)}")
        else:
            c.und("setitem/same name", show(v))
    ent = lambda t: entry_key(t) is not None
    mk = kinds(ent)
    for kind, (ok, what) in WANT.items():
        lv = reachable([fl.entry_node] + nodes(fl, "handler"), edge_ok=assume(mk(kind)))
        fs = [n for n in fill if n in lv]
        if not fs:
            c.decide(None if not fill else False, f"setitem/missing {kind}", fl.entry.where, f"rows of a missing {kind} entry keep their old data")
        for n in fs:
            v = resolve(n.d["value"], mk(kind))
            for w in values(fl, v):
                good = ok(w) or (kind in ("tensor", "num") and zero(w))
                c.decide(True if good else (False if w.k == "const" or blank(w) else None), f"setitem/missing {kind}", n.where, f"rows of a missing {kind} entry become {show(w)}, not {what}")
    # unknown names
    sub = lambda t: (is_call(t, "issubset") and P("value") in closure(fl, t)) or (t.k == "cmp" and t.a[0] in ("<=", "in") and P("value") in closure(fl, t) and D in closure(fl, t))
    bs = [b for b in nodes(fl, "branch") if sub(canon_cond(b.d["cond"])[0])]
    if not bs:
        c.decide(None, "setitem/unknown names", fl.entry.where, "no check for names the batch does not have")
    for b in bs:
        t, pol = canon_cond(b.d["cond"])
        if is_call(t, "issubset") and t.a[0].k == "attr" and t.a[1]:
            gl, gr = (P("value") in subterms(x) for x in (t.a[0].a[0], t.a[1][0]))
            own = lambda x: any(y in (D, SELF) for y in subterms(x))
            if gr and not gl and own(t.a[0].a[0]):
                c.bad("setitem/unknown names", b.where, "requires the value to have every entry of the batch, not the other way round")
                continue
        p2 = find_path(edge_succ(b, "F" if pol else "T"), rows + [fl.exit_node], skip_start=False)
        c.decide(p2 is None, "setitem/unknown names", b.where, f"entries the batch does not have are dropped silently: {describe(p2)}")
    # every entry is visited
    lps = [n for n in nodes(fl, "iter") if not n.d.get("comp") and any(find_path(edge_succ(n, "next"), r, skip_start=False) for r in rows)]
    for lp in lps:
        it = lp.d["it"]
        c.decide(True if own_items(it) or it in (D, SELF) or (is_call(it, "keys", "list") and any(x in (D, SELF) for x in subterms(it))) else (False if P("value") in closure(fl, it) and not any(x in (D,) for x in subterms(it)) and any(fill) is False else None),
                 "setitem/every entry", lp.where, f"runs over {show(it)}")
        p3 = find_path(edge_succ(lp, "next"), [fl.exit_node], [lp] + [n for n in nodes(fl, "raise")], skip_start=False)
        c.decide(p3 is None, "setitem/all entries", lp.where, f"entries after the first are not assigned: {describe(p3)}")


@rule("B12")
def blanking_reaches_every_entry(c):
    """empty_: the rows at index of every entry become zero (numbers), None (objects), nested batches are blanked at the same index."""
    k = B(c)
    fl = c.flow("empty_", k)
    idx = P("index")
    ent = lambda t: entry_key(t) is not None
    mk = kinds(ent)
    lps = [n for n in nodes(fl, "iter") if own_items(n.d["it"])]
    if not lps:
        c.und("empty_", "loop over the entries not recognised")
        return
    lp = lps[0]
    rows = [n for n in setsubs(fl) if entry_key(n.d["base"]) is not None]
    rec = [n for n in calls(fl, "empty_") if n.d["recv"] is not None and ent(n.d["recv"])]
    for kind in ("tensor", "num", "obj", "batch"):
        e = assume(mk(kind))
        lv = live(fl, mk(kind))
        acts = [n for n in (rec if kind == "batch" else rows) if n in lv]
        pth = find_path(edge_succ(lp, "next"), [lp, fl.exit_node], acts, skip_start=False, edge_ok=e)
        c.decide(bool(acts) and pth is None, f"empty_/{kind}", lp.where, f"a {kind} entry is not blanked: {describe(pth)}")
        for n in acts:
            if kind == "batch":
                c.decide(arg(n, 0, "index") is idx, "empty_/nested index", n.where, f"a nested batch is blanked at {show(arg(n, 0, 'index')) if arg(n, 0, 'index') is not None else 'every row'} instead of the index given")
                continue
            c.decide(n.d["index"] is idx or None if n.d["index"].k not in ("const", "slice") else False, f"empty_/{kind} rows", n.where, f"rows {show(n.d['index'])} are blanked")
            for w in values(fl, resolve(n.d["value"], mk(kind))):
                good = WANT[kind][0](w)
                c.decide(True if good else (False if w.k == "const" else None), f"empty_/{kind} value", n.where, f"a {kind} entry becomes {show(w)}, not {WANT[kind][1]}")
    early = find_path(edge_succ(lp, "next"), [fl.exit_node], [lp], skip_start=False)
    c.decide(early is None, "empty_/all entries", lp.where, f"blanking stops before the last entry: {describe(early)}")
    for v in values(fl, fl.ret_value):
        c.decide(True if v is SELF else None, "empty_/returns", fl.entry.where, show(v))
    fl = c.flow("empty", k, opaque=("empty_",))
    for n in calls(fl, "empty_"):
        c.decide(arg(n, 0, "index") is P("index"), "empty/index", n.where, "Batch.empty blanks other rows than asked for")


@rule("B12")
def update_takes_every_entry(c):
    """update: every entry given, positionally or by keyword, is stored under its own name."""
    k = B(c)
    fl = c.flow("update", k, opaque=("_parse_value",))
    st = [n for n in setsubs(fl) if n.d["base"] in (D, SELF)]
    lps = [n for n in nodes(fl, "iter") if is_call(n.d["it"], "items") or n.d["it"] is P("batch")]
    if not lps or not st:
        c.und("update", "loop over the given entries not recognised")
        return
    for lp in lps:
        pth = find_path(edge_succ(lp, "next"), [lp, fl.exit_node], st, skip_start=False)
        c.decide(pth is None, "update/every entry", lp.where, f"an entry is not stored: {describe(pth)}")
        early = find_path(edge_succ(lp, "next"), [fl.exit_node], [lp], skip_start=False)
        c.decide(early is None, "update/all", lp.where, f"stops before the last entry: {describe(early)}")
    for n in st:
        i, v = n.d["index"], n.d["value"]
        if i.k == "key":
            c.decide(True if any(t.k == "val" and t.a[1] == i.a[1] for t in subterms(v)) or any(t.k == "sub" and same_key(t.a[1], i) for t in subterms(v)) else (False if v.k == "const" else None), "update/own value", n.where, f"{show(i)} is set to {show(v)}")
        else:
            c.und("update/own value", show(i))
    kw = P("kwargs")
    up = [n for n in calls(fl, "update") if n.d["recv"] is SELF and any(kw in closure(fl, x) for x in list(n.d["args"]) + [v for _, v in n.d["kwt"]])]
    up += [n for n in lps if kw in closure(fl, n.d["it"])]
    given = lambda t: True if t is kw else None
    for nm, isn in (("only keywords", True), ("both", False)):
        val = lambda t, isn=isn: True if t is kw else (isn if t.k == "cmp" and t.a[0] == "is" and P("batch") in t.a[1:] and NONE in t.a[1:] else None)
        pth = find_path(fl.entry_node, fl.exit_node, up, edge_ok=assume(val))
        c.decide(bool(up) and pth is None, f"update/{nm}", fl.entry.where, f"entries given by keyword are ignored: {describe(pth)}")


# ------------------------------------------------------------------ arithmetic
@rule("B12")
def arithmetic_goes_entry_by_entry(c):
    """+= of a batch adds the entry of the same name; +=, *=, /= of a number change every (non-empty) entry with that number."""
    k = B(c)
    for m, op, par in (("__iadd__", "+", "other"), ("__imul__", "*", "value"), ("__itruediv__", "/", "value")):
        fl = c.flow(m, k, opaque=("_is_number",))
        par = fl.entry.params()[1]
        x = P(par)
        st = [n for n in setsubs(fl) if n.d["base"] in (D, SELF)]
        if not st:
            c.und(m, "no entry is changed in a recognised form")
            continue
        ent = lambda t: entry_key(t) is not None
        for isb in ((True, False) if m == "__iadd__" else (False,)):
            def val(t, isb=isb):
                if is_call(t, "isinstance") and t.a[1][0] is x:
                    return isb
                if is_call(t, "_is_number"):
                    return not isb
                return kinds(ent)("num")(t)

            def nest(t, val=val):
                return val(t) if is_call(t, "_is_number") or (is_call(t, "isinstance") and t.a[1][0] is x) else kinds(ent)("batch")(t)
            lv = live(fl, val)
            con = f"{m}/{'batch' if isb else 'number'}"
            act = [n for n in st if n in lv]
            lps = [n for n in nodes(fl, "iter") if n in lv and (own_items(n.d["it"]) or n.d["it"] in (D,) or any(y in (D, SELF) for y in subterms(n.d["it"]))) and any(find_path(edge_succ(n, "next"), a, [n], skip_start=False) for a in act)]
            if not lps or not act:
                c.und(con, "loop over the entries not recognised")
                continue
            for lp in lps:
                pth = find_path(edge_succ(lp, "next"), [lp, fl.exit_node], act, skip_start=False, edge_ok=assume(val))
                c.decide(pth is None, con + "/every entry", lp.where, f"an entry is left out: {describe(pth)}")
                pth = find_path(edge_succ(lp, "next"), [lp, fl.exit_node], act, skip_start=False, edge_ok=assume(nest))
                c.decide(pth is None, con + "/nested entries", lp.where, f"a nested batch that is not empty is left out: {describe(pth)}")
                pth = find_path(edge_succ(lp, "next"), [fl.exit_node], [lp], skip_start=False)
                c.decide(pth is None, con + "/all entries", lp.where, f"the entries after some entry are left out: {describe(pth)}")
                for a in act:
                    p2 = find_path(a, act, [lp])
                    c.decide(p2 is None, con + "/once", a.where, f"an entry is changed twice: {describe(p2)}")
            for n in act:
                key, v = n.d["index"], n.d["value"]
                if v.k not in ("bin", "ibin"):
                    c.und(con + "/operation", show(v))
                    continue
                o, l, r = v.a[0], v.a[1], v.a[2]
                c.decide(o == op, con + "/operation", n.where, f"an entry becomes {show(v)}")
                own = [t for t in (l, r) if entry_key(t) is not None]
                oth = [t for t in (l, r) if t not in own]
                if len(own) != 1 or (op == "/" and own[0] is not l):
                    c.und(con + "/operand", show(v))
                    continue
                c.decide(same_key(entry_key(own[0]), key), con + "/own entry", n.where, f"entry {show(key)} becomes {show(v)}")
                if not isb:
                    c.decide(True if oth[0] is x else (None if x in closure(fl, oth[0]) else False), con + "/operand", n.where, f"an entry is combined with {show(oth[0])}")
                    continue
                t = oth[0]
                if t.k == "sub" and t.a[0] in (x, Term("attr", x, "__dict__")):
                    c.decide(same_key(t.a[1], key), con + "/same name", n.where, f"entry {show(key)} is added to {show(t)}")
                elif is_call(t, "get", "pop", "__getitem__") and t.a[1]:
                    c.decide(same_key(t.a[1][0], key), con + "/same name", n.where, f"entry {show(key)} is added to {show(t)}")
                elif t.k in ("elem", "val"):
                    c.bad(con + "/same name", n.where, "entries are paired by their order, not by name: batches whose entries come in another order are added up wrongly")
                else:
                    c.und(con + "/same name", show(t))
            for v in returned(fl, val):
                c.decide(True if v is SELF else (False if v is NONE else None), con + "/result", fl.entry.where, f"the in-place operation evaluates to {show(v)}")


# ------------------------------------------------------------------ concatenation and stacking
def key_sources(t):
    """iterable over which the key (a loop element) runs."""
    return each_src(t)


def pairs_up(fl, key, v, batches):
    """Does v hold, in order, the entries `key` of all batches? True/False/None."""
    t = v
    if t.k == "elem":  # element of a list of lists running in parallel with the keys
        src = t.a[0]
        if src.k == "comp":
            if key.k in ("elem", "key") and t.a[1] != key.a[1]:
                return False
            inner = src.a[1]
            if len(src.a[2]) == 1 and key.k in ("elem", "key") and src.a[2][0] is not key.a[0]:
                return False
            if inner.k != "comp":
                return None
            innerkey = [x for x in subterms(inner) if x.k in ("elem", "key") and x.a[0] is src.a[2][0]]
            return in_order(fl, inner, batches, lambda x: x in innerkey)
        return None
    if t.k == "comp":
        return in_order(fl, t, batches, lambda x: same_key(x, key))
    if is_call(t, "reversed", "sorted") or (t.k == "sub" and t.a[1].k == "slice" and any(x is not NONE for x in t.a[1].a)):
        return False
    return None


def in_order(fl, comp, batches, iskey):
    f = comp_filter(fl, comp)
    if f is None or len(comp.a[2]) != 1:
        return None
    if f:
        return False
    it = comp.a[2][0]
    if it not in batches and not any(it is x for b in batches for x in values(fl, b)):
        if any(is_call(x, *REORDERS) or (x.k == "sub" and x.a[1].k == "slice") for x in subterms(it)):
            return False
        return None
    e = comp.a[1]
    if e.k == "sub" and each_src(e.a[0]) is it:
        return True if iskey(e.a[1]) else None
    if is_call(e, "get", "__getitem__") and e.a[1]:
        return True if iskey(e.a[1][0]) else None
    return None


@rule("B12")
def concatenation_keeps_operand_order(c):
    """__cat: shared entries are concatenated in operand order; entries only some operands have are laid out at those operands' rows, zero elsewhere."""
    k = B(c)
    fl = c.flow("__cat", k, opaque=("create_value", "_to_array_with_correct_type"))
    pb, pl = (P(x) for x in fl.entry.params()[1:3])
    st = [n for n in setsubs(fl) if n.d["base"] in (D, SELF)]
    n_sh = 0
    for n in st:
        key, v = n.d["index"], n.d["value"]
        for w in values(fl, v):
            while is_call(w, "_to_array_with_correct_type") and w.a[1]:
                w = w.a[1][0]
            if is_call(w, "cat", "concatenate", "stack", "vstack", "hstack"):
                n_sh += 1
                if is_call(w, "stack", "vstack", "hstack"):
                    c.bad("cat/shared operation", n.where, f"operands are joined by {show(w)}")
                    continue
                ax = dict(w.a[2]).get("axis", dict(w.a[2]).get("dim", w.a[1][1] if len(w.a[1]) > 1 else const(0)))
                c.decide(True if ax is const(0) else (False if ax.k == "const" else None), "cat/rows", n.where, f"operands are joined along axis {show(ax)}")
                r = pairs_up(fl, key, w.a[1][0], [pb])
                c.decide(r, "cat/shared order", n.where, f"entry {show(key)[:60]} holds {show(w)[:160]}, not the operands' rows in order")
    rec = [n for n in calls(fl, "__cat") if n.d["recv"] is not SELF]
    for n in rec:
        n_sh += 1
        a0, a1 = arg(n, 0, "batches"), arg(n, 1, "lens")
        c.decide(True if a1 is pl else (False if a1 is None or pl not in closure(fl, a1) else None), "cat/nested lengths", n.where, "nested entries are laid out with other lengths than the operands'")
        ks = [s for s in st if n.d["recv"] in values(fl, s.d["value"])]
        c.decide(bool(ks) or None, "cat/nested stored", n.where, "the joined nested entries are not stored")
        for s in ks:
            c.decide(pairs_up(fl, s.d["index"], a0, [pb]), "cat/nested order", n.where, f"nested operands are joined as {show(a0)[:160]}")
    if not n_sh:
        c.und("cat/shared", "no joining of shared entries recognised")
    # partial entries
    rows = [n for n in setsubs(fl) if n.d["base"].k == "sub" and n.d["base"].a[0] in (D, SELF) and n.d["index"].k == "slice"]
    for n in rows:
        key = n.d["base"].a[1]
        lo, hi, stp = n.d["index"].a
        v = n.d["value"]
        bt = [t for t in subterms(v) if t.k == "elem" and t.a[0] is pb]
        if bt and (lo is NONE or lo.k == "const"):
            c.bad("cat/partial rows", n.where, f"the rows of every operand go to the rows from {show(lo)} on")
            continue
        if bt and lo.k == "sub":
            # whatever its end is: the block starts where the operand's rows start
            at0 = lambda t, lids={b.a[1] for b in bt}: "i" if t.k == "idx" and t.a[1] in lids else None
            a0 = poly(lo.a[1], at0)
            f0 = prefix_sums(fl, lo.a[0], pl)
            if not (a0.atoms() - {"i"}) and f0 is not None and (f0 != 0 or a0 != Poly.x("i")):
                c.bad("cat/partial rows", n.where, f"the rows of operand i start at [{a0}] of the cumulated lengths {show(lo.a[0])}" + ("" if f0 == 0 else ", which do not add up the operands' lengths from zero"))
                continue
        if not (lo.k == "sub" and hi.k == "sub" and lo.a[0] is hi.a[0]) or not bt:
            c.und("cat/partial rows", show(n.d["index"]))
            continue
        lids = {b.a[1] for b in bt}
        at = lambda t, lids=lids: "i" if t.k == "idx" and t.a[1] in lids else None
        a, b = poly(lo.a[1], at), poly(hi.a[1], at)
        odd = (a.atoms() | b.atoms()) - {"i"}
        s = lo.a[0]
        form = prefix_sums(fl, s, pl)
        if odd or form is None:
            c.und("cat/partial rows", f"{show(n.d['index'])} of {show(s)}")
            continue
        want = Poly.x("i") if form == 0 else None
        c.decide(form == 0 and a == want and b == want + Poly.c(1), "cat/partial rows", n.where,
                 f"the rows of operand i go to [{a}] .. [{b}] of the cumulated lengths {show(s)}" + ("" if form == 0 else ", which do not add up the operands' lengths from zero"))
        kk = [t for t in subterms(v) if t.k in ("elem", "key") and t is key]
        c.decide(True if kk else None, "cat/partial same entry", n.where, show(v))
    for n in st:
        for w in values(fl, n.d["value"]):
            if is_call(w, "create_value"):
                sz = w.a[1][1] if len(w.a[1]) > 1 else dict(w.a[2]).get("size")
                stk = w.a[1][2] if len(w.a[1]) > 2 else dict(w.a[2]).get("stack", TRUE)
                c.decide(True if stk is FALSE else (False if stk is TRUE else None), "cat/partial shape", n.where, "room for a partial entry is made as if operands were stacked")
                if sz is None:
                    continue
                tot = sz.k == "sub" and sz.a[1] is const(-1) and prefix_sums(fl, sz.a[0], pl) == 0 or (is_call(sz, "sum") and sz.a[1][0] is pl)
                wrong = is_call(sz, "len") or (sz.k == "sub" and sz.a[1].k == "const" and prefix_sums(fl, sz.a[0], pl) is not None)
                c.decide(True if tot else (False if wrong else None), "cat/partial size", n.where, f"a partial entry has {show(sz)} rows")
                nxt = [m for m in nodes(fl, "iter") if not m.d.get("comp")]
                pth = find_path(n, nxt + [fl.exit_node], rows)
                c.decide(pth is None, "cat/partial data", n.where, f"room is made for an entry but the operand's rows are not put there: {describe(pth)}")
    blanks = [n for n in st if blank(n.d["value"]) and n.d["value"] not in [r.d["recv"] for r in rec]]
    for n in blanks:
        c.ok("cat/reserved")


def prefix_sums(fl, s, lens):
    """0 if s = [0, l0, l0+l1, ...]; other value: wrong; None: not recognised."""
    if s.k == "list" and len(s.a[0]) == 1 and s.a[0][0].k == "const":
        ap = [n for n in calls(fl, "append") if n.d["recv"] is s]
        if len(ap) == 1 and ap[0].d["args"]:
            e = [t for t in subterms(ap[0].d["args"][0]) if t.k == "elem" and t.a[0] is lens]
            if not e:
                return None
            last = Term("sub", s, const(-1))
            pl = poly(ap[0].d["args"][0], lambda t: "last" if t is last else ("len" if t in e else ("other" if t.k == "sub" and t.a[0] is s and t.a[1].k == "const" else None)))
            if pl.atoms() - {"last", "len", "other"}:
                return None
            if pl != Poly.x("last") + Poly.x("len"):
                return 1
            return s.a[0][0].a[0]
    return None


def guarded(fl, val, put):
    """Is every path that runs the loop around `put` cut by a raise under the assumption?  The guard may also test
    whether there are any partial entries, i.e. whether the iterated set is empty."""
    lps = [n for n in nodes(fl, "iter") if not n.d.get("comp") and any(find_path(edge_succ(n, "next"), p, [n], skip_start=False) for p in put)]
    outer = [n for n in lps if not any(find_path(edge_succ(m, "next"), n, [m], skip_start=False) for m in lps if m is not n)]
    for lp in outer:
        it = lp.d["it"]
        while is_call(it, "enumerate", "list", "tuple", "sorted", "iter") and it.a[1]:
            it = it.a[1][0]
        both_ = lambda t, it=it: val(t) if val(t) is not None else (True if t is it or (is_call(t, "len", "bool") and t.a[1] and t.a[1][0] is it) else None)
        if find_path(fl.entry_node, lp, [], edge_ok=assume(both_)) is not None:
            return False
    return True if outer else None


@rule("B12")
def in_place_forms_put_the_receiver_first(c):
    """cat_ and stack_ of a non-empty batch put its own rows before the operands', with the matching lengths; empty operands are left out, others never."""
    k = B(c)
    def nonempty(t):
        emp = emptiness(t, lambda y: y in (SELF, D))
        return None if emp is None else not emp

    def full(t):
        emp = emptiness(t, lambda y: True)
        return None if emp is None else not emp
    fl = c.flow("cat_", k, opaque=("apply_values_transform", "replace_empty_batches_by_none", "__cat"))
    cs = [n for n in calls(fl, "__cat") if n.d["recv"] is SELF]
    c.decide(bool(cs), "cat_/joins", fl.entry.where, "cat_ never joins anything")
    for n in cs:
        a0, a1 = (resolve(x, nonempty) for x in (arg(n, 0, "batches"), arg(n, 1, "lens")))
        for nm, t in (("operands", a0), ("lengths", a1)):
            for v in values(fl, t):
                if v.k == "list" and v.a[0] and any(x.k == "star" for x in v.a[0]):
                    first = v.a[0][0]
                    me = SELF in subterms(first)
                    c.decide(me, f"cat_/receiver first {nm}", n.where, f"with a non-empty receiver the {nm} are {show(v)[:120]}")
                elif v.k in ("bin",) and v.a[0] == "+":
                    c.decide(SELF in subterms(v.a[1]), f"cat_/receiver first {nm}", n.where, f"with a non-empty receiver the {nm} are {show(v)[:120]}")
                elif v.k in ("list", "comp") and SELF not in subterms(v):
                    c.bad(f"cat_/receiver first {nm}", n.where, f"the receiver's own rows are lost: the {nm} are {show(v)[:120]}")
                else:
                    c.und(f"cat_/receiver first {nm}", show(v)[:120])
    lps = [n for n in nodes(fl, "iter") if not n.d.get("comp") and P("batches") in closure(fl, n.d["it"])]
    app = [n for n in calls(fl, "append", "extend")]
    for lp in lps[:1]:
        pth = find_path(edge_succ(lp, "next"), [lp], app, skip_start=False, edge_ok=assume(full))
        c.decide(bool(app) and pth is None, "cat_/every operand", lp.where, f"a non-empty operand is left out: {describe(pth)}")
    fl = c.flow("stack_", k, opaque=("create_value", "_to_array_with_correct_type", "stack"))
    ax = P("axis")
    lps = [n for n in nodes(fl, "iter") if not n.d.get("comp") and n.d["it"] is P("batches")]
    app = [n for n in calls(fl, "append", "extend")]
    for lp in lps[:1]:
        pth = find_path(edge_succ(lp, "next"), [lp], app, skip_start=False, edge_ok=assume(full))
        c.decide(bool(app) and pth is None, "stack_/every operand", lp.where, f"a non-empty operand is left out: {describe(pth)}")
    st = [n for n in setsubs(fl) if n.d["base"] in (D, SELF)]
    n_sh = 0
    bs = []
    for n in nodes(fl, "iter"):
        for v in values(fl, resolve(n.d["it"], nonempty)):
            if v.k == "list" and any(x is SELF for x in v.a[0]):
                if n.d["it"] not in bs:
                    bs.append(n.d["it"])
                    c.decide(v.a[0][0] is SELF, "stack_/receiver first", n.where, f"operands are taken in the order {show(v)}")
    for n in st:
        key = n.d["index"]
        for w in values(fl, n.d["value"]):
            while is_call(w, "_to_array_with_correct_type") and w.a[1]:
                w = w.a[1][0]
            if is_call(w, "stack", "cat", "concatenate"):
                n_sh += 1
                if not is_call(w, "stack"):
                    c.bad("stack_/operation", n.where, f"operands are joined by {show(w)[:100]}")
                    continue
                a_ = dict(w.a[2]).get("axis", dict(w.a[2]).get("dim", w.a[1][1] if len(w.a[1]) > 1 else const(0)))
                c.decide(True if a_ is ax else (False if a_.k == "const" else None), "stack_/axis", n.where, f"entries are stacked along axis {show(a_)} instead of the one asked for")
                r = pairs_up(fl, key, w.a[1][0], bs) if bs else None
                c.decide(r, "stack_/order", n.where, f"entry {show(key)[:60]} holds {show(w)[:160]}, not the operands' in order")
            if is_call(w, "create_value"):
                sz = w.a[1][1] if len(w.a[1]) > 1 else dict(w.a[2]).get("size")
                stk = w.a[1][2] if len(w.a[1]) > 2 else dict(w.a[2]).get("stack", TRUE)
                c.decide(True if stk is TRUE else (False if stk is FALSE else None), "stack_/partial shape", n.where, "room for a partial entry is made as if operands were concatenated")
                if sz is not None and is_call(sz, "len"):
                    some = [x for b in bs for x in values(fl, b) if x.k == "list" and SELF not in x.a[0]]
                    c.decide(True if sz.a[1][0] in bs else (False if sz.a[1][0] in some or sz.a[1][0] is P("batches") else None), "stack_/partial size", n.where, f"a partial entry has {show(sz)} rows, without the receiver's")
    if not n_sh:
        c.und("stack_", "no stacking recognised")
    makes = [n for n in st if any(is_call(w, "create_value") for w in values(fl, n.d["value"]))]
    put = [n for n in setsubs(fl) if n.d["base"].k == "sub" and n.d["base"].a[0] in (D, SELF)]
    for n in makes:
        pth = find_path(n, [m for m in nodes(fl, "iter") if not m.d.get("comp")] + [fl.exit_node], put)
        c.decide(pth is None, "stack_/partial data", n.where, f"room is made for an entry but the operand's value is not put there: {describe(pth)}")
    for k_ in (1, -1):
        def axis(t, k_=k_):
            if t is ax:
                return bool(k_)
            if t.k == "cmp" and len(t.a) == 3 and ax in t.a[1:]:
                l, r = ((const(k_) if x is ax else x) for x in t.a[1:])
                if l.k == r.k == "const" and isinstance(l.a[0], int) and isinstance(r.a[0], int):
                    l, r = l.a[0], r.a[0]
                    return {"==": l == r, "<": l < r, "<=": l <= r, "is": l == r}.get(t.a[0])
            return None
        pth = find_path(fl.entry_node, put, [], edge_ok=assume(axis))
        # the rows are only reached when some entry is partial: a raise for those must cover every other axis
        g = [b for b in nodes(fl, "branch") if any(ax in subterms(x) for x in [b.d["cond"]])]
        c.decide(True if pth is None else (None if not g else guarded(fl, axis, put)), f"stack_/partial axis {k_}", fl.entry.where, f"entries of only some operands are laid out along axis 0 although axis {k_} was asked for: {describe(pth)}")
    for n in setsubs(fl):
        if n.d["base"].k == "sub" and n.d["base"].a[0] in (D, SELF):
            i, v = n.d["index"], n.d["value"]
            bt = [t for t in subterms(v) if t.k == "elem" and t.a[0] in bs]
            if i.k == "idx" and bt:
                c.decide(any(i.a[1] == t.a[1] for t in bt), "stack_/partial row", n.where, f"{show(v)[:80]} goes to row {show(i)}")
            elif bt:
                pl = poly(i, lambda t: "i" if t.k == "idx" and any(t.a[1] == b.a[1] for b in bt) else None)
                c.decide(False if pl.atoms() <= {"i"} else None, "stack_/partial row", n.where, f"the entry of operand i goes to row {pl}")


# ------------------------------------------------------------------ place holders
@rule("B12")
def place_holders_fit(c):
    """create_value makes room of the right size, shape, type and device, filled with zero or None; missing entries are added, existing data never replaced."""
    q = "tianshou.data.batch.create_value"
    fl = c.flow(q, opaque=("_is_scalar",))
    inst, size, stack = P("inst"), P("size"), P("stack")
    ent = lambda t: t is inst
    mk = kinds(ent)
    sh = Term("attr", inst, "shape")
    for stk in (True, False):
        for kind in ("tensor", "num", "obj"):
            val = lambda t, stk=stk, kind=kind: stk if t is stack else (False if is_call(t, "_is_scalar") else mk(kind)(t))
            con = f"create_value/{'stack' if stk else 'cat'} {kind}"
            rs = returned(fl, val)
            if not rs:
                c.und(con, "no result")
            for r in rs:
                if not is_call(r, "full", "zeros", "empty", "full_like", "zeros_like"):
                    c.und(con, show(r)[:100])
                    continue
                s = r.a[1][0] if r.a[1] else dict(r.a[2]).get("shape", dict(r.a[2]).get("size"))
                s = resolve(s, val)
                while s.k == "phi":
                    live_ = [x for x in s.a[0] if x.k != "undef"]
                    if len(live_) != 1:
                        break
                    s = live_[0]
                if s.k == "tuple" and len(s.a[0]) == 2 and s.a[0][1].k == "star":
                    rest = s.a[0][1].a[0]
                    want = rest is sh if stk else (rest.k == "sub" and rest.a[0] is sh and rest.a[1].k == "slice" and rest.a[1].a[0] is const(1) and rest.a[1].a[1] is NONE)
                    known = rest is sh or (rest.k == "sub" and rest.a[0] is sh)
                    c.decide(s.a[0][0] is size, con + "/rows", fl.entry.where, f"room for {show(s.a[0][0])} rows")
                    c.decide(True if want else (False if known else None), con + "/shape", fl.entry.where, f"a row has shape {show(rest)}")
                else:
                    c.und(con + "/shape", show(s)[:100])
                fv = dict(r.a[2]).get("fill_value", r.a[1][1] if len(r.a[1]) > 1 else None)
                if is_call(r, "full"):
                    fv = resolve(fv, lambda t: (kind == "obj") if t.k == "cmp" and t.a[0] == "==" and any("object" in skey(x) for x in t.a[1:]) else val(t))
                    for w in values(fl, fv):
                        good = WANT[kind][0](w)
                        c.decide(True if good else (False if w.k == "const" else None), con + "/fill", fl.entry.where, f"filled with {show(w)}, not {WANT[kind][1]}")
                else:
                    c.decide(False if is_call(r, "empty") else (True if kind != "obj" else None), con + "/fill", fl.entry.where, f"rows without data hold {show(r)[:60]}")
                kw = dict(r.a[2])
                if kind == "tensor":
                    for nm in ("dtype", "device"):
                        c.decide(True if kw.get(nm) is Term("attr", inst, nm) else (False if nm not in kw else None), f"{con}/{nm}", fl.entry.where, f"the {nm} of the entry is not kept")
                elif kind == "num":
                    dt = kw.get("dtype")
                    dt = resolve(dt, val) if dt is not None else None
                    c.decide(False if dt is None else (True if inst in subterms(dt) else (False if dt.k in ("global", "const") else None)), con + "/dtype", fl.entry.where, f"the type of the entry is not kept: {show(dt) if dt is not None else 'default type'}")
    val = lambda t: False if is_call(t, "_is_scalar") else mk("batch")(t)
    lv = live(fl, val)
    for n in setsubs(fl):
        if n in lv:
            for t in subterms(n.d["value"]):
                if is_call(t, "create_value"):
                    kw = dict(t.a[2])
                    a = [t.a[1][i] if i < len(t.a[1]) else kw.get(nm) for i, nm in enumerate(("inst", "size", "stack"))]
                    c.decide(a[1] is size and a[2] is stack, "create_value/nested", n.where, f"nested entries get room {show(t)}")
                    c.decide(a[0].k == "val" and n.d["index"].k == "key" and a[0].a[1] == n.d["index"].a[1] or (a[0].k == "sub" and same_key(a[0].a[1], n.d["index"])) or None, "create_value/nested name", n.where, show(n.d["index"]))
    # alloc_by_keys_diff
    fl = c.flow("tianshou.data.batch.alloc_by_keys_diff", opaque=("create_value",))
    meta, bat = (P(x) for x in fl.entry.params()[:2])
    st = [n for n in setsubs(fl) if n.d["base"] is meta]
    if not st:
        c.und("alloc", "no entry added")
        return
    lps = [n for n in nodes(fl, "iter") if bat in subterms(n.d["it"])]

    def mkval(present, mbatch, bbatch, mempty):
        def val(t):
            if t.k == "cmp" and t.a[0] == "in" and meta in subterms(t.a[2]):
                return present
            if is_call(t, "isinstance"):
                if meta in subterms(t.a[1][0]):
                    return mbatch
                if bat in subterms(t.a[1][0]):
                    return bbatch
            emp = emptiness(t, lambda y: y is meta)
            return None if emp is None or mempty is None else emp == mempty
        return val
    rec = calls(fl, "alloc_by_keys_diff")
    for lp in lps[:1]:
        for nm, v, want in (("missing", mkval(False, None, None, None), st), ("both nested", mkval(True, True, True, False), rec), ("blank", mkval(True, True, False, True), st)):
            pth = find_path(edge_succ(lp, "next"), [lp, fl.exit_node], want, skip_start=False, edge_ok=assume(v))
            c.decide(pth is None and bool(want), f"alloc/{nm}", lp.where, f"no room is made for a {nm} entry: {describe(pth)}")
        v = mkval(True, False, None, None)
        pth = find_path(edge_succ(lp, "next"), st, [lp], skip_start=False, edge_ok=assume(v))
        c.decide(pth is None, "alloc/keeps data", lp.where, f"existing data is replaced by place holders: {describe(pth)}")
        v = mkval(True, True, False, False)
        pth = find_path(edge_succ(lp, "next"), st, [lp], skip_start=False, edge_ok=assume(v))
        c.decide(pth is None, "alloc/keeps nested data", lp.where, f"existing nested data is replaced by place holders: {describe(pth)}")
    for n in st + rec:
        t = n.d["value"] if n.kind == "setsub" else n.d["term"]
        if n.kind == "setsub" and not is_call(t, "create_value"):
            c.und("alloc/room", show(t))
            continue
        names = ("inst", "size", "stack") if n.kind == "setsub" else ("meta", "batch", "size", "stack")
        kw = dict(t.a[2])
        a = {nm: (t.a[1][i] if i < len(t.a[1]) else kw.get(nm)) for i, nm in enumerate(names)}
        c.decide(a["size"] is P("size") and a["stack"] is P("stack"), "alloc/size", n.where, f"room is made by {show(t)}")
        src = a["inst"] if n.kind == "setsub" else a["batch"]
        if n.kind == "setsub" and src.k == "sub":
            c.decide(src.a[0] is bat and same_key(src.a[1], n.d["index"]), "alloc/like", n.where, f"entry {show(n.d['index'])} is modelled on {show(src)}")


@rule("B12")
def setting_part_of_an_entry(c):
    """set_array_at_key with an index changes only those rows; a new entry starts out with the default value in every row."""
    k = B(c)
    fl = c.flow("set_array_at_key", k)
    key, arr, idx = P("key"), P("arr"), P("index")
    noidx = lambda on: (lambda t: on if t.k == "cmp" and t.a[0] == "is" and idx in t.a[1:] and NONE in t.a[1:] else None)
    full = [n for n in setsubs(fl) if n.d["base"] in (SELF, D) and n.d["index"] is key]
    part = [n for n in setsubs(fl) if n.d["index"] is idx and n.d["base"].k == "sub" and n.d["base"].a[0] in (SELF, D) and n.d["base"].a[1] is key]
    allrows = [n for n in setsubs(fl) if n not in part and n.d["base"].k == "sub" and n.d["base"].a[0] in (SELF, D) and n.d["base"].a[1] is key and n.d["value"] is arr and n in live(fl, noidx(False))]
    for n in allrows:
        i = n.d["index"]
        c.decide(False if i.k == "const" or (i.k == "slice" and idx not in closure(fl, i)) else None, "set_array_at_key/rows given", n.where, f"the array is written to the rows {show(i)} instead of those given")
    if not full or not part:
        c.und("set_array_at_key", "storing not recognised")
        return
    lv = live(fl, noidx(False))
    pth = find_path(fl.entry_node, fl.exit_node, part, edge_ok=assume(noidx(False)))
    c.decide(pth is None, "set_array_at_key/rows", fl.entry.where, f"the rows given are not stored: {describe(pth)}")
    for n in part:
        c.decide(True if n.d["value"] is arr else None, "set_array_at_key/rows value", n.where, show(n.d["value"]))
    for n in full:
        if n in lv:
            v = n.d["value"]
            c.decide(True if P("default_value") in closure(fl, v) else (False if is_call(v, "zeros", "empty", "zeros_like") or v is arr or {x.a[0] for x in subterms(v) if x.k == "param"} <= {"arr", "self"} else None), "set_array_at_key/default", n.where, f"rows that are not set become {show(v)} instead of the default value")
            lens = [x for x in subterms(v) if is_call(x, "len") and x.a[1]]
            if any(x.a[1][0] is arr for x in lens):
                c.bad("set_array_at_key/default length", n.where, "a new entry gets as many rows as there are values to set, not one per row of the batch")
            elif any(x.a[1][0] is SELF for x in lens):
                c.ok("set_array_at_key/default length")
            ex = lambda t: True if t.k == "cmp" and t.a[0] == "in" and t.a[1] is key else None
            hit = n in live(fl, lambda t: noidx(False)(t) if noidx(False)(t) is not None else ex(t))
            c.decide(not hit, "set_array_at_key/keeps rows", n.where, "setting some rows of an existing entry overwrites the others")
    lv = live(fl, noidx(True))
    pth = find_path(fl.entry_node, fl.exit_node, full, edge_ok=assume(noidx(True)))
    c.decide(pth is None, "set_array_at_key/whole", fl.entry.where, f"the array given is not stored: {describe(pth)}")
    for n in full:
        if n in lv:
            c.decide(True if n.d["value"] is arr else None, "set_array_at_key/whole value", n.where, show(n.d["value"]))
            ln = [b for b in nodes(fl, "branch") if b in lv and canon_cond(b.d["cond"])[0].k == "cmp" and all(is_call(x, "len") for x in canon_cond(b.d["cond"])[0].a[1:])]
            pth = find_path(fl.entry_node, n, ln, edge_ok=assume(noidx(True)))
            c.decide(pth is None, "set_array_at_key/length", n.where, "an array of another length is stored without notice")


@rule("B12")
def rows_with_missing_values_are_dropped(c):
    """dropnull keeps exactly the rows without missing values, in order; hasnull looks at every value at every level."""
    k = B(c)
    fl = c.flow("dropnull", k, opaque=("hasnull", "apply_values_transform", "cat"))
    cat = calls(fl, "cat")
    lps = [n for n in nodes(fl, "iter") if n.d["it"] is SELF]
    app = calls(fl, "append")
    if not (cat and lps and app):
        c.und("dropnull", "form not recognised")
    else:
        isnull = lambda want: (lambda t: want if is_call(t, "hasnull") else None)
        for lp in lps:
            pth = find_path(edge_succ(lp, "next"), [lp, fl.exit_node], app, skip_start=False, edge_ok=assume(isnull(False)))
            c.decide(pth is None, "dropnull/keeps", lp.where, f"a complete row is dropped: {describe(pth)}")
            pth = find_path(edge_succ(lp, "next"), app, [lp], skip_start=False, edge_ok=assume(isnull(True)))
            c.decide(pth is None, "dropnull/drops", lp.where, f"a row with missing values is kept: {describe(pth)}")
            early = find_path(edge_succ(lp, "next"), fl.exit_node, [lp], skip_start=False)
            c.decide(early is None, "dropnull/all rows", lp.where, f"rows after the first missing value are lost: {describe(early)}")
    fl = c.flow("hasnull", k, opaque=("isnull", "apply_values_transform"))
    ap = calls(fl, "apply_values_transform")
    for n in ap:
        f = arg(n, 0, "values_transform")
        s = skey(f)
        c.decide(True if s.endswith("any") else (False if s.endswith(".all") else None), "hasnull/any", n.where, f"values are reduced by {show(f)}")
    for lp in [n for n in nodes(fl, "iter") if not n.d.get("comp") and is_call(n.d["it"], "values", "items") and ap and ap[-1].d["term"] in subterms(n.d["it"])]:
        leaf = lambda t: t.k in ("val", "elem") and t.a[1] == lp.d["lid"]
        for nested in (True, False):
            def val(t, want, nested=nested):
                if is_call(t, "isinstance") and t.a[1] and leaf(t.a[1][0]):
                    return nested
                if leaf(t) or (t.k == "call" and t.a[0].k in ("closure", "global") and not is_call(t, "isinstance") and any(leaf(x) for x in t.a[1])):
                    return want
                if t.k == "cmp" and "size" in skey(t):
                    return True
                return None
            con = "hasnull/" + ("nested" if nested else "leaf")
            falsy = [n for n in nodes(fl, "return")] + [fl.exit_node]
            pth = find_path(edge_succ(lp, "next"), falsy, [lp], skip_start=False, edge_ok=assume(lambda t: val(t, False)))
            c.decide(pth is None, con + " goes on", lp.where, f"values after the first one are not looked at: {describe(pth)}")
            pth = find_path(edge_succ(lp, "next"), [lp], [], skip_start=False, edge_ok=assume(lambda t: val(t, True)))
            c.decide(pth is None, con + " found", lp.where, f"a missing value goes unnoticed: {describe(pth)}")
    fl = c.flow("isnull", k, opaque=("apply_values_transform",))
    for n in calls(fl, "apply_values_transform"):
        f = arg(n, 0, "values_transform")
        s = skey(f)
        c.decide(True if s.endswith(("isnull", "isna")) else (False if s.endswith(("isnan", "notnull", "notna")) else None), "isnull/test", n.where, f"missing values are recognised by {show(f)}")
