"""Batch operations and conversions; reading and processing of stored data."""
from __future__ import annotations

from ..alias import Alias
from ..core import rule
from ..flow import FALSE, NONE, TRUE, Term, canon_cond, const, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import arg, calls, closure, describe, find_path, nodes, poly, Poly, setattrs, setsubs, skey, values
from .util import A, P, SELF, both, cut, edge_succ, loop_of

BATCH = "Batch"
CONV = "tianshou.data.utils.converter."
#: methods that return something new (or only answer a question): nothing given to them, self included, may change
PURE = ("__add__", "__mul__", "__truediv__", "__getitem__", "__eq__", "__iter__", "__len__", "__repr__", "__contains__", "__getstate__", "to_numpy", "to_torch", "cat", "stack", "empty",
        "split", "to_dict", "to_list_of_dicts", "get", "get_keys", "isnull", "hasnull", "dropnull", "to_at_least_2d", "shape")
#: methods that modify the receiver: their operands may not change
INPLACE = ("__init__", "__iadd__", "__imul__", "__itruediv__", "__setitem__", "__setattr__", "cat_", "stack_", "update", "to_numpy_", "to_torch_", "set_array_at_key", "empty_")


def stored_before(fl, node, t, roots):
    """For a write into an entry of a container: can an entry taken from roots have been put there before?"""
    # t = container[key]; the container's entries come from earlier stores
    if t.k != "sub":
        return True
    cont = t.a[0]
    al = Alias(fl, roots)
    own = cont.a[0] if cont.k == "attr" and cont.a[1] == "__dict__" else cont
    if al.ident(own):
        return True
    puts = [n for n in setsubs(fl) if n.d["value"] is not None and (n.d["base"] is cont or n.d["base"] is own or (n.d["base"].k == "attr" and n.d["base"].a[1] == "__dict__" and n.d["base"].a[0] is own))
            and al.members(n.d["value"])]
    if not puts:
        return True
    return any(find_path(n, node) is not None for n in puts)


def operand_writes(fl, roots):
    al = Alias(fl, roots)
    return [(n, t, r, msg) for n, t, r, msg in al.mutations() if stored_before(fl, n, t, roots)]


@rule("B09")
def operands_are_not_modified(c):
    """Operations that return a new batch write into nothing they were given; in-place ones only into the receiver."""
    k = c.p.cls(BATCH)
    for names, recv in ((PURE, True), (INPLACE, False)):
        for m in names:
            f = k.find(m)
            if f is None:
                continue
            fl = c.flow(f, k)
            ps = [P(x) for x in fl.entry.params()]
            if not recv:
                ps = [x for x in ps if x is not SELF]
            if not ps:
                continue
            ms = operand_writes(fl, ps)
            hit = ms[0] if ms else None
            c.decide(hit is None, f"Batch.{m}", hit[0].where if hit else "", f"{m} modifies {', '.join(show(x) for x in hit[2]) if hit else ''}: {hit[3] if hit else ''}")
    for fn in ("to_numpy", "to_torch", "to_torch_as", "to_hdf5", "from_hdf5"):
        fl = c.flow(CONV + fn)
        ps = [P(x) for x in fl.entry.params()]
        if fn == "to_hdf5":
            ps = ps[:1]
        ms = operand_writes(fl, ps)
        hit = ms[0] if ms else None
        c.decide(hit is None, fn, hit[0].where if hit else "", f"{fn} modifies its argument: {hit[3] if hit else ''}")
    for fn in ("create_value", "_parse_value", "_to_array_with_correct_type", "get_sliced_dist"):
        fl = c.flow("tianshou.data.batch." + fn)
        ms = operand_writes(fl, [P(x) for x in fl.entry.params()])
        hit = ms[0] if ms else None
        c.decide(hit is None, fn, hit[0].where if hit else "", f"{fn} modifies its argument: {hit[3] if hit else ''}")


def rec_func(c):
    """The function that applies a transformation to all values of a batch."""
    k = c.p.cls(BATCH)
    fl = c.flow("apply_values_transform", k)
    return fl


@rule("B09")
def transformation_without_inplace_builds_a_copy(c):
    """apply_values_transform(inplace=False) works on a deep copy at every level and returns it; in-place it assigns into the receiver."""
    k = c.p.cls(BATCH)
    fl = c.flow("apply_values_transform", k)
    not_in = cut(lambda x: x is P("inplace"), False)
    con = "Batch.apply_values_transform"
    al = Alias(fl, [SELF])
    ws = [n for n in setsubs(fl) + setattrs(fl)]
    for n in ws:
        b = n.d["base"]
        if b.k == "attr" and b.a[1] == "__dict__":
            b = b.a[0]
        # value of the container when inplace is False
        vs = side(b, lambda x: x is P("inplace"), False)
        hit = [v for v in vs if al.ident(v)]
        live = find_path(fl.entry_node, n, edge_ok=not_in) is not None
        c.decide(not (hit and live), con + "/copy", n.where, f"{show(b)} is written although a new batch was asked for")
    for n in nodes(fl, "call"):
        if n.d["inlined"] or not any(q.endswith("_apply_batch_values_func_recursively") or q.endswith("apply_values_transform") for q in n.d["quals"]):
            continue
        i = n.d["kw"].get("inplace")
        if i is None and len(n.d["args"]) > 2:
            i = n.d["args"][2]
        if find_path(fl.entry_node, n, edge_ok=not_in) is None:
            continue
        c.decide(i in (None, FALSE) or i is P("inplace") or (None if i is not TRUE else False), con + "/nested", n.where, "nested batches are transformed in place although a new batch was asked for")
    rv = fl.ret_value
    vs = side(rv, lambda x: x is P("inplace"), False)
    c.decide(all(is_call(v, "deepcopy") or v is NONE or not al.members(v) for v in vs) if vs else None, con + "/result", fl.entry.where, f"returns {show(rv)}")


def side(t, pred, val):
    """Values of t when the condition matching pred has truth value val (phi alternatives resolved where possible)."""
    if t.k == "phi":
        cond = t.a[1]
        if cond is not None:
            x, pol = canon_cond(cond)
            if pred(x) and len(t.a[0]) == 2:
                return side(t.a[0][0] if pol == val else t.a[0][1], pred, val)
        return [v for x in t.a[0] for v in side(x, pred, val)]
    return [t]


@rule("B09")
def copying_constructor_copies_first(c):
    """Batch(x, copy=True) stores only values from a deep copy of what it was given, keyword entries included."""
    k = c.p.cls(BATCH)
    fl = c.flow("__init__", k)
    con = "Batch.__init__/copy"
    isc = lambda x: x is P("copy")
    al = Alias(fl, [P("batch_dict")])
    wanted = cut(isc, True)
    n_ = 0
    for n in setsubs(fl):
        if not (n.d["base"].k == "attr" and n.d["base"].a[1] == "__dict__" and n.d["base"].a[0] is SELF):
            continue
        if find_path(fl.entry_node, n, edge_ok=wanted) is None:
            continue
        src = sources(fl, n.d["value"])
        for s in src:
            n_ += 1
            c.decide(all(is_call(v, "deepcopy") for v in side(s, isc, True)), con, n.where, f"the new batch shares {show(s)} although a copy was asked for")
    c.decide(True if n_ else None, con + "/seen", "", "no store found")
    for n in nodes(fl, "call"):
        given = arg(n, 0, "batch_dict")
        if n.d["name"] == "__init__" and n.d["recv"] is SELF and given is not None and any(P("kwargs") is x for x in subterms(given)):
            v = arg(n, 1, "copy")
            c.decide(v is P("copy") or is_call(given, "deepcopy"), con + "/keywords", n.where, "keyword entries are not copied although a copy was asked for")


def sources(fl, t):
    """Values of batch_dict (possibly deep-copied) inside a term."""
    out = []
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is P("batch_dict") or is_call(x, "deepcopy"):
            out.append(x)
            continue
        if x.k == "phi":
            alts = [y for y in x.a[0]]
            if any(y is P("batch_dict") for y in alts):
                out.append(x)
                continue
        from ..flow import children
        todo.extend(children(x))
    return out


@rule("B09")
def arithmetic_works_on_a_deep_copy(c):
    """The operators returning a new batch apply the in-place operation to a deep copy of the receiver and return it."""
    k = c.p.cls(BATCH)
    for m, i in (("__add__", "__iadd__"), ("__mul__", "__imul__"), ("__truediv__", "__itruediv__")):
        fl = c.flow(m, k)
        con = f"Batch.{m}"
        cs = calls(fl, i)
        if not cs:
            ws = operand_writes(fl, [SELF])
            c.decide(None if not ws else False, con, fl.entry.where, "not expressed through the in-place operator")
            continue
        for n in cs:
            r = n.d["recv"]
            c.decide(is_call(r, "deepcopy") or (False if Alias(fl, [SELF]).members(r) else None), con, n.where, f"the in-place operation is applied to {show(r)}, which shares values with the operand")
    for m in ("to_numpy", "to_torch", "empty"):
        fl = c.flow(m, k)
        root_ = SELF if m != "empty" else P("batch")
        for n in calls(fl, m + "_"):
            r = n.d["recv"]
            c.decide(is_call(r, "deepcopy") or (False if Alias(fl, [root_]).members(r) else None), f"Batch.{m}", n.where, f"{m}_ is applied to {show(r)}, which shares values with the operand")
    for m in ("cat", "stack"):
        fl = c.flow(m, k)
        for n in calls(fl, m + "_"):
            r = n.d["recv"]
            al = Alias(fl, [P("batches")])
            c.decide(not al.members(r), f"Batch.{m}", n.where, f"{m}_ is applied to {show(r)}, an operand")


# ------------------------------------------------------------------------------- B10
@rule("B10")
def transformation_reaches_every_entry(c):
    """Every entry is visited: sub-batches by recursion with the same function, leaves by the function, each result stored under its own key."""
    k = c.p.cls(BATCH)
    fl = c.flow("apply_values_transform", k)
    con = "Batch.apply_values_transform"
    its = [n for n in nodes(fl, "iter") if not n.d.get("comp")]
    if not its:
        c.und(con, "no loop over the entries")
        return
    F = P("values_transform")
    for it in its:
        ws = []
        for n in setsubs(fl):
            i, v = n.d["index"], n.d["value"]
            if v is None or i.k not in ("key", "elem", "item"):
                continue
            leaf = any(x.k == "call" and x.a[0] is F for x in values(fl, v))
            nested = [x for x in values(fl, v) if x.k == "call" and x.a[0] is not F]
            if leaf or nested:
                ws.append(n)
            for x in values(fl, v):
                if x.k == "call" and x.a[0] is F:
                    a = x.a[1][0] if x.a[1] else None
                    c.decide(a is not None and same_entry(fl, i, a), con + "/leaf", n.where, f"entry {show(i)} becomes the transformation of {show(a) if a is not None else 'nothing'}")
                elif x.k == "call":
                    passes = any(y is F for y in x.a[1]) or any(y is F for _, y in x.a[2])
                    c.decide(passes, con + "/nested", n.where, f"sub-batch becomes {show(x)}: the transformation is not passed on")
        # the nested branch and the leaf branch both store
        for lab_from in edge_succ(it, "next"):
            pth = find_path([lab_from], it, ws, skip_start=False)
            c.decide(pth is None, con + "/every entry", describe(pth), "an entry is left untransformed")
        rec = [n for n in nodes(fl, "call") if any(y is F for y in list(n.d["args"]) + [v for _, v in n.d["kwt"]]) and n.d["fn"] is not F]
        c.decide(bool(rec), con + "/recursion", fl.entry.where, "sub-batches are not visited")
        isb = cut(lambda x: is_call(x, "isinstance") and any("Batch" in skey(a) for a in x.a[1][1:]), True)
        lf = [n for n in nodes(fl, "call") if n.d["fn"] is F]
        for n in lf:
            pth = find_path(edge_succ(it, "next"), n, [it], edge_ok=isb, skip_start=False)
            c.decide(pth is None, con + "/sub-batch as leaf", n.where, "the transformation is applied to a sub-batch as a whole")


def same_entry(fl, i, v):
    """v is the value stored under key i of the iterated mapping."""
    if v.k == "val" and i.k == "key":
        return v.a[1] == i.a[1]
    if v.k == "item" and i.k == "item":
        return v.a[0] is i.a[0] and i.a[1] == 0 and v.a[1] == 1
    if v.k == "sub" and v.a[1] is i:
        return True
    if v.k == "attr":
        return False
    return None


def returned(fl, e=None):
    """(return node, value) pairs reachable under edge constraint e."""
    out = []
    for n in nodes(fl, "return"):
        if len(n.stack) <= 1 and (e is None or find_path(fl.entry_node, n, edge_ok=e) is not None):
            out.append((n, n.d["value"]))
    return out


def chain(t):
    """Method names applied to t from the inside out, and the innermost value."""
    names = []
    while True:
        if t.k == "call" and t.a[0].k == "attr":
            names.append((t.a[0].a[1], t))
            t = t.a[0].a[0]
        elif t.k == "call" and t.a[0].k == "global" and t.a[1]:
            names.append((t.a[0].a[0].rsplit(".", 1)[-1], t))
            t = t.a[1][0]
        else:
            return names[::-1], t


def inst(x, what):
    return is_call(x, "isinstance") and len(x.a[1]) == 2 and what in skey(x.a[1][1])


def applied(fl):
    """The transformation applied in a *_ conversion: its result expression (inlined closure) per leaf."""
    return [n for n in nodes(fl, "call") if n.d["name"] in ("apply_values_transform",)]


def leaf_flow(c, m):
    """Flow graph of the leaf conversion used by a Batch conversion method."""
    k = c.p.cls(BATCH)
    fl = c.flow(m, k, opaque=("apply_values_transform",))
    ns = applied(fl)
    if not ns:
        return fl, None, None
    n = ns[0]
    f = arg(n, 0, "values_transform")
    return fl, n, f


@rule("B10")
def in_place_conversions_cover_the_batch(c):
    """to_numpy_ and to_torch_ transform all entries in place; to_numpy and to_torch do so on a copy with the same type and device."""
    k = c.p.cls(BATCH)
    for m in ("to_numpy_", "to_torch_"):
        fl, n, f = leaf_flow(c, m)
        con = f"Batch.{m}"
        if n is None:
            c.und(con, "not expressed through apply_values_transform")
            continue
        i = arg(n, 1, "inplace")
        c.decide(i is TRUE and n.d["recv"] is SELF, con + "/in place", n.where, "the conversion does not change the receiver")
        pth = find_path(fl.entry_node, fl.exit_node, applied(fl))
        c.decide(pth is None, con + "/always", describe(pth), "the conversion can be skipped")
    fl = c.flow("to_torch", k, opaque=("to_torch_",))
    for n in calls(fl, "to_torch_"):
        for a_, i in (("dtype", 0), ("device", 1)):
            c.decide(arg(n, i, a_) is P(a_), f"Batch.to_torch/{a_}", n.where, f"the requested {a_} is not passed on")
    c.decide(bool(calls(fl, "to_torch_")) or None, "Batch.to_torch", fl.entry.where, "to_torch_ is not used")
    for m in ("to_numpy", "to_torch"):
        fl = c.flow(m, k, opaque=(m + "_",))
        for n in calls(fl, m + "_"):
            c.decide(fl.ret_value is n.d["recv"], f"Batch.{m}/result", n.where, "the converted batch is not what is returned")
            pth = find_path(fl.entry_node, fl.exit_node, calls(fl, m + "_"))
            c.decide(pth is None, f"Batch.{m}/always", describe(pth), "the conversion can be skipped")
    fl = c.flow(CONV + "to_torch", opaque=("to_torch_",))
    ns = calls(fl, "to_torch_") + [n for n in calls(fl, "to_torch") if not n.d["inlined"]]
    for n in ns:
        o = 0 if n.d["name"] == "to_torch_" else 1
        for a_, i in (("dtype", 0), ("device", 1)):
            c.decide(arg(n, i + o, a_) is P(a_), f"to_torch/{n.d['name']}/{a_}", n.where, f"the requested {a_} is not passed on")
    # leaves: every returned tensor is moved to the device, and typed when a type was asked for
    for what in ("ndarray", "torch.Tensor"):
        pass
    typed = cut(lambda x: x.k == "cmp" and x.a[0] == "is" and x.a[1] is P("dtype") and x.a[2] is NONE, False)
    leaf = [(n, v) for n, v in returned(fl, typed)]
    n_ = 0
    for n, v in leaf:
        for x in alternatives(fl, v, P("dtype")):
            names, base = chain(x)
            nm = [a for a, _ in names]
            if base is not P("x") or not nm or nm[0] in ("to_torch", "_parse_value", "asanyarray", "Batch", "deepcopy"):
                continue
            n_ += 1
            c.decide(moved(names, P("device")), "to_torch/leaf device", n.where, f"a leaf becomes {show(x)}: not on the requested device")
            c.decide(typed_(names, P("dtype")), "to_torch/leaf dtype", n.where, f"a leaf becomes {show(x)}: not of the requested type")
    c.decide(True if n_ >= 2 else None, "to_torch/leaves", "", "conversion of leaves not recognised")
    fl = c.flow(CONV + "to_torch_as", opaque=("to_torch",))
    for n in calls(fl, "to_torch"):
        for a_, i in (("dtype", 1), ("device", 2)):
            v = arg(n, i, a_)
            c.decide(v is not None and v.k == "attr" and v.a[1] == a_ and v.a[0] is P("y"), f"to_torch_as/{a_}", n.where, f"converted to {a_} {show(v) if v is not None else 'default'} instead of that of the given tensor")
    fl = c.flow(CONV + "to_numpy", opaque=("to_numpy_",))
    tens = cut(lambda x: inst(x, "Tensor") and x.a[1][0] is P("x"), True)
    n_ = 0
    for n, v in returned(fl, tens):
        for x in values(fl, v):
            names, base = chain(x)
            n_ += 1
            nm = [a for a, _ in names]
            c.decide(base is P("x") and "numpy" in nm and "cpu" in nm and "detach" in nm or (None if "to_numpy" in nm or "asanyarray" in nm else False), "to_numpy/tensor", n.where, f"a tensor becomes {show(x)}")


def alternatives(fl, t, req):
    """Values of t when a type was requested (req is not None)."""
    if t.k == "phi":
        cond = t.a[1]
        if cond is not None and len(t.a[0]) == 2:
            x, pol = canon_cond(cond)
            if x.k == "cmp" and x.a[0] == "is" and x.a[1] is req and x.a[2] is NONE:
                return alternatives(fl, t.a[0][1 if pol else 0], req)
        return [y for x in t.a[0] for y in alternatives(fl, x, req)]
    if t.k == "call" and t.a[0].k == "attr":
        subs = alternatives(fl, t.a[0].a[0], req)
        return [Term("call", Term("attr", s, t.a[0].a[1]), *t.a[1:]) for s in subs]
    return [t]


def moved(names, dev):
    return any(nm in ("to", "cuda", "type") and (dev in t.a[1] or any(v is dev for _, v in t.a[2])) for nm, t in names)


def typed_(names, ty):
    return any(nm in ("type", "to") and (ty in t.a[1] or any(v is ty for _, v in t.a[2])) for nm, t in names)


@rule("B10")
def leaf_conversions(c):
    """Arrays become tensors on the requested device; tensors get the requested type and device whenever theirs differ; tensors become detached host arrays."""
    k = c.p.cls(BATCH)
    # to_torch_: analysed with the leaf function inlined into the traversal
    fl = c.flow("to_torch_", k)
    ws = [n for n in setsubs(fl) if n.d["value"] is not None]
    con = "Batch.to_torch_"
    n_ = 0
    for w in ws:
        for v in leafs(fl, w.d["value"]):
            names, base = chain(v)
            nm = [a for a, _ in names]
            if not nm:
                continue
            if "from_numpy" in nm or "as_tensor" in nm or "tensor" in nm:
                n_ += 1
                dev = device_arg(names)
                c.decide(dev is not None and P("device") in closure(fl, dev), con + "/array device", w.where, f"an array becomes {show(v)}: not on the requested device")
    c.decide(True if n_ else None, con + "/arrays", "", "conversion of arrays not recognised")
    # tensors: under 'type differs' (or 'device differs') the kept value must be typed (moved)
    arr = cut(lambda x: inst(x, "ndarray"), False)
    sub_ = cut(lambda x: inst(x, "Batch"), False)
    dt = lambda x: x.k == "cmp" and x.a[0] == "is" and x.a[1] is P("dtype") and x.a[2] is NONE
    dtdiff = lambda x: x.k == "cmp" and x.a[0] == "==" and P("dtype") in x.a[1:3]
    devdiff = lambda x: x.k == "cmp" and x.a[0] == "==" and not dtdiff(x) and any(y.k == "attr" and y.a[1] in ("type", "index", "device") for y in x.a[1:3])
    conv = [n for n in nodes(fl, "call") if n.d["name"] in ("type", "to") and (P("dtype") in n.d["args"] or n.d["kw"].get("dtype") is P("dtype"))]
    mv = [n for n in nodes(fl, "call") if n.d["name"] == "to" and any(P("device") in closure(fl, a) for a in list(n.d["args"]) + [x for _, x in n.d["kwt"]])]
    its = [n for n in nodes(fl, "iter") if not n.d.get("comp")]
    starts = [s for it in its for s in edge_succ(it, "next")]
    brs = [b for b in nodes(fl, "branch") if dtdiff(canon_cond(b.d["cond"])[0])]
    if starts and its:
        want_t = both(arr, sub_, cut(dt, False), cut(dtdiff, False))
        pth = find_path(starts, its, conv, edge_ok=want_t, skip_start=False)
        c.decide(pth is None if brs or not conv else (pth is None or None), con + "/tensor type", describe(pth), "a tensor of another type keeps its type")
        dbr = [b for b in nodes(fl, "branch") if devdiff(canon_cond(b.d["cond"])[0])]
        for cond in {canon_cond(b.d["cond"])[0] for b in dbr}:
            want_d = both(arr, sub_, cut(lambda x, cc=cond: x is cc, False))
            pth = find_path(starts, its, mv, edge_ok=want_d, skip_start=False)
            c.decide(pth is None, con + "/tensor device", describe(pth), "a tensor on another device stays there")
        seen = {y.a[1] for b in dbr for y in canon_cond(b.d["cond"])[0].a[1:3] if y.k == "attr"}
        if "type" in seen and not seen & {"index", "device"}:
            hit = find_path(starts, its, mv, edge_ok=both(arr, sub_, cut(devdiff, True)), skip_start=False)
            c.decide(hit is None, con + "/which device", dbr[0].where, "a tensor on another device of the same kind stays there")
        if not dbr:
            pth = find_path(starts, its, mv, edge_ok=both(arr, sub_), skip_start=False)
            c.decide(pth is None or None, con + "/tensor device", describe(pth), "device of tensors not recognised")
        pth = find_path(starts, its, [n for n in nodes(fl, "call") if n.d["name"] in ("from_numpy", "as_tensor", "tensor")], edge_ok=both(sub_, cut(lambda x: inst(x, "ndarray"), True)), skip_start=False)
        c.decide(pth is None, con + "/array", describe(pth), "an array stays an array")
    fl = c.flow("to_numpy_", k)
    con = "Batch.to_numpy_"
    its = [n for n in nodes(fl, "iter") if not n.d.get("comp")]
    starts = [s for it in its for s in edge_succ(it, "next")]
    if starts:
        for need in ("numpy", "detach", "cpu"):
            pth = find_path(starts, its, [n for n in nodes(fl, "call") if n.d["name"] == need], edge_ok=both(cut(lambda x: inst(x, "Batch"), False), cut(lambda x: inst(x, "Tensor"), True)), skip_start=False)
            c.decide(pth is None, con + "/" + need, describe(pth), f"a tensor is kept or converted without .{need}()")


def device_arg(names):
    for nm, t in names:
        if nm in ("to", "as_tensor", "tensor"):
            for x in list(t.a[1]) + [v for k_, v in t.a[2] if k_ == "device"]:
                if "device" in skey(x):
                    return x
    return None


def leafs(fl, t):
    if t.k == "phi":
        return [y for x in t.a[0] for y in leafs(fl, x)]
    return [t]


@rule("B10")
def split_covers_each_element_once(c):
    """split walks consecutive windows of a permutation (or the identity) of all indices; a merged tail ends the walk."""
    k = c.p.cls(BATCH)
    fl = c.flow("split", k)
    con = "Batch.split"
    ys = nodes(fl, "yield")
    its = [n for n in nodes(fl, "iter") if not n.d.get("comp")]
    if not ys or not its:
        c.und(con, "no loop with yields")
        return
    L = [Term("call", Term("global", "len"), (SELF,), (), None)]
    for y in ys:
        v = y.d["value"]
        if v is None or v.k != "sub" or v.a[0] is not SELF:
            c.und(con, f"yields {show(v) if v is not None else 'nothing'}")
            continue
        w = v.a[1]
        if w.k != "sub" or w.a[1].k != "slice":
            c.und(con, f"yields {show(v)}")
            continue
        idx, (lo, hi, st) = w.a[0], w.a[1].a[:3]
        for x in values(fl, idx):
            c.decide(is_call(x, "permutation", "arange", "range", "randperm") and len(x.a[1]) == 1 and is_len(x.a[1][0]), con + "/indices", y.where, f"walks over {show(x)}, not over a permutation of all elements")
        rng = lo.a[0] if lo.k in ("elem", "idx") else None
        if rng is None or not is_call(rng, "range") or len(rng.a[1]) != 3:
            c.und(con + "/window", f"window starts at {show(lo)}")
            continue
        a, b, s = rng.a[1]
        c.decide(a is const(0) and is_len(b), con + "/range", y.where, f"window starts run over {show(rng)}")
        one = st in (None, NONE)
        if hi in (None, NONE):
            pth = find_path(y, ys)
            c.decide(pth is None and one, con + "/tail", describe(pth), "further elements follow the final window: they are yielded twice")
        else:
            pl = poly(hi, lambda t: "lo" if t is lo else ("s" if t is s else None))
            c.decide(pl == Poly.x("lo") + Poly.x("s") and one, con + "/window", y.where, f"the window from {show(lo)} ends at {show(hi)} but the next one starts {show(s)} later")
    it = its[0]
    pth = find_path(edge_succ(it, "next"), [it, fl.exit_node], ys, skip_start=False)
    c.decide(pth is None, con + "/each window", describe(pth), "a window is not yielded")
    for y in ys:
        pth = find_path(y, ys, [it])
        c.decide(pth is None, con + "/window once", describe(pth), "a window is yielded twice")
        if y.d["value"] is not None and y.d["value"].k == "sub":
            w = y.d["value"].a[1]
            if w.k == "sub" and w.a[1].k == "slice" and w.a[1].a[1] not in (None, NONE):
                pth = find_path(y, fl.exit_node, [it])
                c.decide(pth is None, con + "/to the end", describe(pth), "the walk ends before the last window")


def is_len(t):
    return is_call(t, "len") and t.a[1] and t.a[1][0] is SELF


@rule("B10")
def indexing_treats_all_entries_alike(c):
    """Batch[index] applies the same index to every entry and keeps every key."""
    k = c.p.cls(BATCH)
    fl = c.flow("__getitem__", k)
    con = "Batch.__getitem__"
    its = [n for n in nodes(fl, "iter") if not n.d.get("comp")]
    if not its:
        c.und(con, "no loop over the entries")
        return
    for it in its:
        ws = [n for n in setsubs(fl) if n.d["index"].k in ("key", "elem", "item")]
        pth = find_path(edge_succ(it, "next"), [it, fl.exit_node], ws, skip_start=False)
        c.decide(pth is None, con + "/every key", describe(pth), "a key is missing in the selection")
        for n in ws:
            for v in leafs(fl, n.d["value"]):
                if v.k == "sub":
                    c.decide(v.a[1] is P("index") and same_entry(fl, n.d["index"], v.a[0]) is not False, con + "/index", n.where, f"entry becomes {show(v)}")


@rule("B10")
def pickles_keep_every_key(c):
    """The pickled state holds every entry, and unpickling installs it whatever the entries are called."""
    k = c.p.cls(BATCH)
    fl = c.flow("__getstate__", k)
    its = [n for n in nodes(fl, "iter") if not n.d.get("comp")]
    con = "Batch.__getstate__"
    comp = [v for v in values(fl, fl.ret_value) if v.k == "comp"]
    if its:
        ws = [n for n in setsubs(fl)]
        pth = find_path([s for it in its for s in edge_succ(it, "next")], its + [fl.exit_node], ws, skip_start=False)
        c.decide(pth is None, con, describe(pth), "an entry is left out of the pickled state")
        for n in ws:
            for v in leafs(fl, n.d["value"]):
                src = v.a[0].a[0] if v.k == "call" and v.a[0].k == "attr" else v
                c.decide(same_entry(fl, n.d["index"], src), con + "/value", n.where, f"entry {show(n.d['index'])} is pickled as {show(v)}")
    elif comp:
        c.ok(con)
    else:
        c.und(con, "not recognised")
    fl = c.flow("__setstate__", k, opaque=("__init__",))
    con = "Batch.__setstate__"
    for n in [n for n in nodes(fl, "call") if n.d["name"] == "__init__" and n.d["recv"] is SELF]:
        names = {x.arg for x in k.find("__init__").node.args.args + k.find("__init__").node.args.kwonlyargs} - {"self"}
        spread = [x for kx, x in n.d["kwt"] if kx is None or kx == "**"]
        pos = [a for a in [*n.d["args"], n.d["kw"].get("batch_dict")] if a is P("state")]
        c.decide(bool(pos) or (False if n.d["kwt"] and names else None), con, n.where, f"the state is passed as keyword arguments: an entry called {' or '.join(sorted(names))} is taken for an option")


# ------------------------------------------------------------------------------- B03
def buffer_classes(p):
    return p.subclasses(p.cls("ReplayBuffer").qual)


def policies(p):
    return p.subclasses(p.cls("BasePolicy").qual)


READS = ("__getitem__", "get", "sample", "sample_indices", "prev", "next", "unfinished_index", "get_buffer_indices", "__len__", "hasnull", "isnull", "get_weight")


@rule("B03")
def reading_changes_nothing(c):
    """Indexing, sampling and navigation write neither into the stored data nor into any bookkeeping of the buffer (hindsight relabelling is covered by B06)."""
    her = c.p.cls("HERReplayBuffer")
    herm = c.p.cls("HERReplayBufferManager")
    for k in buffer_classes(c.p):
        for m in READS:
            f = k.find(m)
            if f is None:
                continue
            hers = k.is_sub(her.qual) or k.is_sub(herm.qual)
            fl = c.flow(f, k, opaque=("sample_indices",) if hers and m != "sample_indices" else ())
            if hers and m == "sample_indices":
                continue
            ms = [x for x in Alias(fl, [SELF]).mutations() if stored_before(fl, x[0], x[1], [SELF])]
            hit = ms[0] if ms else None
            c.decide(hit is None, f"{k.name}.{m}", hit[0].where if hit else "", f"{m} modifies the buffer: {hit[3] if hit else ''}")


@rule("B03")
def slices_are_read_as_copies(c):
    """A slice is turned into an index array before data is read, so the result never shares memory with the storage."""
    for k in buffer_classes(c.p):
        fl = c.flow("__getitem__", k, opaque=("sample_indices", "get", "next", "get_weight"))
        con = f"{k.name}.__getitem__"
        sl = lambda x: is_call(x, "isinstance") and "slice" in skey(x.a[1][1]) and x.a[1][0] is P("index")
        used = [t for n in nodes(fl) for t in read_indices(fl, n)]
        if not used:
            c.und(con, "no reads recognised")
            continue
        for n, t in used:
            vs = side(t, sl, True)
            bad = [v for v in vs if v is P("index")]
            if find_path(fl.entry_node, n, edge_ok=cut(sl, True)) is None:
                continue
            c.decide(not bad, con, n.where, "a slice is used to read the storage directly: the result is a view that later writes change")


def read_indices(fl, n):
    if n.kind != "call":
        return []
    out = []
    if n.d["name"] == "get" and n.d["recv"] is SELF and n.d["args"]:
        out.append((n, n.d["args"][0]))
    if n.d["name"] == "__getitem__" and n.d["args"] and n.d["is_super"]:
        out.append((n, n.d["args"][0]))
    return out


PROC = ("process_fn", "post_process_fn", "process_buffer")


@rule("B03")
def processing_leaves_the_buffer_alone(c):
    """No policy writes into the buffer it processes, except values put back on every way out (errors included) or added under a new key."""
    for k in policies(c.p):
        for m in PROC:
            f = k.find(m)
            if f is None:
                continue
            fl = c.flow(f, k, opaque=("learn", "forward"))
            b = P("buffer")
            if b not in [P(x) for x in fl.entry.params()]:
                continue
            con = f"{k.name}.{m}"
            ms = [x for x in Alias(fl, [b]).mutations() if x[0].d.get("base") is not None and stored_before(fl, x[0], x[1], [b]) or x[0].kind in ("call", "aug")]
            bad = 0
            subst = {}
            for n, t, r, msg in ms:
                if n.kind == "setattr":
                    subst.setdefault(Term("attr", n.d["base"], n.d["attr"]), []).append(n)
                else:
                    bad += 1
                    c.bad(con, n.where, f"{m} writes into the stored data: {msg}")
            for t, ns in subst.items():
                orig = [n for n in ns if original(fl, n.d["value"], t, b)]
                ext = [n for n in ns if n not in orig and extended(n.d["value"], t)]
                for n in ns:
                    if n in orig or n in ext:
                        continue
                    bad += 1
                    g = guard_cuts(fl, n)
                    done = [m for m, l in n.succ if l != "exc"]  # if the assignment itself fails, nothing was replaced
                    pth = find_path(done, [fl.exit_node, fl.raise_exit], orig, exc=True, edge_ok=g, skip_start=False)
                    c.decide(pth is None, f"{con}/{t.a[1]}", n.where, f"{show(t)} is replaced and not put back on the path {describe(pth)}")
            if not bad:
                c.ok(con)


def original(fl, v, t, b):
    """v is what t held when the method was entered."""
    if v is t:
        return True
    # buffer.x is buffer._meta.x
    if v.k == "attr" and t.k == "attr" and v.a[1] == t.a[1]:
        strip_ = lambda x: x.a[0] if x.k == "attr" and x.a[1] == "_meta" else x
        return strip_(v.a[0]) is strip_(t.a[0])
    if v.k == "phi":
        vs = [x for x in v.a[0] if x.k != "undef" and show(x) != "<undef>"]
        return bool(vs) and all(original(fl, x, t, b) for x in vs)
    return False


def extended(v, t):
    """The old entries, all of them, and new ones."""
    if is_call(v, "cast") and len(v.a[1]) == 2:
        v = v.a[1][1]
    if v.k == "call" and is_call(v, "Batch"):
        stars = [x for kx, x in v.a[2] if kx in (None, "**")] + [a for a in v.a[1]]
        return any(t in subterms(x) for x in stars)
    return False


def guard_cuts(fl, n):
    """edge_ok: keep to the truth values of conditions that must hold where n stands (conditions whose value cannot change)."""
    from ..query import guards
    gs = {}
    for cnd, pol in guards(fl, n):
        x, p_ = canon_cond(cnd)
        if not any(y.k in ("elem", "key", "val", "idx", "loopphi") for y in subterms(x)):
            gs[x] = p_ == pol
    return lambda a, m, l: all(cut(lambda y, xx=x: y is xx, w)(a, m, l) for x, w in gs.items())


@rule("B03")
def added_values_lie_at_their_transitions(c):
    """Values a policy adds to a buffer are placed at the positions of the transitions they were computed from."""
    for k in policies(c.p):
        f = k.find("process_buffer")
        fl = c.flow(f, k)
        b = P("buffer")
        for n in setattrs(fl, "_meta", base=b):
            v = n.d["value"]
            if is_call(v, "cast") and len(v.a[1]) == 2:
                v = v.a[1][1]
            if not (v.k == "call" and is_call(v, "Batch")):
                c.und(f"{k.name}.process_buffer", f"stores {show(v)[:80]}")
                continue
            for kx, x in v.a[2]:
                if kx in (None, "**"):
                    continue
                smp = [y.d["result"] for y in calls(fl, "sample")]
                direct = computed_from_sample(fl, x, smp)
                c.decide(not direct, f"{k.name}.process_buffer/{kx}", n.where, f"{kx} is stored in the order the transitions were sampled, not at their positions")


def computed_from_sample(fl, x, smp):
    """x is per-sample data in sampling order (not scattered to the sampled positions)."""
    for w in setsubs(fl):
        if w.d["base"] is x or x in values(fl, w.d["base"]):
            if any(Term("item", s, 1) in closure(fl, w.d["index"]) for s in smp):
                return False
    return any(Term("item", s, 0) in closure(fl, x) for s in smp)
