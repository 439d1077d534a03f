"""Replay buffers: reset, storage sharing, bookkeeping, priorities, relabelling, persistence."""
from __future__ import annotations

from ..alias import Alias
from ..canon import Canon, parse, unknowns
from ..core import rule
from ..flow import FALSE, NONE, TRUE, Term, canon_cond, children, const, dotted, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import (Poly, after_all, arg, attr_named, before_all, calls, closure, describe, find_path, guards, mentions, nodes, poly, root, setattrs, setsubs, skey,
                     values)
from .util import inner_step

RB = "tianshou.data.buffer.base.ReplayBuffer"
SELF = Term("param", "self")


def buffer_classes(p):
    p.cls(RB)
    return p.subclasses(RB)


def managers(p):
    return p.subclasses(p.cls("ReplayBufferManager").qual)


def self_attr_writes(flow):
    """{attr: [nodes]} of writes to self.<attr> or into the object it holds."""
    s = flow.self_term
    out = {}
    for n in nodes(flow):
        if n.kind == "setattr" and n.d["base"] is s:
            out.setdefault(n.d["attr"], []).append(n)
        elif n.kind in ("setsub", "aug"):
            b = n.d["base"] if n.kind == "setsub" else n.d["target"]
            while b.k in ("sub",):
                b = b.a[0]
            if b.k == "attr" and b.a[0] is s:
                out.setdefault(b.a[1], []).append(n)
    return out


# data payload and relabelling cache: handled by their own rules, not by the counters rule
PAYLOAD = {"_meta", "_altered_indices", "_original_meta", "stack_num", "options"}
GATED = {"_ep_return", "_ep_len"}  # the two per-episode statistics keep_statistics may keep


def storing_methods(p, cls, *names):
    """The state-changing methods that are really used on an object of this class: the per-part step is driven
    on the parts of a vectorised buffer, never on the whole."""
    if cls in managers(p):
        return [n for n in names if n not in ("_update_state_pre_add", "update")]
    return names


def mutated_state(c, cls):
    mut = {}
    for m in storing_methods(c.p, cls, "add", "update", "update_weight", "sample", "_update_state_pre_add"):
        if cls.find(m) is None:
            continue
        fl = c.flow(m, cls)
        for a, ns in self_attr_writes(fl).items():
            if a not in PAYLOAD:
                mut.setdefault(a, ns[0])
    return mut


def _whole(i):
    """A slice that covers the whole array."""
    return i.k == "slice" and all(not isinstance(x, Term) or x is NONE or x is const(0) and j == 0 for j, x in enumerate(i.a))


def restores(flow, attr):
    """Nodes that give self.<attr> a whole new value."""
    s = flow.self_term
    out = []
    for n in nodes(flow):
        if n.kind == "setattr" and n.d["base"] is s and n.d["attr"] == attr and not n.d["aug"]:
            out.append(n)
        elif n.kind == "setsub" and n.d["base"] is Term("attr", s, attr) and (_whole(n.d["index"]) or n.d["index"] is Term("global", "Ellipsis") or n.d["index"] is const(Ellipsis)):
            out.append(n)
        elif n.kind == "call" and n.d["recv"] is Term("attr", s, attr) and n.d["name"] in ("fill", "reset", "clear"):
            out.append(n)
    return out


@rule("B01")
def reset_covers_state(c):
    """Every counter/pointer/priority that storing data changes is given a new value by reset, on every path."""
    for cls in buffer_classes(c.p):
        for keep in (False, True):
            fl = c.flow("reset", cls, args=None) if False else c.flow(c.p.method(cls, "reset"), cls, args={"keep_statistics": const(keep)})
            for a, w in mutated_state(c, cls).items():
                con = f"{cls.name}.reset[{'keep' if keep else 'drop'}]/{a}"
                if keep and a in GATED:
                    bad = restores(fl, a)
                    c.decide(not bad, con, bad[0].where if bad else "", f"reset(keep_statistics=True) of {cls.name} still clears {a}")
                    continue
                rs = restores(fl, a)
                # absent attribute in this kind of buffer (children of a prioritized manager have no tree)
                pth = find_path(fl.entry_node, fl.exit_node, rs, edge_ok=lambda n, m, l: not (n.kind == "branch" and l == _absent_label(n, fl, a)))
                c.decide(pth is None, con, fl.entry.where,
                         f"reset(keep_statistics={keep}) of {cls.name} has a path that leaves {a} (changed at {w.where}) as it was: {describe(pth)}", f"{len(rs)} assignment(s)")


def _absent_label(n, fl, a):
    """Edge label of a branch that is only taken when self has no attribute `a`."""
    cond, pol = canon_cond(n.d["cond"])
    if cond.k == "call" and dotted(cond.a[0]) == "hasattr" and len(cond.a[1]) == 2 and cond.a[1][1] is const(a):
        return "F" if pol else "T"
    if cond.k == "cmp" and cond.a[0] == "in" and cond.a[1] is const(a) and cond.a[2].k == "attr" and cond.a[2].a[1] == "__dict__":
        return "F" if pol else "T"
    return None


@rule("B01")
def reset_values_match_construction(c):
    """What reset assigns equals what construction assigns (constants and constant arrays)."""
    for cls in buffer_classes(c.p):
        fi = c.flow("__init__", cls, inline_ctor=())
        fr = c.flow(c.p.method(cls, "reset"), cls, args={"keep_statistics": const(False)})
        wi, wr = self_attr_writes(fi), self_attr_writes(fr)
        for a in sorted(set(wi) & set(wr) - PAYLOAD):
            ini = [n for n in wi[a] if n.kind == "setattr"][-1:]
            res = [n for n in wr[a] if n.kind == "setattr"][-1:]
            if not ini or not res:
                continue
            vi, vr = ini[0].d["value"], res[0].d["value"]
            ki, kr = _constval(vi), _constval(vr)
            if ki is None or kr is None:
                continue
            c.decide(ki == kr, f"{cls.name}/{a}", res[0].where, f"reset sets {a} to {show(vr)} but construction sets it to {show(vi)}")


def _constval(t):
    if t.k == "const":
        return float(t.a[0]) if isinstance(t.a[0], int | float) else t.a[0]
    if is_call(t, "array") and t.a[1] and t.a[1][0].k in ("list", "tuple") and all(x.k == "const" for x in t.a[1][0].a[0]):
        return tuple(float(x.a[0]) for x in t.a[1][0].a[0] if isinstance(x.a[0], int | float))
    return None


@rule("B01")
def reset_reaches_children(c):
    """A vectorised buffer resets every one of its parts, unconditionally, with the same statistics option."""
    for cls in managers(c.p):
        fl = c.flow("reset", cls)
        elems = [n for n in calls(fl, "reset") if n.d["recv"] is not None and n.d["recv"].k in ("elem", "sub", "val") and mentions(fl, n.d["recv"], attr_named("buffers"))]
        con = f"{cls.name}.reset/children"
        if not elems:
            c.bad(con, fl.entry.where, f"{cls.name}.reset never resets the element buffers")
            continue
        pth = find_path(fl.entry_node, fl.exit_node, elems, loops_once=True)
        c.decide(pth is None, con, fl.entry.where, f"path through {cls.name}.reset that resets no element buffer: {describe(pth)}")
        for e in elems:
            # each iteration resets its element
            it = [n for n in nodes(fl, "iter") if e.d["recv"].k == "elem" and e.d["recv"].a[1] == n.d.get("lid")]
            for n in it:
                skip = find_path([m for m, l in n.succ if l == "next"], n, elems, skip_start=False)
                c.decide(skip is None, con + "/each", n.where, f"an iteration over the element buffers can skip the reset: {describe(skip)}")
                src = n.d["it"]
                whole = src is Term("attr", SELF, "buffers")
                if src.k == "sub" and src.a[1].k == "slice" and src.a[0] is Term("attr", SELF, "buffers"):
                    c.bad(con + "/all", n.where, f"only {show(src)} are reset, not all element buffers")
                elif whole:
                    c.ok(con + "/all")
            v = arg(e, 0, "keep_statistics")
            c.decide(v is None and False or (v is not None and mentions(fl, v, lambda t: t is Term("param", "keep_statistics"))), con + "/keep_statistics", e.where,
                     f"the statistics option is not handed to the element buffers (got {show(v) if v is not None else 'nothing'})")


@rule("B01")
def counters_do_not_share_arrays(c):
    """An index array that is updated in place is never bound to another live array of the buffer."""
    for cls in buffer_classes(c.p):
        inplace = set()
        for m in storing_methods(c.p, cls, "add", "update", "_update_state_pre_add"):
            fl = c.flow(m, cls)
            for a, ns in self_attr_writes(fl).items():
                if any(n.kind == "setsub" for n in ns) and a not in PAYLOAD:
                    inplace.add(a)
        for m in ("__init__", "reset", "set_batch"):
            fl = c.flow(c.p.method(cls, m), cls)
            for n in nodes(fl, "setattr"):
                if n.d["base"] is SELF and n.d["attr"] in inplace:
                    others = [Term("attr", SELF, x) for x in ("_offset", "_extend_offset", "_lengths", "last_index", "_indices", "maxsize") if x != n.d["attr"]]
                    # values held by other attributes at this moment
                    al = Alias(fl, others + [w.d["value"] for w in nodes(fl, "setattr") if w.d["base"] is SELF and w.d["attr"] != n.d["attr"] and w.d["value"].k == "call"])
                    hit = al.ident(n.d["value"])
                    c.decide(not hit, f"{cls.name}.{m}/{n.d['attr']}", n.where,
                             f"{n.d['attr']} is updated in place but shares its array with {', '.join(show(x) for x in hit)}")


# ------------------------------------------------------------------------------- B02
@rule("B02")
def add_leaves_input_untouched(c):
    """add() never writes into the batch, its arrays or the id list it was given."""
    for cls in buffer_classes(c.p):
        fl = c.flow("add", cls)
        ps = [Term("param", x) for x in fl.entry.params()[1:]]
        al = Alias(fl, ps)
        ms = al.mutations()
        for x in ps:
            hit = [m for m in ms if x in m[2]]
            c.decide(not hit, f"{cls.name}.add/{x.a[0]}", hit[0][0].where if hit else "", f"{cls.name}.add modifies its argument {x.a[0]}: {hit[0][3] if hit else ''}")


@rule("B02")
def update_leaves_source_untouched(c):
    """update(other) restores whatever it changes in the source buffer and never writes its data."""
    for cls in buffer_classes(c.p):
        fl = c.flow("update", cls)
        if not fl.entry.params()[1:]:
            raise AnalysisBroken(f"{cls.name}.update takes no buffer")
        b = Term("param", fl.entry.params()[1])
        al = Alias(fl, [b])
        groups = {}
        for n, t, r, msg in al.mutations():
            if n.kind == "setattr" and n.d["base"] is b:
                groups.setdefault(n.d["attr"], []).append(n)
            else:
                c.bad(f"{cls.name}.update/data", n.where, f"{cls.name}.update writes into the buffer it copies from: {msg}")
        for a, ns in groups.items():
            orig = Term("attr", b, a)
            back = [n for n in ns if n.d["value"] is orig]
            for n in ns:
                if n in back:
                    continue
                pth = after_all(fl, n, back)
                c.decide(pth is None, f"{cls.name}.update/{a}", n.where, f"{a} of the source buffer is changed and not put back on the path {describe(pth)}")
        if not groups:
            c.ok(f"{cls.name}.update/data")


@rule("B02")
def stored_input_is_copied(c):
    """The payload array is allocated by the buffer; an incoming batch is only ever copied into it element-wise."""
    for cls in buffer_classes(c.p):
        fl = c.flow("add", cls)
        b = Term("param", fl.entry.params()[1])
        al = Alias(fl, [b])
        n_ = 0
        for n in setattrs(fl, "_meta", base=SELF):
            n_ += 1
            c.decide(not al.members(n.d["value"]), f"{cls.name}.add/_meta", n.where, f"the storage is bound to the caller's data ({show(n.d['value'])})")
        ws = [n for n in setsubs(fl) if n.d["base"] is Term("attr", SELF, "_meta") or n.d["base"] in [x.d["value"] for x in setattrs(fl, "_meta", base=SELF)]
              or (n.d["base"].k == "phi" and Term("attr", SELF, "_meta") in values(fl, n.d["base"]))]
        if n_:
            c.decide(bool(ws), f"{cls.name}.add/copy", fl.entry.where, "the incoming transition is never written into the storage")
        if cls.find("update").is_abstract or cls.is_sub(c.p.cls("ReplayBufferManager").qual):
            continue
        fl = c.flow("update", cls)
        al = Alias(fl, [Term("param", fl.entry.params()[1])])
        for n in setattrs(fl, "_meta", base=SELF):
            c.decide(not al.members(n.d["value"]), f"{cls.name}.update/_meta", n.where, f"the storage is bound to the other buffer's data ({show(n.d['value'])})")


# ------------------------------------------------------------------------------- B04
@rule("B04")
def relink_after_storage_change(c):
    """Whenever a vectorised buffer's storage is replaced or extended, every part is re-linked to it before returning."""
    seen = 0
    for cls in managers(c.p):
        for name in sorted({n for k in cls.mro_classes() for n in k.methods}):
            f = cls.find(name)
            if f.is_abstract or f.is_static or f.is_class or f.is_property or name in ("dropnull",):
                continue
            if name == "__init__" or inner_step(cls, name):
                continue
            fl = c.flow(f, cls, opaque=("alloc_by_keys_diff", "create_value"))
            ch = [n for n in setattrs(fl, "_meta", base=SELF)]
            ch += [n for n in calls(fl, "alloc_by_keys_diff") if any(mentions(fl, x, lambda t: t.k == "attr" and t.a[1] == "_meta" and t.a[0] is SELF) for x in n.d["args"][:1])]
            if name == "__setstate__" or any(_dict_update(n) for n in nodes(fl, "call")):
                ch += [n for n in nodes(fl, "call") if _dict_update(n)]
            if not ch:
                continue
            link = link_nodes(fl)
            for n in ch:
                seen += 1
                pth = after_all(fl, n, link, loops_once=True, edge_ok=lambda a, b, l: not _empty_meta_edge(a, l))
                c.decide(pth is None, f"{cls.name}.{name}/{n.d.get('attr') or n.d.get('name')}", n.where,
                         f"after the storage changes here the element buffers keep the old one on the path {describe(pth)}")
    # children must see the whole/part relation for the right slice
    for cls in managers(c.p):
        fl = c.flow("set_batch", cls)
        for n in link_nodes(fl):
            v = link_value(n)
            c.decide(_slice_ok(fl, n, v), f"{cls.name}.set_batch/slice", n.where, f"element buffer is linked to {show(v)} instead of its own range [offset, offset + size)")


def _dict_update(n):
    return n.kind == "call" and n.d["name"] == "update" and n.d["recv"] is Term("attr", SELF, "__dict__")


def _empty_meta_edge(n, l):
    """Branch edges taken only when the storage is still empty (nothing to link)."""
    if n.kind != "branch":
        return False
    cnd, pol = canon_cond(n.d["cond"])
    s = skey(cnd)
    if "get_keys" not in s and "is_empty" not in s and "_meta" not in s:
        return False
    if cnd.k == "cmp" and cnd.a[0] == "==" and const(0) in cnd.a:
        return l == ("T" if pol else "F")
    if cnd.k == "cmp" and cnd.a[0] == "<" and cnd.a[1] is const(0):
        return l == ("F" if pol else "T")
    if cnd.k == "call" and (is_call(cnd, "is_empty")):
        return l == ("T" if pol else "F")
    if cnd.k == "call" and is_call(cnd, "len", "get_keys"):
        return l == ("F" if pol else "T")
    return False


def _is_child(t):
    return t is not None and t.k in ("elem", "sub", "val") and t.a[0].k == "attr" and t.a[0].a[1] == "buffers"


def link_nodes(fl):
    out = [n for n in calls(fl, "set_batch") if _is_child(n.d["recv"])]
    out += [n for n in setattrs(fl, "_meta", base=_is_child)]
    return out


def link_value(n):
    if n.kind == "setattr":
        return n.d["value"]
    return arg(n, 0, "batch")


def _slice_ok(fl, n, v):
    """v == self._meta[offset : offset + buf.maxsize] with offset, buf of the same iteration."""
    if v is not None and v.k == "sub" and is_call(v.a[1], "arange", "array", "asarray", "list", "range", "where", "nonzero"):
        return False  # fancy indexing copies
    if v is None or v.k != "sub" or v.a[1].k != "slice":
        return None if v is not None and v.k == "unknown" else (False if v is not None and v.k in ("attr", "param") else None)
    if not any(x.k == "attr" and x.a[1] == "_meta" or x.k == "param" for x in values(fl, v.a[0])):
        return None
    recv = n.d["recv"] if n.kind == "call" else n.d["base"]
    lo, hi, step = v.a[1].a
    off = None
    for o in ("_offset", "_extend_offset"):
        for t in subterms(lo):
            if t.k in ("elem", "sub") and t.a[0] is Term("attr", SELF, o):
                off = t
    if off is None or lo is not off:
        return False if lo.k == "const" or off is None and lo.k in ("elem", "idx") else None
    if recv.k == "elem" and off.k == "elem" and recv.a[1] != off.a[1]:
        return False
    d = poly(Term("bin", "-", hi, lo), lambda t: None)
    want = Poly.x(skey(Term("attr", recv, "maxsize")))
    if d == want:
        return True
    if hi.k in ("elem", "sub") and "_extend_offset" in skey(hi):
        return None
    return False


@rule("B04")
def children_indexing(c):
    """Per-part indices and flat indices are related by that part's own offset, everywhere."""
    for cls in managers(c.p):
        for name in ("add", "sample_indices", "unfinished_index"):
            fl = c.flow(name, cls)
            for n in nodes(fl, "call"):
                r = n.d["recv"]
                if not _is_child(r) or n.d["name"] not in ("_update_state_pre_add", "sample_indices", "unfinished_index"):
                    continue
                # every sum involving this call's result must add that part's own offset
                res = n.d["term"]
                used = 0
                for m in fl_terms(fl):
                    if m.k in ("bin", "ibin") and m.a[0] in ("+", "-"):
                        for x, y in ((m.a[1], m.a[2]), (m.a[2], m.a[1])):
                            core = x
                            if core.k == "item":
                                core = core.a[0]
                            if core is res and any(t.k == "attr" and t.a[1] in ("_offset", "_extend_offset") for t in subterms(y)):
                                used += 1
                                same = _same_part(r, y)
                                c.decide(same and m.a[0] == "+", f"{cls.name}.{name}/{n.d['name']}", n.where,
                                         f"the result of part {show(r)} is shifted by {show(y)}, not by that part's offset")
                if not used and n.d["name"] != "_update_state_pre_add":
                    c.bad(f"{cls.name}.{name}/{n.d['name']}", n.where, f"the part-local result of {show(res)} is used without its offset")


def fl_terms(fl):
    ts = fl.__dict__.get("_allterms")
    if ts is None:
        seen = set()
        for n in nodes(fl):
            for v in n.d.values():
                if isinstance(v, Term):
                    for t in subterms(v, seen):
                        pass
                elif isinstance(v, tuple):
                    for x in v:
                        if isinstance(x, Term):
                            for t in subterms(x, seen):
                                pass
        for v in fl.loops.values():
            for x in v:
                for t in subterms(x, seen):
                    pass
        for v in fl.mut.values():
            for x in v:
                for t in subterms(x, seen):
                    pass
        fl._allterms = ts = seen
    return ts


def _same_part(recv, off):
    """recv = each(buffers)/buffers[i]; off = each(_offset)/_offset[i] of the same iteration / index."""
    for t in subterms(off):
        if t.k == "elem" and t.a[0].k == "sub" and t.a[0].a[0].k == "attr" and t.a[0].a[0].a[1] in ("_offset", "_extend_offset") and t.a[0].a[1].k == "slice":
            lo = t.a[0].a[1].a[0]
            if isinstance(lo, Term) and lo is not NONE and lo is not const(0):
                return False
            return t.a[1] == recv.a[1] if recv.k == "elem" else None
        if t.k in ("elem", "sub") and t.a[0].k == "attr" and t.a[0].a[1] in ("_offset", "_extend_offset"):
            if t.k == "elem" and recv.k == "elem":
                return t.a[1] == recv.a[1]
            if t.k == "sub" and recv.k == "sub":
                return t.a[1] is recv.a[1]
            if t.k == "sub" and recv.k == "elem" and t.a[1].k == "idx":
                return t.a[1].a[1] == recv.a[1]
            if t.k == "elem" and recv.k == "sub" and recv.a[1].k == "idx":
                return recv.a[1].a[1] == t.a[1]
            return None
    return None


@rule("B04")
def lengths_and_last_index_follow_part(c):
    """After writing to part k, the whole's length and last index for k are refreshed from part k itself."""
    for cls in managers(c.p):
        fl = c.flow("add", cls)
        ups = [n for n in calls(fl, "_update_state_pre_add") if _is_child(n.d["recv"])]
        con = f"{cls.name}.add"
        if not ups:
            c.und(con, "no per-part state update found")
            continue
        for u in ups:
            r = u.d["recv"]
            ix = r.a[1] if r.k == "sub" else None
            for attr in ("_lengths", "last_index"):
                w = [n for n in setsubs(fl, base=Term("attr", SELF, attr)) if ix is None or n.d["index"] is ix]
                pth = find_path(u, [fl.exit_node] + [n for n in nodes(fl, "iter") if not n.d.get("comp")], w)
                c.decide(pth is None, f"{con}/{attr}", u.where, f"{attr} of the written part is not refreshed on the path {describe(pth)}")
                for n in w:
                    if not find_path(u, n):
                        continue
                    if attr == "_lengths":
                        v = n.d["value"]
                        if is_call(v, "len") and _is_child(v.a[1][0]):
                            c.decide(v.a[1][0] is r, f"{con}/{attr}/value", n.where, f"length of part {show(r)} is taken from {show(v)}")
                        elif n.d.get("aug") or v.k in ("bin", "const"):
                            c.bad(f"{con}/{attr}/value", n.where, f"length of part {show(r)} becomes {show(v)}, not the part's own length")
                        before = find_path(fl.entry_node, n, [u])
                        if before is not None and find_path(n, u) is not None and len(w) == 1:
                            c.bad(f"{con}/{attr}/order", n.where, f"{attr} is read before the part's state is advanced: {describe(before)}")
                    else:
                        v = n.d["value"]
                        own = [t for t in subterms(v) if t.k == "item" and t.a[0] is u.d["term"]]
                        if own:
                            c.decide({t.a[1] for t in own} == {0}, f"{con}/{attr}/value", n.where, f"last index is set from result {sorted(str(t.a[1]) for t in own)} of the state update, not from the insertion index")


@rule("B04")
def parts_are_laid_out_one_after_the_other(c):
    """At construction part k starts where part k-1 ends, its last position is its own shifted by its start, and the edges are those starts and the total capacity."""
    man = c.p.cls("ReplayBufferManager")
    fl = c.flow("__init__", man)
    con = f"{man.name}.__init__"

    def items(v):
        """Values appended to the list an array is made of."""
        while v.k == "call" and not is_call(v, "append") and v.a[1] and is_call(v, "array", "asarray"):
            v = v.a[1][0]
        if v.k == "list" and not v.a[0]:
            return [(n, n.d["args"][0]) for n in calls(fl, "append") if n.d["recv"] is v and n.d["args"]]
        return []

    def running(t):
        """t is the sum of the capacities of the parts before this one."""
        if t.k != "loopphi":
            return None
        vs = [x for x in fl.loops.get(t, ()) if x is not t]
        start = [x for x in vs if x is const(0)]
        grow = [x for x in vs if x is not const(0)]
        if len(start) != 1 or len(grow) != 1:
            return None
        d = poly(grow[0], lambda x: "acc" if x is t else None) - Poly.x("acc")
        return list(d.m.values()) == [1] and all(len(k) == 1 and k[0][0].endswith(".maxsize") for k in d.m) if d.m else False
    for n in setattrs(fl, "_offset", base=SELF):
        it = items(n.d["value"])
        if not it:
            c.und(con + "/starts", show(n.d["value"]))
        for m, x in it:
            ok = running(x)
            if ok is None and x.k in ("bin", "ibin") and any(running(t) for t in subterms(x)):
                ok = False
            c.decide(ok, con + "/starts", m.where, f"a part starts at {show(x)}, not at the end of the parts before it")
    for n in setattrs(fl, "last_index", base=SELF):
        if len(n.stack) != 1:
            continue
        it = items(n.d["value"])
        if not it:
            c.und(con + "/last positions", show(n.d["value"]))
        for m, x in it:
            acc = [t for t in subterms(x) if t.k == "loopphi"]
            own = [t for t in subterms(x) if t.k == "attr" and t.a[1] == "last_index" and _part(t.a[0])]
            if not own:
                c.decide(True if running(x) else None, con + "/last positions", m.where, show(x))
                continue
            good = len(acc) == 1 and running(acc[0]) and poly(x, lambda t: "acc" if t is acc[0] else "own" if t.k == "sub" and t.a[0] in own else None) == Poly.x("acc") + Poly.x("own")
            c.decide(True if good else False if not acc else None, con + "/last positions", m.where, f"the last position of a part is {show(x)}: not shifted by the part's start")
    for k in [c.p.cls(RB)] + managers(c.p):
        f = k.find("subbuffer_edges")
        fe = c.flow(f, k)
        for v in values(fe, fe.ret_value):
            con2 = f"{k.name}.subbuffer_edges"
            if k.name == "ReplayBuffer":
                bad = mentions(fe, v, attr_named("_size")) or any(is_call(t, "len") and t.a[1] == (SELF,) for t in closure(fe, v))
                c.decide(False if bad else True if mentions(fe, v, attr_named("maxsize")) else None, con2, fe.entry.where, f"the edges {show(v)} depend on how much is stored")
            else:
                bad = mentions(fe, v, attr_named("_lengths", "_size", "last_index"))
                c.decide(False if bad else True if mentions(fe, v, attr_named("_extend_offset")) else None, con2, fe.entry.where, f"the edges {show(v)} depend on how much is stored")


def _part(t):
    return t.k in ("elem", "sub", "val")


# ------------------------------------------------------------------------------- B08
def unmod(fl, t, atom):
    """Polynomial of an index expression with wrap-arounds (x % n) erased."""
    def at(x):
        if x.k in ("bin", "ibin") and x.a[0] == "%":
            return poly(x.a[1], at)
        if is_call(x, "mod", "remainder") and len(x.a[1]) == 2:
            return poly(x.a[1][0], at)
        return atom(x)
    return poly(t, at)


@rule("B08")
def ring_pointer(c):
    """The write pointer advances by exactly one modulo the capacity, the size saturates at the capacity and the last written slot is the one just filled."""
    cls = c.p.cls(RB)
    for name in ("_update_state_pre_add", "update"):
        if cls.find(name) is None:
            name2 = "add"
        else:
            name2 = name
        fl = c.flow(name2, cls)
        ins = Term("attr", SELF, "_insertion_idx")
        cap = Term("attr", SELF, "maxsize")
        size = Term("attr", SELF, "_size")
        ws = [n for n in setattrs(fl, "_insertion_idx", base=SELF)]
        if not ws:
            raise AnalysisBroken(f"{name2} no longer advances the write pointer")
        for n in ws:
            v = n.d["value"]
            con = f"{cls.name}.{name2}/insertion index"
            if v.k == "bin" and v.a[0] == "%":
                adv = poly(v.a[1], lambda t: "i" if t is ins else None) == Poly.x("i") + Poly.c(1)
                c.decide(adv and v.a[2] is cap, con, n.where, f"the write pointer becomes {show(v)} instead of (pointer + 1) mod capacity")
            elif v.k in ("bin", "const", "attr", "call") and not is_call(v, "mod", "where", "int"):
                c.bad(con, n.where, f"the write pointer becomes {show(v)}: it does not wrap at the capacity")
            else:
                c.und(con, show(v))
        for n in setattrs(fl, "_size", base=SELF):
            v = n.d["value"]
            con = f"{cls.name}.{name2}/size"
            if is_call(v, "min", "minimum") and len(v.a[1]) == 2:
                xs = set(v.a[1])
                grow = [x for x in xs if x is not cap]
                c.decide(cap in xs and len(grow) == 1 and poly(grow[0], lambda t: "s" if t is size else None) == Poly.x("s") + Poly.c(1), con, n.where,
                         f"the size becomes {show(v)} instead of min(size + 1, capacity)")
            elif v.k in ("bin", "ibin"):
                c.bad(con, n.where, f"the size becomes {show(v)}: it is not limited by the capacity")
            else:
                c.und(con, show(v))
        lw = setsubs(fl, base=Term("attr", SELF, "last_index")) + setattrs(fl, "last_index", base=SELF)
        for n in ws:
            pre = [m for m in lw if find_path(m, n) is not None]
            pth = find_path(n, [fl.exit_node], lw, loops_once=True) if not pre else None
            c.decide(pth is None, f"{cls.name}.{name2}/last index kept", n.where, f"the write pointer advances without recording the last written slot: {describe(pth)}")
        for n in setsubs(fl, base=Term("attr", SELF, "last_index")):
            vs = values(fl, n.d["value"])
            c.decide(vs == [ins], f"{cls.name}.{name2}/last index", n.where, f"the last written slot is recorded as {show(n.d['value'])}, not the slot being filled")


@rule("B08")
def neighbours_stop_at_ends(c):
    """prev/next move by one step inside the ring and stay put at an episode end or at the last written slot."""
    base = c.p.cls(RB)
    man = c.p.cls("ReplayBufferManager")
    for cls, name, step in ((base, "prev", -1), (base, "next", 1), (man, "prev", -1), (man, "next", 1)):
        fl = c.flow(name, cls, inline_quals=("_prev_index", "_next_index"))
        con = f"{cls.name}.{name}"
        outs = []
        for v in values(fl, fl.ret_value):
            if v.k == "sub" and v.a[1].k == "const":
                v = v.a[0]
            outs += values(fl, v)
        for v in outs:
            exprs = [v]
            if is_call(v, "zeros_like", "empty_like", "copy", "zeros"):
                exprs = [w.d["rhs"] for w in setsubs(fl, base=v)]
            for e in exprs:
                _check_step(c, fl, con, e, step)


def _check_step(c, fl, con, e, step):
    def is_done(t):
        return t.k == "sub" and t.a[0].k == "attr" and t.a[0].a[1] == "done"

    def is_end(t):
        return t.k in ("bin", "ibin") and t.a[0] == "|" or is_call(t, "logical_or") or (is_done(t)) or (t.k == "cmp")
    ends = {}

    def atom(t):
        if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "astype":
            return atom(t.a[0].a[0])
        if is_end(t):
            ends[t] = 1
            return "end"
        if (t.k == "un" and t.a[0] == "~") or is_call(t, "logical_not"):
            x = t.a[1] if t.k == "un" else t.a[1][0]
            if is_end(x):
                ends[x] = 1
                return Poly.c(1) - Poly.x("end")
        if t.k == "param" and t.a[0] == "index" or is_call(t, "asarray", "array") and "index" in skey(t):
            return "i"
        if t.k == "sub" and not is_done(t):
            return atom(t.a[0]) if t.a[1].k not in ("const",) else None
        if t.k == "elem" and "offset" in skey(t):
            return "o:" + skey(t)
        if t.k in ("bin",) and t.a[0] == "%":
            return unmod(fl, t.a[1], atom)
        return None
    wraps(c, fl, con, e)
    p_ = unmod(fl, e, atom)
    known = {a for a in p_.atoms() if a in ("i", "end")}
    if p_.atoms() - {"i", "end"}:
        c.und(con, f"index expression not understood: {p_}")
        return
    want = Poly.x("i") + (Poly.x("end") - Poly.c(1) if step < 0 else Poly.c(1) - Poly.x("end"))
    c.decide(p_ == want, con + "/step", fl.entry.where, f"moves an index i to {p_} (mod ring) instead of {want}")
    for t in ends:
        parts = list(t.a[1:]) if t.k in ("bin", "ibin") else (list(t.a[1]) if t.k == "call" else [t])
        dones = [x for x in parts if is_done(x)]
        eqs = [x for x in parts if x.k == "cmp" and x.a[0] == "=="]
        c.decide(len(dones) == 1, con + "/done", fl.entry.where, f"the stop condition {show(t)} does not look at the stored episode end")
        c.decide(len(eqs) == 1 and "last" in skey(eqs[0]), con + "/last", fl.entry.where, f"the stop condition {show(t)} does not look at the last written slot")
        want_at = Poly.x("i") + (Poly.c(-1) if step < 0 else Poly.c(0))
        for x in dones:
            got = unmod(fl, x.a[1], atom)
            if plain_index(got):
                c.decide(got == want_at, con + "/done at", fl.entry.where, f"the episode end is looked up at {got} instead of {want_at}")
        for x in eqs:
            side = x.a[1] if "last" in skey(x.a[2]) else x.a[2]
            got = unmod(fl, side, atom)
            if plain_index(got):
                c.decide(got == want_at, con + "/last at", fl.entry.where, f"the last slot is compared with {got} instead of {want_at}")


def plain_index(p):
    """Only the index itself and offsets of the part occur."""
    return all(a == "i" or a.startswith("o:") for a in p.atoms())


def wraps(c, fl, con, e):
    """Every wrap-around is modulo the number of stored transitions of the ring (a wrap modulo the whole capacity only brings an index into range first)."""
    mods, seen = [], set()

    def walk(t):
        if t in seen:
            return
        seen.add(t)
        if t.k in ("bin", "ibin") and t.a[0] == "%":
            mods.append((t.a[1], t.a[2]))
        elif is_call(t, "mod", "remainder") and len(t.a[1]) == 2:
            mods.append((t.a[1][0], t.a[1][1]))
        for x in subterms(t):
            if x is not t and (x.k in ("bin", "ibin") and x.a[0] == "%" or is_call(x, "mod", "remainder") and len(x.a[1]) == 2):
                walk(x)
    walk(e)
    for x, m in mods:
        vs = values(fl, m)
        if all(v is Term("attr", SELF, "_size") or is_call(v, "len") and v.a[1] == (SELF,) for v in vs):
            ok = True
        elif all(v is Term("attr", SELF, "maxsize") for v in vs) or all(v.k == "bin" and v.a[0] == "-" and "offset" in skey(v) for v in vs):
            ok = False
        elif all(v.k == "sub" and v.a[1] is const(-1) and "offset" in skey(v) for v in vs):
            ok = True if not mentions(fl, x, lambda t: t.k == "elem") else None  # into range before the part is known
        else:
            ok = True if all(mentions(fl, v, lambda t: "_lengths" in skey(t)) for v in vs) else None
        c.decide(ok, con + "/wrap", fl.entry.where, f"the index wraps modulo {show(m)}, not modulo the number of stored transitions")


@rule("B08")
def neighbours_treat_each_part_separately(c):
    """In a vectorised buffer an index belongs to the part whose range start <= index < end holds it."""
    man = c.p.cls("ReplayBufferManager")
    for name in ("prev", "next"):
        fl = c.flow(name, man, inline_quals=("_prev_index", "_next_index"))
        con = f"{man.name}.{name}"
        for n in nodes(fl, "setsub"):
            i = n.d["index"]
            sel = i
            if is_call(sel, "where", "nonzero", "flatnonzero") and len(sel.a[1]) == 1:
                sel = sel.a[1][0]
            cmps = [t for t in subterms(sel) if t.k == "cmp"]
            edges = [t for t in subterms(sel) if t.k == "elem" and "offset" in skey(t)]
            if not cmps or not edges or not is_call(n.d["base"], "zeros_like", "empty_like", "copy", "zeros", "empty"):
                continue
            cn = IntCanon(fl)
            lo = [t for t in edges if _edge(t) == 0]
            hi = [t for t in edges if _edge(t) == 1]
            if len(set(lo)) != 1 or len(set(hi)) != 1:
                c.decide(False if len(set(edges)) == 1 else None, con + "/range", n.where, f"an index is assigned to a part by {show(sel)}")
                continue
            ix = [x for t in cmps for x in t.a[1:] if x not in edges and x.k not in ("const",)]
            if len(set(ix)) != 1:
                c.und(con + "/range", show(sel))
                continue
            want = cn._cond(Term("cmp", "<=", lo[0], ix[0])) * cn._cond(Term("cmp", "<", ix[0], hi[0]))
            c.decide(cn.cond(sel) == want if not unknowns(cn) else None, con + "/range", n.where, f"an index is assigned to a part by {show(sel)}, not by start <= index < end")


def _edge(t):
    """0 for the parts' lower edges, 1 for their upper edges."""
    s = t.a[0]
    if s.k == "sub" and s.a[1].k == "slice":
        lo, hi = s.a[1].a[0], s.a[1].a[1]
        none = lambda x: not isinstance(x, Term) or x is NONE or x is const(0)
        if none(lo) and hi is const(-1):
            return 0
        if lo is const(1) and none(hi):
            return 1
    return None


class IntCanon(Canon):
    """Comparisons of integers: a <= b is a < b + 1."""

    def _cond(self, t):
        if t.k == "cmp" and t.a[0] in ("<", "<=", ">", ">="):
            op, a, b = t.a[0], self.form(t.a[1]), self.form(t.a[2])
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            return self.ind(a - b if op == "<" else a - b - Poly.c(1))
        return super()._cond(t)

    def ind(self, p):
        if set(p.m) <= {()}:
            return Poly.c(1 if p.m.get((), 0) < 0 else 0)
        k = sorted((x for x in p.m if x != ()), key=repr)[0]
        if p.m[k] < 0:
            return Poly.c(1) - self.atom("ind", self.ps(-p - Poly.c(1)))
        return self.atom("ind", self.ps(p))


@rule("B08")
def episode_counters(c):
    """Return, length and start of the running episode: accumulated every step, handed out and restarted exactly at the episode end."""
    cls = c.p.cls(RB)
    fl = c.flow("_update_state_pre_add", cls)
    rew, done = (Term("param", x) for x in fl.entry.params()[1:3])
    A = lambda n: Term("attr", SELF, n)
    exp_acc = {"_ep_return": rew, "_ep_len": const(1)}
    for a, inc in exp_acc.items():
        acc = [n for n in setattrs(fl, a, base=SELF) if poly(n.d["value"], lambda t: None) == Poly.x(skey(A(a))) + poly(inc, lambda t: None)]
        pth = find_path(fl.entry_node, fl.exit_node, acc)
        c.decide(pth is None, f"{a}/accumulate", fl.entry.where, f"{a} is not increased by {show(inc)} on the path {describe(pth)}")
    done_edge = lambda n, m, l: not (n.kind == "branch" and canon_cond(n.d["cond"])[0] is done and l == ("F" if canon_cond(n.d["cond"])[1] else "T"))
    undone_edge = lambda n, m, l: not (n.kind == "branch" and canon_cond(n.d["cond"])[0] is done and l == ("T" if canon_cond(n.d["cond"])[1] else "F"))
    adv = [n for n in setattrs(fl, "_insertion_idx", base=SELF)]
    for a in ("_ep_return", "_ep_len", "_ep_start_idx"):
        if a == "_ep_start_idx":
            res = [n for n in setattrs(fl, a, base=SELF) if n.d["value"] in [x.d["value"] for x in adv]]
        else:
            res = [n for n in setattrs(fl, a, base=SELF) if _constval(n.d["value"]) == 0.0]
        pth = find_path(fl.entry_node, fl.exit_node, res, edge_ok=done_edge)
        c.decide(pth is None, f"{a}/restart", fl.entry.where, f"{a} is not restarted when the episode ends: {describe(pth)}")
        pth = find_path(fl.entry_node, res, edge_ok=undone_edge)
        c.decide(pth is None, f"{a}/only at end", fl.entry.where, f"{a} is restarted although the episode goes on: {describe(pth)}")
    rets = [n for n in nodes(fl, "return") if len(n.stack) == 1]
    for n in rets:
        v = n.d["value"]
        if v.k != "tuple" or len(v.a[0]) != 4:
            c.und("result", show(v))
            continue
        i, r, ln, s = v.a[0]
        c.decide(i is A("_insertion_idx"), "result/index", n.where, f"the reported slot is {show(i)}, not the slot that is filled")
        c.decide(s is A("_ep_start_idx"), "result/start", n.where, f"the reported episode start is {show(s)}")
        c.decide(rew in closure(fl, r) and rew not in closure(fl, ln), "result/return,len", n.where, f"return and length are reported as {show(r)}, {show(ln)}")


@rule("B08")
def done_is_either_end(c):
    """The stored episode end is set exactly when the step terminated or was truncated; the same flags drive the episode counters."""
    for cls in buffer_classes(c.p):
        fl = c.flow("add", cls)
        b = fl.entry.params()[1]
        w = [n for n in setsubs(fl) if n.d["index"] is const("done") and n.d["base"].k == "attr" and n.d["base"].a[1] == "__dict__"]
        w += [n for n in setattrs(fl, "done")]
        w = [n for n in w if not is_call(n.d["value"], "astype")]
        con = f"{cls.name}.add/done"
        if not w:
            c.bad(con, fl.entry.where, "the episode-end flag is never derived from the step's own flags")
            continue
        for n in w:
            v = n.d["value"]
            t = mentions(fl, v, attr_named("terminated"))
            u = mentions(fl, v, attr_named("truncated"))
            ok = is_call(v, "logical_or", "bitwise_or") or (v.k == "bin" and v.a[0] == "|")
            if is_call(v, "logical_and", "logical_xor", "bitwise_and") or (v.k == "bin" and v.a[0] in "&^"):
                ok = False
            elif not ok:
                ok = None if t and u else False
            c.decide(ok and t and u if ok is not None else None, con, n.where, f"the episode end is computed as {show(v)}, not terminated or truncated")
        # on every path before the state update
        ups = calls(fl, "_update_state_pre_add")
        for u_ in ups:
            pth = find_path(fl.entry_node, u_, w)
            c.decide(pth is None, con + "/before", u_.where, f"the counters advance before the episode end is known: {describe(pth)}")
            for nm, i in (("rew", 0), ("done", 1)):
                a_ = arg(u_, i, nm)
                if a_ is not None:
                    c.decide(mentions(fl, a_, attr_named(nm)) or (nm == "done" and any(x.d["value"] in closure(fl, a_) for x in w)), f"{con}/{nm} passed", u_.where,
                             f"the episode counters are driven by {show(a_)} instead of the step's {nm}")
            if _is_child(u_.d["recv"]):
                r, dn = arg(u_, 0, "rew"), arg(u_, 1, "done")
                if r is not None and dn is not None and r.k == "sub" and dn.k == "sub" and r.a[1].k == "idx" and u_.d["recv"].k == "sub" and u_.d["recv"].a[1].k == "elem":
                    ok = r.a[1] is dn.a[1] and r.a[1].a[1] == u_.d["recv"].a[1].a[1]
                    c.decide(ok, con + "/row", u_.where, f"part {show(u_.d['recv'])} is advanced with row {show(r.a[1])}/{show(dn.a[1])} of the batch")


@rule("B08")
def add_result_order(c):
    """add() reports (slot, episode return, episode length, episode start), in that order, for vectorised buffers too."""
    for cls in managers(c.p):
        fl = c.flow("add", cls)
        for u in calls(fl, "_update_state_pre_add"):
            if not _is_child(u.d["recv"]):
                continue
            for v in values(fl, fl.ret_value):
                if v.k != "tuple" or len(v.a[0]) != 4:
                    c.und(f"{cls.name}.add/result", show(v))
                    continue
                for i, x in enumerate(v.a[0]):
                    used = {t.a[1] for t in closure(fl, x) if t.k == "item" and t.a[0] is u.d["term"]}
                    if cls.name == "CachedReplayBuffer" and i in (0, 3):
                        continue
                    c.decide(used == {i} if used else None, f"{cls.name}.add/result{i}", fl.entry.where, f"component {i} of the result is built from component(s) {sorted(map(str, used))} of the part's own result")


@rule("B08")
def cached_episode_transfer(c):
    """A cached episode moves to the main buffer exactly when it ends, then its cache slot and bookkeeping are cleared."""
    cls = c.p.cls("CachedReplayBuffer")
    fl = c.flow("add", cls)
    mv = [n for n in calls(fl, "update") if n.d["args"] and _is_child(n.d["args"][0])]
    if not mv:
        raise AnalysisBroken("CachedReplayBuffer.add no longer moves finished episodes")
    sup = [n for n in calls(fl, "add") if n.d["is_super"]] or [n for n in calls(fl, "_update_state_pre_add")]
    for n in mv:
        child = n.d["args"][0]
        pth = find_path(fl.entry_node, n, sup, loops_once=True)
        c.decide(pth is None, "order", n.where, f"an episode is moved before the step is stored: {describe(pth)}")
        ix = child.a[1] if child.k == "sub" else None
        rs = [m for m in calls(fl, "reset") if m.d["recv"] is child]
        pth = find_path(n, [fl.exit_node] + [m for m in nodes(fl, "iter") if not m.d.get("comp")], rs)
        c.decide(pth is None, "cache cleared", n.where, f"the moved episode stays in its cache slot: {describe(pth)}")
        early = [m for m in rs if find_path(m, n, [x for x in nodes(fl, "iter")]) is not None]
        c.decide(not early, "cleared after move", n.where, "the cache slot is cleared before its episode is moved")
        main = n.d["recv"]
        res = n.d["term"]
        moved = lambda v, i: any(x.k == "sub" and x.a[0] is res and x.a[1] is const(i) or x.k == "item" and x.a[0] is res and x.a[1] == i for x in values(fl, v)) or v.k == "sub" and v.a[1] is const(i) and res in values(fl, v.a[0])
        for attr, sub_ in (("_lengths", ix), ("last_index", ix), ("_lengths", const(0)), ("last_index", const(0))):
            w = [m for m in setsubs(fl, base=Term("attr", SELF, attr)) if m.d["index"] is sub_ and len(m.stack) == 1]
            for m in w:
                v = m.d["value"]
                con = f"{attr}[{'main' if sub_ is const(0) else 'cache'}]/value"
                if attr == "_lengths" and sub_ is const(0):
                    ok = True if is_call(v, "len") and v.a[1][0] in (main, Term("sub", Term("attr", SELF, "buffers"), const(0))) else False if m.d.get("aug") or v.k in ("bin", "const") or is_call(v, "len") else None
                elif attr == "_lengths":
                    ok = True if v is const(0) or is_call(v, "len") and v.a[1][0] is child else False if v.k == "const" else None
                elif sub_ is const(0):
                    ok = True if moved(v, -1) else False if moved(v, 0) or v.k == "const" else None
                else:
                    own = [t for t in subterms(v) if t.k == "sub" and t.a[0].k == "attr" and t.a[0].a[1] in ("_offset", "_extend_offset")]
                    ok = True if own and all(t.a[1] is sub_ for t in own) else False if own or v.k == "const" else None
                c.decide(ok, con, m.where, f"{attr}[{show(sub_)}] becomes {show(v)} when an episode is moved")
            pth = find_path(n, [fl.exit_node] + [m for m in nodes(fl, "iter") if not m.d.get("comp")], w)
            c.decide(pth is None if sub_ is not None else None, f"{attr}[{'main' if sub_ is const(0) else 'cache'}]", n.where, f"{attr} is stale after the move: {describe(pth)}")
        # what is reported for the moved episodes: their first and last slot in the main buffer
        for v in values(fl, fl.ret_value):
            if v.k == "tuple" and len(v.a[0]) == 4:
                for pos, what, i in ((0, "last slot", -1), (3, "first slot", 0)):
                    for m in setsubs(fl, base=v.a[0][pos]):
                        got = m.d["value"]
                        if len(m.stack) != 1 or got.k != "list":
                            continue
                        app = [x.d["args"][0] for x in calls(fl, "append") if x.d["recv"] is got and x.d["args"]]
                        if app and not got.a[0]:
                            c.decide(True if all(moved(x, i) for x in app) else False if all(moved(x, -1 - i) for x in app) else None, f"moved episode/{what}", m.where, f"the {what} of a moved episode is reported as {show(app[0])}")
        # which slots: exactly those whose step ended the episode
        if ix is not None and ix.k == "elem":
            src = ix.a[0]
            ok = mentions(fl, src, attr_named("terminated", "done")) and (mentions(fl, src, attr_named("truncated", "done")))
            c.decide(ok, "which episodes", n.where, f"the moved slots are {show(src)}: not chosen by terminated or truncated")


# ------------------------------------------------------------------------------- B05
def prio_classes(p):
    return p.subclasses(p.cls("PrioritizedReplayBuffer").qual)


@rule("B05")
def new_data_gets_priority(c):
    """Every path that stores transitions gives exactly the written slots the initial (maximal) priority."""
    for cls in prio_classes(c.p):
        for name in ("add", "update"):
            if cls.find(name).is_abstract or (name == "update" and cls.is_sub(c.p.cls("ReplayBufferManager").qual)):
                continue
            fl = c.flow(name, cls, opaque=("init_weight",) if False else ())
            con = f"{cls.name}.{name}"
            tree = Term("attr", SELF, "weight")
            w = [n for n in setsubs(fl, base=tree)]
            if not w:
                c.bad(con, fl.entry.where, f"{con} stores transitions without ever setting their priority")
                continue
            pth = find_path(fl.entry_node, fl.exit_node, w)
            c.decide(pth is None, con, fl.entry.where, f"transitions are stored without a priority on the path {describe(pth)}")
            for n in w:
                v, i = n.d["value"], n.d["index"]
                ok = mentions(fl, v, attr_named("_max_prio")) and mentions(fl, v, attr_named("_alpha"))
                c.decide(ok, con + "/value", n.where, f"new transitions get priority {show(v)} instead of max_priority ** alpha")
                rv = fl.ret_value
                outs = []
                for x in values(fl, rv):
                    outs.append(x.a[0][0] if x.k == "tuple" else x)
                same = any(i is o or set(values(fl, i)) & set(values(fl, o)) for o in outs)
                last_only = i is Term("attr", SELF, "last_index") and (name == "update" or cls.is_sub(c.p.cls("ReplayBufferManager").qual))
                c.decide(same or (False if last_only else None), con + "/slots", n.where, f"priorities are set for {show(i)} but the written slots are {[show(o) for o in outs]}")


@rule("B05")
def priority_formulas(c):
    """stored = |td|^alpha, sampled weight = (stored/min)^-beta, min/max track every update."""
    cls = c.p.cls("PrioritizedReplayBuffer")
    fl = c.flow("update_weight", cls)
    idx, new = (Term("param", x) for x in fl.entry.params()[1:3])
    tree = Term("attr", SELF, "weight")
    w = setsubs(fl, base=tree)
    pth = find_path(fl.entry_node, fl.exit_node, w)
    c.decide(bool(w) and pth is None, "update_weight/tree", fl.entry.where, "new priorities are not written to the sampling tree on every path")
    for n in w:
        v = n.d["value"]
        c.decide(n.d["index"] is idx, "update_weight/index", n.where, f"priorities are written at {show(n.d['index'])}")
        if v.k == "bin" and v.a[0] == "**":
            c.decide(v.a[2] is Term("attr", SELF, "_alpha") and new in closure(fl, v.a[1]), "update_weight/alpha", n.where, f"stored priority is {show(v)} instead of |w| ** alpha")
            c.decide(any(is_call(t, "abs", "absolute", "fabs") for t in closure(fl, v.a[1])), "update_weight/abs", n.where, "the priority is not made non-negative")
        else:
            c.decide(False if not mentions(fl, v, attr_named("_alpha")) else None, "update_weight/alpha", n.where, f"stored priority {show(v)} does not use alpha")
    for a, red in (("_max_prio", "max"), ("_min_prio", "min")):
        ws = setattrs(fl, a, base=SELF)
        pth = find_path(fl.entry_node, fl.exit_node, ws)
        old = Term("attr", SELF, a)
        c.decide(bool(ws) and pth is None, f"update_weight/{a}", fl.entry.where, f"{a} is not tracked on the path {describe(pth)}")
        for n in ws:
            v = n.d["value"]
            other = {"max": ("min", "minimum", "amin"), "min": ("max", "maximum", "amax")}[red]
            bad = any(is_call(t, *other) for t in subterms(v)) or old not in closure(fl, v) or new not in closure(fl, v)
            powered = any(t.k == "bin" and t.a[0] == "**" and new in closure(fl, t) for t in closure(fl, v))
            other_red = any(is_call(t, "mean", "median", "sum", "average", "prod") and new in closure(fl, t) for t in closure(fl, v))
            one = any(t.k == "sub" and t.a[1].k in ("const", "un") and new in closure(fl, t.a[0]) for t in closure(fl, v))
            c.decide(not bad and not powered and not other_red and not one, f"update_weight/{a}/value", n.where, f"{a} becomes {show(v)}, not the running {red} of the raw priorities")
    fl = c.flow("get_weight", cls)
    for v in values(fl, fl.ret_value):
        if v.k == "bin" and v.a[0] == "**":
            neg = v.a[2].k == "un" and v.a[2].a[0] == "-" and v.a[2].a[1] is Term("attr", SELF, "_beta")
            base = v.a[1]
            ok = base.k == "bin" and base.a[0] == "/" and tree in closure(fl, base.a[1]) and mentions(fl, base.a[2], attr_named("_min_prio"))
            inv = base.k == "bin" and base.a[0] == "/" and mentions(fl, base.a[1], attr_named("_min_prio")) and v.a[2] is Term("attr", SELF, "_beta")
            c.decide((ok and neg) or inv, "get_weight", fl.entry.where, f"importance weight is {show(v)} instead of (priority / min) ** -beta")
        else:
            c.decide(False if not mentions(fl, v, attr_named("_beta")) else None, "get_weight", fl.entry.where, f"importance weight {show(v)} ignores beta")


@rule("B05")
def sampled_weight_attached(c):
    """Sampled batches carry the importance weights of exactly the returned slots; positive-size sampling draws from the tree."""
    for cls in prio_classes(c.p):
        fl = c.flow("__getitem__", cls)
        ws = [n for n in setattrs(fl, "weight") if n.d["base"] is not SELF] + [n for n in setsubs(fl) if n.d["index"] is const("weight")]
        pth = find_path(fl.entry_node, fl.exit_node, ws)
        con = f"{cls.name}.__getitem__"
        c.decide(bool(ws) and pth is None, con, fl.entry.where, f"a sampled batch lacks its weights on the path {describe(pth)}")
        # weight index == data index
        sup = [n for n in calls(fl, "__getitem__") if n.d["is_super"]]
        gw = calls(fl, "get_weight")
        if sup and gw:
            x_, y_ = (t.d["args"][0].a[1][0] if is_call(t.d["args"][0], "asarray", "array") and t.d["args"][0].a[1] else t.d["args"][0] for t in (sup[0], gw[0]))
            c.decide(x_ is y_, con + "/slots", gw[0].where, f"weights are those of {show(gw[0].d['args'][0])}, data those of {show(sup[0].d['args'][0])}")
        for n in ws:
            c.decide(mentions(fl, n.d["value"], attr_named("weight")) and mentions(fl, n.d["value"], attr_named("_beta")), con + "/value", n.where,
                     f"attached weight is {show(n.d['value'])}")
        vs = [x for n in ws for x in values(fl, n.d["value"])]
        norm = [x for x in vs if x.k == "bin" and x.a[0] == "/" and any(is_call(t, "max", "amax") for t in subterms(x.a[2]))]
        gate = any(n.kind == "branch" and mentions(fl, n.d["cond"], attr_named("_weight_norm")) for n in nodes(fl))
        c.decide(bool(norm) and gate, con + "/normalisation", fl.entry.where, "weights are not normalised by their maximum under the configured switch")
        fl = c.flow("sample_indices", cls, opaque=())
        tr = [n for n in calls(fl, "get_prefix_sum_idx")]
        con = f"{cls.name}.sample_indices"
        bs = Term("param", "batch_size")
        c.decide(bool(tr), con, fl.entry.where, "sampling never consults the priorities")
        for n in tr:
            c.decide(any(is_call(t, "rand", "random", "uniform", "random_sample") for t in closure(fl, *n.d["args"])) and any(is_call(t, "reduce") for t in closure(fl, *n.d["args"])), con + "/draw", n.where,
                     f"sampling position {show(n.d['args'][0])} is not a random fraction of the total priority")
            for t in closure(fl, *n.d["args"]):
                if is_call(t, "reduce"):
                    ends = [x for x in list(t.a[1]) + [v_ for _, v_ in t.a[2]] if x is not NONE and x is not const(0)]
                    c.decide(all(x is Term("attr", SELF, "maxsize") for x in ends), con + "/total", n.where, f"sampling draws from {show(t)}, not from the priorities of all stored transitions")


@rule("B05")
def learner_writes_back(c):
    """After each update the policy hands the new absolute errors back to the buffer for exactly the sampled slots."""
    cls = c.p.cls("BasePolicy")
    for k in c.p.subclasses(cls.qual):
        f = k.find("post_process_fn")
        if f is None:
            raise AnalysisBroken("post_process_fn vanished")
        if f.cls is not cls and f.cls.name in ("MultiAgentPolicyManager",):
            continue
        fl = c.flow(f, k)
        up = calls(fl, "update_weight")
        dl = [n for n in calls(fl, "post_process_fn") if n.d["recv"] is not None and n.d["recv"] is not SELF]
        con = f"{k.name}.post_process_fn"
        if dl and not up:
            c.ok(con, "delegates to wrapped policy")
            continue
        bt, buf, idx = (Term("param", x) for x in fl.entry.params()[1:4])
        c.decide(bool(up), con, fl.entry.where, "learned errors are never written back as priorities")
        for n in up:
            c.decide(n.d["recv"] is buf and arg(n, 0, "index") is idx and attr_named("weight")(arg(n, 1, "new_weight") or NONE), con + "/args", n.where,
                     f"priorities are updated by {show(n.d['term'])} instead of the sampled slots with the batch's new weights")
            # only guarded by the presence of weights / method support
            gs = [g for g in guards(fl, n)]
            odd = [g for g, pol in gs if not (is_call(g, "hasattr", "isinstance") or (g.k == "cmp" and g.a[0] in ("in", "is")))]
            c.decide(not odd, con + "/guard", n.where, f"write-back additionally depends on {[show(g) for g in odd]}")


@rule("B05")
def manager_settings_apply_to_weights(c):
    """A setting changed on a vectorised prioritized buffer changes the value its own weights are computed from; construction keeps every setting."""
    for cls in prio_classes(c.p):
        fl = c.flow("set_beta", cls)
        w = setattrs(fl, "_beta", base=SELF)
        pth = find_path(fl.entry_node, fl.exit_node, w)
        c.decide(bool(w) and pth is None, f"{cls.name}.set_beta", fl.entry.where, f"set_beta does not change the exponent used by {cls.name}.get_weight")
    base = c.p.cls("PrioritizedReplayBuffer")
    fl = c.flow("__init__", base)
    opt = [n for n in calls(fl, "update") if n.d["recv"] is not None and skey(n.d["recv"]).endswith("self.options") or (n.d["recv"] is not None and n.d["recv"].k == "dict" and n.d["name"] == "update")]
    own = [x for x in fl.entry.all_params()[2:] if x != "kwargs"]
    have = set()
    for n in opt:
        have |= set(n.d["kw"])
        for a_ in n.d["args"]:
            if a_.k == "dict":
                have |= {k_.a[0] for k_, _ in a_.a[0] if k_ is not None and k_.k == "const"}
    for n in setsubs(fl):
        if n.d["index"].k == "const":
            have.add(n.d["index"].a[0])
    for n in setattrs(fl, "options", base=SELF):
        for t in subterms(n.d["value"]):
            if t.k == "dict":
                have |= {k_.a[0] for k_, _ in t.a[0] if k_ is not None and k_.k == "const"}
    for x in own:
        c.decide(x in have, f"PrioritizedReplayBuffer/options/{x}", fl.entry.where,
                 f"constructor setting {x} is not recorded in the options a vectorised buffer rebuilds its parts from: it silently reverts to the default there")


# ------------------------------------------------------------------------------- B06
@rule("B06")
def relabel_restored_first(c):
    """Relabelled goals and rewards are put back before data is stored, re-sampled, copied, reset or saved."""
    her = c.p.cls("HERReplayBuffer")
    for cls in c.p.subclasses(her.qual):
        for name, event in (("add", "w"), ("update", "w"), ("set_batch", "w"), ("reset", "r"), ("save_hdf5", "s"), ("sample_indices", "x")):
            fl = c.flow(name, cls)
            con = f"{cls.name}.{name}"
            rest = calls(fl, "_restore_cache")
            inl = [n for n in nodes(fl, "setsub") if n.d["base"] is Term("attr", SELF, "_meta") and n.d["value"] is Term("attr", SELF, "_original_meta")]
            tgt = [n for n in nodes(fl, "call") if n.d["is_super"] and n.d["name"] == name] or [fl.exit_node]
            r = rest or inl
            for t in tgt:
                pth = find_path(fl.entry_node, t, r)
                c.decide(bool(r) and pth is None, con, fl.entry.where, f"{con} proceeds on relabelled data: {describe(pth)}")
    man = c.p.cls("HERReplayBufferManager")
    for cls in c.p.subclasses(man.qual):
        for name in ("add", "update", "set_batch", "save_hdf5"):
            fl = c.flow(name, cls)
            rest = [n for n in calls(fl, "_restore_cache") if _is_child(n.d["recv"])]
            tgt = [n for n in nodes(fl, "call") if n.d["is_super"] and n.d["name"] == name] or [fl.exit_node]
            for t in tgt:
                pth = find_path(fl.entry_node, t, rest, loops_once=True)
                c.decide(bool(rest) and pth is None, f"{cls.name}.{name}", fl.entry.where, f"{cls.name}.{name} proceeds without restoring every part: {describe(pth)}")
            for n in rest:
                if n.d["recv"].k == "elem":
                    src = n.d["recv"].a[0]
                    c.decide(src is Term("attr", SELF, "buffers"), f"{cls.name}.{name}/all", n.where, f"only {show(src)} are restored")


@rule("B06")
def relabel_is_recorded(c):
    """Before the stored data is overwritten by relabelled values, the originals of exactly the overwritten slots are saved."""
    her = c.p.cls("HERReplayBuffer")
    for cls in c.p.subclasses(her.qual):
        fl = c.flow("rewrite_transitions", cls)
        meta = Term("attr", SELF, "_meta")
        wr = [n for n in setsubs(fl) if root(n.d["base"]) is SELF and mentions(fl, n.d["base"], lambda t: t is meta)]
        con = f"{cls.name}.rewrite_transitions"
        if not wr:
            raise AnalysisBroken("relabelling writes no stored data any more")
        saves = setattrs(fl, "_original_meta", base=SELF)
        idxs = setattrs(fl, "_altered_indices", base=SELF)
        for n in wr:
            for s, what in ((saves, "original data"), (idxs, "slot list")):
                pth = find_path(fl.entry_node, n, s)
                c.decide(pth is None, f"{con}/{what}", n.where, f"slots are overwritten before the {what} is saved: {describe(pth)}")
            # same slots
            for x in idxs:
                iv = n.d["index"]
                sv = x.d["value"]
                core = sv
                if is_call(core, "copy", "array"):
                    core = core.a[0].a[0] if core.a[0].k == "attr" and core.a[0].a[1] == "copy" else core.a[1][0]
                c.decide(iv is core or iv is sv or iv is Term("attr", SELF, "_altered_indices") or None, f"{con}/slots", n.where, f"written slots {show(iv)} differ from the recorded ones {show(sv)}")
        for s in saves:
            v = s.d["value"]
            core = v
            copied = is_call(v, "copy", "deepcopy") or is_call(v, "Batch")
            if is_call(v, "copy") and v.a[0].k == "attr":
                core = v.a[0].a[0]
            elif v.k == "call" and v.a[1]:
                core = v.a[1][0]
            same = core.k == "sub" and core.a[0] is meta
            c.decide(same or None, f"{con}/saved", s.where, f"saved originals are {show(v)}")
            if same:
                ok = any(core.a[1] is x.d["value"] or skey(core.a[1]) == skey(x.d["value"]) for x in idxs)
                c.decide(ok, f"{con}/saved slots", s.where, f"originals of {show(core.a[1])} are saved for the slot list {[show(x.d['value']) for x in idxs]}")
        # restore: same slots, then forget
        fr = c.flow("_restore_cache", cls)
        w = [n for n in setsubs(fr, base=meta)]
        ok = [n for n in w if n.d["index"] is Term("attr", SELF, "_altered_indices") and n.d["value"] is Term("attr", SELF, "_original_meta")]
        c.decide(bool(ok), f"{cls.name}._restore_cache/write", fr.entry.where, "originals are not written back to the recorded slots")
        for n in ok:
            for a in ("_altered_indices",):
                cl = setattrs(fr, a, base=SELF)
                pth = after_all(fr, n, cl)
                c.decide(pth is None, f"{cls.name}._restore_cache/forget", n.where, f"{a} is kept after restoring: the next restore would overwrite newer data: {describe(pth)}")
                pre = [x for x in cl if find_path(x, n) is not None]
                c.decide(not pre, f"{cls.name}._restore_cache/order", n.where, "the record is dropped before it is used")
        # path that skips restoring although something was altered
        def nothing_altered(n, m, l):
            if n.kind != "branch":
                return False
            cn, pol = canon_cond(n.d["cond"])
            if is_call(cn, "hasattr"):
                return l == ("F" if pol else "T")
            if "_altered_indices" in skey(cn) and cn.k == "cmp" and cn.a[0] == "==" and const(0) in cn.a:
                return l == ("T" if pol else "F")
            if "_altered_indices" in skey(cn) and cn.k == "cmp" and cn.a[0] == "<" and cn.a[1] is const(0):
                return l == ("F" if pol else "T")
            if "_altered_indices" in skey(cn) and cn.k in ("attr", "call"):
                return l == ("F" if pol else "T")
            return False
        pth = find_path(fr.entry_node, fr.exit_node, ok, edge_ok=lambda a, b, l: not nothing_altered(a, b, l))
        c.decide(pth is None, f"{cls.name}._restore_cache/complete", fr.entry.where, f"altered data is not restored on the path {describe(pth)}")


@rule("B06")
def relabel_keeps_indices_and_storage(c):
    """Sampling hands back the sampled slots unmodified and relabelling works on copies of the stored data until it is recorded."""
    her = c.p.cls("HERReplayBuffer")
    for cls in c.p.subclasses(her.qual):
        fl = c.flow("sample_indices", cls, opaque=("sample_indices",) if False else ())
        for v in values(fl, fl.ret_value):
            al = Alias(fl, [v])
            ms = [m for m in al.mutations() if find_path(m[0], fl.exit_node)]
            c.decide(not ms, f"{cls.name}.sample_indices/returned", ms[0][0].where if ms else "", f"the sampled indices are modified after drawing: {ms[0][3] if ms else ''}")
        # relabel called after drawing
        rw = calls(fl, "rewrite_transitions")
        c.decide(bool(rw), f"{cls.name}.sample_indices/relabel", fl.entry.where, "sampling never relabels")
        # reward recomputed with the relabelled goal
        fr = c.flow("rewrite_transitions", cls, opaque=("_compute_reward",))
        cr = calls(fr, "_compute_reward")
        rewset = [n for n in setsubs(fr) if n.d["value"] in [x.d["term"] for x in cr] or any(x.d["term"] in closure(fr, n.d["value"]) for x in cr)]
        c.decide(bool(cr) and bool(rewset), f"{cls.name}.rewrite_transitions/reward", fr.entry.where, "the reward is not recomputed for the relabelled goal")
        for x in cr:
            goal = [n for n in setsubs(fr) if n.d["base"].k == "attr" and n.d["base"].a[1] == "desired_goal"]
            pth = find_path(fr.entry_node, x, goal)
            c.decide(pth is None, f"{cls.name}.rewrite_transitions/goal first", x.where, f"the reward is recomputed before the goal is replaced: {describe(pth)}")


def _subset(i):
    """The part of an index that selects some of the entries (full slices and new axes dropped)."""
    parts = list(i.a[0]) if i.k == "tuple" else [i]
    return [x for x in parts if not (x is NONE or x.k == "slice" and all(not isinstance(y, Term) or y is NONE for y in x.a) or x is const(Ellipsis) or x.k == "global" and x.a[0].rsplit(".", 1)[-1] in ("newaxis", "Ellipsis"))]


@rule("B06")
def relabelled_reward_fits_the_new_goal(c):
    """The reward is computed from the achieved goal of the next observation and the new desired goal, for the relabelled transitions only; the new goal is one achieved later."""
    her = c.p.cls("HERReplayBuffer")
    for cls in c.p.subclasses(her.qual):
        fc = c.flow("_compute_reward", cls)
        con = f"{cls.name}._compute_reward"
        for n in nodes(fc, "call"):
            if n.d["fn"] is not Term("attr", SELF, "compute_reward_fn") and n.d["name"] != "compute_reward_fn":
                continue
            pos = list(n.d["args"])
            if len(pos) != 2:
                c.und(con + "/arguments", show(n.d["term"]))
                continue
            got = [{x for x in ("achieved_goal", "desired_goal") if mentions(fc, t, attr_named(x))} for t in pos]
            c.decide(got == [{"achieved_goal"}, {"desired_goal"}] if all(got) else None, con + "/arguments", n.where, f"the reward function gets {got[0]} and {got[1]} instead of the achieved and the desired goal")
        fl = c.flow("rewrite_transitions", cls, opaque=("_compute_reward", "__getitem__", "next", "prev"))
        con = f"{cls.name}.rewrite_transitions"
        goals = [n for n in setsubs(fl) if n.d["base"].k == "attr" and n.d["base"].a[1] == "desired_goal"] + setattrs(fl, "desired_goal")
        holder = lambda n: n.d["base"].a[0] if n.kind == "setsub" else n.d["base"]
        vs = lambda t: [x for x in values(fl, t) if x.k != "undef"]
        isobs = lambda t: t.k == "attr" and t.a[1] == "obs" and t.a[0].k in ("sub", "call")
        at = lambda t: t.a[0].a[1] if t.a[0].k == "sub" else None
        cr = calls(fl, "_compute_reward")
        for n in cr:
            x = arg(n, 0, "obs")
            if x is None:
                c.und(con + "/reward of", show(n.d["term"]))
                continue
            own = [g for g in goals if set(vs(holder(g))) & set(vs(x))]
            pth = find_path(fl.entry_node, n, own)
            c.decide(pth is None, con + "/reward goal", n.where, f"the reward is computed from {show(x)}, which still has the old goal: {describe(pth)}")
            for v in vs(x):
                if isobs(v) and at(v) is not None:
                    c.decide(any(is_call(t, "next") for t in subterms(at(v))), con + "/reward of", n.where, "the reward is computed from the observation before the step")
                else:
                    c.decide(True if v.k == "attr" and v.a[1] == "obs_next" else None, con + "/reward of", n.where, show(v))
        subsets = {}
        for g in goals:
            if g.kind != "setsub":
                c.und(con + "/goal", show(g.d["value"]))
                continue
            v = g.d["value"]
            i = _subset(g.d["index"])
            src = v
            j = None
            if v.k == "sub":
                j = _subset(v.a[1])
                src = v.a[0]
            for w in vs(src):
                c.decide(w.a[1] == "achieved_goal" if w.k == "attr" and w.a[1] in ("achieved_goal", "desired_goal", "observation") else None, con + "/goal", g.where, f"the new goal is {show(w)}, not a goal achieved later")
            c.decide([skey(x) for x in i] == [skey(x) for x in j] if j is not None and len(i) == len(j) == 1 else None, con + "/goal of", g.where, f"goals of {show(g.d['index'])} are replaced by those of {show(v.a[1]) if v.k == 'sub' else show(v)}")
            for x in i:
                subsets.setdefault(skey(x), g)
        meta = Term("attr", SELF, "_meta")
        for n in setsubs(fl):
            b = n.d["base"]
            if not (b.k == "attr" and b.a[0] is meta and len(n.stack) == 1):
                continue
            name = b.a[1]
            v = n.d["value"]
            while v.k == "call" and v.a[0].k == "attr" and v.a[0].a[1] in ("astype", "copy"):
                v = v.a[0].a[0]
            for w in vs(v):
                if name in ("obs", "obs_next", "rew"):
                    if w.k == "attr" and w.a[1] in ("obs", "obs_next", "rew"):
                        c.decide(w.a[1] == name, f"{con}/stored {name}", n.where, f"{name} is overwritten by {show(w)}")
                    else:
                        c.decide(False if is_call(w, "_compute_reward") else None, f"{con}/stored {name}", n.where, f"{name} of all sampled episodes becomes {show(w)}, also of those that keep their goal")
        for n in setsubs(fl):
            v = n.d["value"]
            core = v.a[0] if v.k == "sub" else v
            if not any(core is x.d["term"] for x in cr):
                continue
            i = _subset(n.d["index"])
            c.decide(True if [skey(x) for x in i] == list(subsets) else False if not i else None, con + "/rewards of", n.where, f"rewards are replaced for {show(n.d['index'])}, goals for another selection")
            if v.k == "sub":
                c.decide([skey(x) for x in _subset(v.a[1])] == [skey(x) for x in i], con + "/rewards from", n.where, f"rewards of {show(n.d['index'])} are taken from {show(v.a[1])}")


# ------------------------------------------------------------------------------- B07
@rule("B07")
def hdf5_tags_agree(c):
    """Every kind of value the writer stores is recognised by the reader through the tag the writer attached."""
    w = c.flow("to_hdf5")
    r = c.flow("from_hdf5")
    TAG = const("__data_type__")
    tags = {}
    for n in setsubs(w):
        if n.d["index"] is TAG:
            tags.setdefault(n.d["value"], []).append(n)
    read_cmp = set()
    for t in closure(r, *[n.d["cond"] for n in nodes(r, "branch")], conds=True):
        if t.k == "cmp" and t.a[0] == "==":
            for x in t.a[1:]:
                if x.k == "const":
                    read_cmp.add(x.a[0])
        if t.k == "cmp" and t.a[0] == "in" and t.a[2].k in ("tuple", "list", "set"):
            read_cmp |= {x.a[0] for x in t.a[2].a[0] if x.k == "const"}
    lits = {t.a[0] for t in tags if t.k == "const"}
    need = {"Batch", "Tensor", "ndarray"}
    for x in sorted(need):
        c.decide(x in lits, f"writer tag {x}", w.entry.where, f"values of kind {x} are written without their tag")
        c.decide(x in read_cmp, f"reader tag {x}", r.entry.where, f"the reader does not recognise the tag {x}")
    # datasets: every create_dataset is followed by a tag write on its path back to the loop
    ds = calls(w, "create_dataset")
    tagw = [n for ns in tags.values() for n in ns]
    heads = [n for n in nodes(w, "iter") if not n.d.get("comp")]
    for n in ds:
        pth = find_path(n, heads + [w.exit_node], tagw)
        c.decide(pth is None, f"tagged dataset/{n.d['kw'].get('data') and show(n.d['kw']['data'])[:30]}", n.where, f"a dataset is written without a kind tag: {describe(pth)}")
        comp = n.d["kw"].get("compression")
        c.decide(comp is not None and Term("param", "compression") in closure(w, comp), "compression/" + show(n.d["kw"].get("data", NONE))[:30], n.where, "the requested compression is not used for this dataset")
    # payload kind must match its tag
    for n in ds:
        d = n.d["kw"].get("data") or (n.d["args"][1] if len(n.d["args"]) > 1 else None)
        if d is None:
            continue
        pick = any(is_call(t, "dumps") for t in closure(w, d))
        after = set()
        stop = tagw
        # first tags reachable
        seen = set()
        st = [n]
        while st:
            x = st.pop()
            for m, l in x.succ:
                if m.id in seen or l == "exc":
                    continue
                seen.add(m.id)
                if m in tagw:
                    after.add(m.d["value"])
                    continue
                if m in heads:
                    continue
                st.append(m)
        for tg in after:
            if tg.k == "const":
                if pick:
                    c.decide(tg.a[0] not in ("ndarray", "Tensor", "Batch"), f"pickled tag {tg.a[0]}", n.where, f"pickled bytes are tagged {tg.a[0]!r}, which the reader treats as plain data")
                else:
                    c.decide(tg.a[0] in ("ndarray", "Tensor"), f"plain tag {tg.a[0]}", n.where, f"plain data is tagged {tg.a[0]!r}")
    # reader: pickle only for non-plain tags, tensor -> torch.tensor on device, ndarray -> np array copy
    for n in calls(r, "loads"):
        gs = guards(r, n)
        for lit in ("ndarray", "Tensor"):
            c.decide(any(g.k == "cmp" and const(lit) in g.a and not pol for g, pol in gs) or None, f"reader pickle not {lit}", n.where, f"data tagged {lit} may reach the unpickler")
    for n in nodes(r, "return"):
        gs = guards(r, n)
        for lit, fn in (("ndarray", ("array",)), ("Tensor", ("tensor",)), ("Batch", ("Batch",))):
            if any(g.k == "cmp" and const(lit) in g.a and pol for g, pol in gs) and len(n.stack) == 1:
                c.decide(any(is_call(t, *fn) for t in closure(r, n.d["value"])), f"reader rebuilds {lit}", n.where, f"data tagged {lit} is rebuilt as {show(n.d['value'])}")
    for n in calls(r, "tensor"):
        d = n.d["kw"].get("device")
        c.decide(d is not None and Term("param", "device") in closure(r, d), "reader device", n.where, "tensors are not loaded to the requested device")
    rec = [n for n in calls(r, "from_hdf5")]
    for n in rec:
        v = arg(n, 1, "device")
        c.decide(v is not None and Term("param", "device") in closure(r, v), "reader device nested", n.where, "the requested device is not handed to nested values")
    recw = calls(w, "to_hdf5")
    for n in recw:
        v = arg(n, 2, "compression")
        c.decide(v is not None and Term("param", "compression") in closure(w, v), "compression nested", n.where, "the requested compression is not handed to nested values")
    # scalars: written as attributes, read back from attributes
    at = [n for n in setsubs(w) if n.d["base"].k == "attr" and n.d["base"].a[1] == "attrs" and n.d["index"] is not TAG]
    c.decide(bool(at), "scalars written", w.entry.where, "numbers are no longer stored")
    c.decide(any(t.k == "attr" and t.a[1] == "attrs" for n in nodes(r) for v in n.d.values() if isinstance(v, Term) for t in subterms(v)), "scalars read", r.entry.where, "numbers are no longer read back")


@rule("B07")
def save_and_load_cover_same_state(c):
    """Saving writes the complete state of a buffer and loading installs it through the same hook un-pickling uses."""
    cls = c.p.cls(RB)
    fl = c.flow("save_hdf5", cls, opaque=("to_hdf5",))
    w = calls(fl, "to_hdf5")
    c.decide(bool(w) and all(n.d["args"][0] is Term("attr", SELF, "__dict__") for n in w), "save", fl.entry.where, "saving does not write the whole state")
    for n in w:
        v = arg(n, 2, "compression")
        c.decide(v is not None and Term("param", "compression") in closure(fl, v), "save/compression", n.where, "the requested compression is not used")
    fl = c.flow("load_hdf5", cls, opaque=("from_hdf5",))
    st = calls(fl, "__setstate__")
    ok = [n for n in st if any(is_call(t, "from_hdf5") for t in closure(fl, *n.d["args"]))]
    raw = [n for n in calls(fl, "update") if any(is_call(t, "from_hdf5") for t in closure(fl, *n.d["args"])) and len(n.stack) == 1]
    hooked = sorted(k.name for k in buffer_classes(c.p) if k.find("__setstate__").cls is not cls)
    if raw and not ok:
        c.decide(not hooked, "load/hook", raw[0].where, f"the loaded state is installed without __setstate__, which {', '.join(hooked)} rely on")
        ok = raw
    pth = find_path(fl.entry_node, fl.exit_node, ok)
    c.decide(bool(ok) and pth is None, "load", fl.entry.where, "the loaded state is not installed on every path")
    v = [n for n in calls(fl, "from_hdf5")]
    for n in v:
        d = arg(n, 1, "device")
        c.decide(d is not None and Term("param", "device") in closure(fl, d), "load/device", n.where, "the requested device is ignored")
    for k in buffer_classes(c.p):
        f = k.find("save_hdf5")
        if f.cls is not cls:
            fs = c.flow(f, k)
            sup = [n for n in nodes(fs, "call") if n.d["is_super"] and n.d["name"] == "save_hdf5"]
            for n in sup:
                c.decide(arg(n, 1, "compression") is not None and Term("param", "compression") in closure(fs, arg(n, 1, "compression")), f"{k.name}.save_hdf5/compression", n.where, "compression is dropped")
    # batch state hooks round trip
    b = c.p.cls("Batch")
    for m in ("__getstate__", "__setstate__"):
        if b.find(m) is None:
            raise AnalysisBroken(f"Batch.{m} vanished")
