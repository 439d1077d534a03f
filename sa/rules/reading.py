"""What is read from a replay buffer is what was stored at the requested positions, in the requested order."""
from __future__ import annotations

from ..canon import unknowns
from ..core import rule
from ..flow import NONE, Term, canon_cond, const, is_call, show, subterms
from ..query import Poly, arg, calls, closure, find_path, mentions, nodes, poly, reachable, setsubs, skey, strip, values
from .buffers import RB, SELF, IntCanon

STACKED = ("obs", "obs_next", "info", "policy")
PLAIN = ("act", "rew", "terminated", "truncated", "done")


def _bare(t):
    return strip(t, "asarray", "array", "copy", "cast", "astype")


def _same_pos(fl, t, ref):
    """True / False / None: do the two index terms select the same positions?"""
    t, ref = _bare(t), _bare(ref)
    if t is ref:
        return True
    a, b = {skey(_bare(x)) for x in values(fl, t)}, {skey(_bare(x)) for x in values(fl, ref)}
    if a == b:
        return True
    if t.k in ("bin", "ibin") or is_call(t, "next", "prev", "unfinished_index", "sample_indices"):
        return False
    return None


def _entries(fl, t):
    """{key: [value]} of a Batch/dict built from named entries plus (loop) insertions."""
    out = {}
    t = strip(t, "Batch", "cast") if not is_call(t, "Batch") else t
    if is_call(t, "Batch"):
        kw = dict(t.a[2]) if not isinstance(t.a[2], dict) else t.a[2]
        a = list(t.a[1])
        for k, v in kw.items():
            if k == "batch_dict":
                a.append(v)
            elif isinstance(k, str):
                out.setdefault(k, []).append(v)
        if a:
            t = a[0]
    if t.k == "dict":
        for k, v in t.a[0]:
            if isinstance(k, Term) and k.k == "const" and isinstance(k.a[0], str):
                out.setdefault(k.a[0], []).append(v)
    for n in setsubs(fl, base=t):
        i = n.d["index"]
        if i.k == "const" and isinstance(i.a[0], str):
            out.setdefault(i.a[0], []).append(n.d["value"])
    return out, t


def _read(fl, v):
    """(key, index, stacked) of a value read from the stored data."""
    if is_call(v, "get") and v.a[0].k == "attr" and v.a[0].a[0] is SELF:
        kw = dict(v.a[2])
        i = v.a[1][0] if v.a[1] else kw.get("index")
        k = v.a[1][1] if len(v.a[1]) > 1 else kw.get("key")
        return k, i, True
    if v.k == "sub":
        b = v.a[0]
        if b.k == "attr" and b.a[0] is SELF:
            return const(b.a[1]), v.a[1], False
        if b.k == "attr" and b.a[0] is Term("attr", SELF, "_meta"):
            return const(b.a[1]), v.a[1], False
        if b.k == "sub" and b.a[0] is Term("attr", SELF, "_meta"):
            return b.a[1], v.a[1], False
    return None


@rule("B11")
def every_key_is_read_at_the_same_positions(c):
    """buffer[index] returns, under every key, that key's stored data at the requested positions."""
    for cls in [c.p.cls(RB)]:
        fl = c.flow("__getitem__", cls, opaque=("get", "next", "prev", "sample_indices"))
        con = f"{cls.name}.__getitem__"
        for r in [n for n in nodes(fl, "return") if len(n.stack) == 1]:
            ents, base = _entries(fl, strip(r.d["value"], "cast"))
            ref = None
            for k in ("act", "rew", "done"):
                for v in ents.get(k, ()):
                    x = _read(fl, v)
                    if x:
                        ref = ref or x[1]
            if ref is None:
                c.und(con, show(r.d["value"])[:120])
                continue
            for k in PLAIN + ("obs", "info", "policy"):
                for v in [y for v in ents.get(k, ()) for y in values(fl, v)]:
                    x = _read(fl, v)
                    if x is None:
                        c.und(f"{con}/{k}", show(v)[:120])
                        continue
                    c.decide(x[0] is const(k), f"{con}/{k} key", r.where, f"'{k}' is filled with the stored '{show(x[0])}'")
                    c.decide(_same_pos(fl, x[1], ref), f"{con}/{k} positions", r.where, f"'{k}' is read at {show(x[1])[:100]}, the others at {show(ref)[:100]}")
                if k not in ents:
                    c.decide(False if base.k == "dict" else None, f"{con}/{k}", r.where, f"'{k}' is missing from what is read")
            _obs_next(c, fl, con, r, ents, ref)
            _positions(c, fl, con, r, ref)
            for n in setsubs(fl, base=base):
                i = n.d["index"]
                if i.k == "const":
                    continue
                for v in values(fl, n.d["value"]):
                    x = _read(fl, v)
                    if x is None:
                        c.und(con + "/extra", show(v)[:100])
                        continue
                    c.decide(x[0] is i, con + "/extra key", n.where, f"key {show(i)} is filled with the stored {show(x[0])}")
                    c.decide(_same_pos(fl, x[1], ref), con + "/extra positions", n.where, f"an extra key is read at {show(x[1])[:100]}")


def _obs_next(c, fl, con, r, ents, ref):
    """Stored next observations when they are kept, otherwise the observation at the next position."""
    stored = Term("attr", SELF, "_save_obs_next")
    cs = [n for n in calls(fl, "get", recv=SELF) if n.d["term"] in {y for v in ents.get("obs_next", ()) for y in values(fl, v)}]
    seen = set()
    for n in cs:
        x = _read(fl, n.d["term"])
        g = _guard(fl, n, stored)
        if g is None:
            c.und(con + "/obs_next", "not decided by the setting")
            continue
        seen.add(g)
        if g:
            c.decide(x[0] is const("obs_next"), con + "/obs_next key", n.where, f"stored next observations are kept, but {show(x[0])} is returned")
            c.decide(_same_pos(fl, x[1], ref), con + "/obs_next positions", n.where, f"next observations are read at {show(x[1])[:100]}")
        else:
            c.decide(x[0] is const("obs"), con + "/obs_next from obs", n.where, f"next observations are taken from {show(x[0])}")
            i = _bare(x[1])
            ok = None
            if is_call(i, "next") and i.a[0].k == "attr" and i.a[0].a[0] is SELF and i.a[1]:
                ok = _same_pos(fl, i.a[1][0], ref)
            elif i.k in ("bin", "ibin") or i is _bare(ref) or is_call(i, "prev"):
                ok = False
            c.decide(ok, con + "/obs_next at next", n.where, f"next observations are taken at {show(i)[:100]}, not at the buffer's next positions")


def _guard(fl, n, atom):
    """Truth value of `atom` on every path to n (None if both)."""
    from .util import cut
    is_atom = lambda t: t is atom
    starts = [fl.entry_node]
    can = {w: find_path(starts, lambda m: m is n, lambda m: False, edge_ok=cut(is_atom, w)) is not None for w in (True, False)}
    if can[True] and not can[False]:
        return True
    if can[False] and not can[True]:
        return False
    return None


def _positions(c, fl, con, r, ref):
    """A slice selects from the stored positions; anything else is used as given."""
    idx = Term("param", fl.entry.params()[1]) if len(fl.entry.params()) > 1 else None
    for v in values(fl, ref):
        v = _bare(v)
        if v is idx or is_call(v, "sample_indices") and v.a[1] and v.a[1][0] is const(0):
            c.ok(con + "/which", r.where)
            continue
        if v.k == "sub" and v.a[1] is idx and idx is not None:
            b = v.a[0]
            upto = None
            if b.k == "sub" and b.a[1].k == "slice":
                lo, hi, st = b.a[1].a
                upto = (lo is NONE or lo is const(0) or lo is None) and (is_call(hi, "len") and hi.a[1] == (SELF,) or hi is Term("attr", SELF, "_size"))
                if not upto and not (hi is NONE or is_call(hi, "len") or hi.k == "attr"):
                    upto = None
            elif b.k == "attr" and b.a[0] is SELF:
                upto = False
            elif is_call(b, "arange"):
                a = b.a[1]
                upto = len(a) == 1 and (is_call(a[0], "len") or a[0] is Term("attr", SELF, "_size"))
            c.decide(upto, con + "/slice", r.where, f"a slice selects from {show(b)}, not from the stored positions")
        else:
            c.und(con + "/which", show(v)[:100])


@rule("B11")
def stacked_frames_are_in_time_order(c):
    """get() with frame stacking returns the frames at prev(...prev(i)), ..., prev(i), i in that order."""
    cls = c.p.cls(RB)
    fl = c.flow("get", cls, opaque=("prev", "next"))
    con = "ReplayBuffer.get"
    prm = fl.entry.params()
    index, key = Term("param", prm[1]), Term("param", prm[2])

    def stored(t):
        return t.k == "sub" and t.a[0] is Term("attr", SELF, "_meta") and t.a[1] is key

    def val_at(t):
        """index of val[...] (None if it is not the stored data of the key)."""
        return t.a[1] if t.k == "sub" and all(stored(x) for x in values(fl, t.a[0])) else None
    for r in [n for n in nodes(fl, "return") if len(n.stack) == 1]:
        for v in values(fl, r.d["value"]):
            if v.k == "sub" and v.a[0].k == "sub" and v.a[0].a[0] is Term("attr", SELF, "_meta"):
                c.decide(v.a[0].a[1] is key, con + "/key", r.where, f"the stored {show(v.a[0].a[1])} is returned for the requested key")
                c.decide(True if _bare(v.a[1]) is index else (False if v.a[1].k in ("bin", "ibin") or is_call(v.a[1], "prev", "next") else None), con + "/index", r.where,
                         f"the data is read at {show(v.a[1])}")
    # stacking
    for lp, vs in fl.loops.items():
        steps = [x for x in vs if x.k in ("list", "tuple") and any(val_at(e) is not None for e in x.a[0])]
        apps = [n for n in calls(fl, "append", "insert", "appendleft") if n.d["recv"] is lp or n.d["recv"] in vs]
        for x in steps:
            els = list(x.a[0])
            pos = [i for i, e in enumerate(els) if val_at(e) is not None]
            stars = [i for i, e in enumerate(els) if e.k == "star" and e.a[0] is lp]
            if len(els) != 2 or len(pos) != 1 or len(stars) != 1:
                c.und(con + "/stack", show(x)[:100])
                continue
            _stack(c, fl, con, els[pos[0]], pos[0] < stars[0], lp, val_at, index)
    lists = {n.d["recv"]: n for n in calls(fl, "append", "insert", "appendleft") if n.d["args"] and val_at(n.d["args"][-1]) is not None}
    for l, n in lists.items():
        front = n.d["name"] == "appendleft" or n.d["name"] == "insert" and n.d["args"][0] is const(0)
        _stack(c, fl, con, n.d["args"][-1], front, l, val_at, index)


def _stack(c, fl, con, e, front, lst, val_at, index):
    i = val_at(e)
    lp = i if i.k == "loopphi" else None
    where = fl.entry.where
    if lp is None:
        c.und(con + "/frames", show(i)[:100])
        return
    vs = fl.loops.get(lp, ())
    steps = [x for x in vs if mentions(fl, x, lambda t: t is lp)]
    inits = [x for x in vs if x not in steps]
    direction = None
    for s in steps:
        if is_call(s, "prev", "next") and s.a[0].k == "attr" and s.a[0].a[0] is SELF and s.a[1] and s.a[1][0] is lp:
            direction = "prev" if is_call(s, "prev") else "next"
            c.decide(direction == "prev", con + "/frames", where, f"the stacked frames are those at {show(s)}, not the previous ones")
        elif s.k in ("bin", "ibin"):
            c.decide(False, con + "/frames", where, f"the stacked frames are those at {show(s)}, ignoring episode ends")
        else:
            c.und(con + "/frames", show(s)[:100])
    for x in inits:
        ok = all(_bare(y) is index for y in values(fl, x))
        c.decide(True if ok else (False if is_call(x, "prev", "next") or x.k == "bin" else None), con + "/first frame", where, f"stacking starts at {show(x)[:80]}, not at the requested index")
    # does the finished list reach np.stack reversed?
    rev = None
    for n in calls(fl, "stack", "stack_"):
        a = n.d["args"][0] if n.d["args"] else None
        if a is None:
            continue
        if a is lst:
            rev = False
        elif a.k == "sub" and a.a[0] is lst and a.a[1].k == "slice" and a.a[1].a[2] is const(-1):
            rev = True
        elif is_call(a, "list", "tuple") and a.a[1] and is_call(a.a[1][0], "reversed") and a.a[1][0].a[1][0] is lst:
            rev = True
    if any(n.d["recv"] is lst for n in calls(fl, "reverse")):
        rev = True if rev is False else None
    c.decide(None if rev is None else front != rev, con + "/frame order", where, "the stacked frames come latest first")
    # as many frames as asked for
    num = [Term("param", "stack_num"), Term("attr", SELF, "stack_num")]
    for h in nodes(fl, "iter"):
        if h.d.get("comp") or not is_call(h.d["it"], "range"):
            continue
        a = h.d["it"].a[1]
        if len(a) == 1:
            vs = values(fl, a[0])
            ok = all(v in num for v in vs)
            c.decide(True if ok else (False if all(v.k in ("bin", "const") for v in vs) else None), con + "/frame count", h.where, f"{show(a[0])[:60]} frames are stacked")


def _stored_count(t):
    return is_call(t, "len") and t.a[1] == (SELF,) or t is Term("attr", SELF, "_size")


def _oldest_first(fl, t):
    """True: positions from the oldest stored transition to the newest; False: another arrangement; None: not recognised."""
    ins, size = Term("attr", SELF, "_insertion_idx"), Term("attr", SELF, "_size")
    if is_call(t, "concatenate", "hstack", "append"):
        parts = t.a[1][0].a[0] if len(t.a[1]) == 1 and t.a[1][0].k in ("list", "tuple") else t.a[1]
        if len(parts) == 2 and all(is_call(x, "arange") for x in parts):
            got = []
            for x in parts:
                a = list(x.a[1])
                lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1]) if len(a) == 2 else (None, None)
                got.append((lo, const("size") if hi is not None and _stored_count(hi) else hi))
            if any(x[0] is None for x in got):
                return None
            want = [(ins, const("size")), (const(0), ins)]
            return got == want
        return None
    if is_call(t, "arange"):
        return False
    if is_call(t, "roll") and len(t.a[1]) == 2:
        a, s = t.a[1]
        if is_call(a, "arange") and len(a.a[1]) == 1 and _stored_count(a.a[1][0]):
            return poly(s, lambda x: None) == poly(Term("un", "-", ins), lambda x: None) if s.k == "un" else False
    if t.k in ("bin",) and t.a[0] == "%" and t.a[1].k == "bin" and t.a[1].a[0] == "+":
        a = [x for x in t.a[1].a[1:] if is_call(x, "arange")]
        b = [x for x in t.a[1].a[1:] if not is_call(x, "arange")]
        if a and b and b[0] is ins and _stored_count(a[0].a[1][0]) and _stored_count(t.a[2]):
            return True
    return None


@rule("B11")
def samples_are_stored_positions(c):
    """sample_indices draws from exactly the stored positions, and lists all of them from oldest to newest when asked for all."""
    cls = c.p.cls(RB)
    fl = c.flow("sample_indices", cls, opaque=("prev", "next"))
    con = "ReplayBuffer.sample_indices"
    n_req = Term("param", fl.entry.params()[1])

    def listing(t, where, what):
        for v in values(fl, t):
            if v.k == "sub":
                _with_history(c, fl, con, v, where)
                v2 = v.a[0]
            else:
                v2 = v
            for w in values(fl, v2):
                if _no_entries(w):
                    continue
                c.decide(_oldest_first(fl, w), con + "/" + what, where, f"the positions are listed as {show(w)[:100]}, not from the oldest to the newest stored one")
    for r in [n for n in nodes(fl, "return") if len(n.stack) == 1]:
        for v in values(fl, r.d["value"]):
            if is_call(v, "array", "empty", "zeros") and _no_entries(v):
                continue
            v = _bare(v)
            if is_call(v, "choice"):
                a = v.a[1]
                if not a:
                    c.und(con + "/draw", show(v)[:80])
                    continue
                pool, num = a[0], (a[1] if len(a) > 1 else dict(v.a[2]).get("size"))
                for w in values(fl, pool):
                    if w.k in ("sub", "call") and not is_call(w, "len"):
                        listing(w, r.where, "drawn from")
                    else:
                        c.decide(True if _stored_count(w) else (False if w.k in ("attr", "bin") else None), con + "/drawn from", r.where,
                                 f"positions are drawn from the first {show(w)[:60]}, not from the stored ones")
                if num is not None:
                    ok = all(x is n_req or _stored_count(x) for x in values(fl, num))
                    c.decide(True if ok else (False if num.k in ("bin", "const") else None), con + "/how many", r.where, f"{show(num)[:60]} positions are drawn")
            elif is_call(v, "integers", "randint") and v.a[1]:
                a = v.a[1]
                hi = a[0] if len(a) == 1 else a[1]
                c.decide(True if _stored_count(hi) else (False if hi.k in ("attr", "bin") else None), con + "/drawn from", r.where, f"positions are drawn below {show(hi)[:60]}")
            else:
                listing(v, r.where, "all")
    _request_kinds(c, fl, con, n_req)


def _no_entries(v):
    return is_call(v, "array", "empty", "zeros") and bool(v.a[1]) and (v.a[1][0].k in ("list", "tuple") and not v.a[1][0].a[0] or v.a[1][0] is const(0))


def _kind(fl, v):
    if _no_entries(v):
        return "nothing"
    v = _bare(v)
    if v.k == "sub":
        return _kind(fl, v.a[0])
    if is_call(v, "choice", "integers", "randint"):
        return "draws"
    if is_call(v, "concatenate", "arange", "roll", "hstack"):
        return "all"
    return None


def _request_kinds(c, fl, con, n_req):
    """A negative request gives nothing, 0 gives everything, a positive one draws."""
    def holds(t, n):
        if t.k != "cmp" or len(t.a) != 3:
            return None
        op, a, b = t.a

        def num(x):
            if x.k == "const" and isinstance(x.a[0], int):
                return x.a[0]
            if x is NONE:
                return "none"
            vs = [y for y in values(fl, x)]
            if n_req in vs and all(y is n_req or _stored_count(y) for y in vs):
                return n
            return None
        x, y = num(a), num(b)
        if x is None or y is None:
            return None
        if "none" in (x, y):
            return {"==": x == y, "is": x == y, "!=": x != y, "is not": x != y}.get(op)
        return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}.get(op)

    def ok_edge(n):
        def f(m, _, l):
            if m.kind != "branch" or l not in ("T", "F"):
                return True
            t, pos = canon_cond(m.d["cond"])
            h = holds(t, n)
            return True if h is None else (h == pos) == (l == "T")
        return f
    rets = nodes(fl, "return")
    for n, want, what in ((-1, "nothing", "a negative request"), (0, "all", "a request for 0"), (2, "draws", "a positive request")):
        live = {id(x) for x in reachable([fl.entry_node], edge_ok=ok_edge(n))}
        for r in [x for x in rets if len(x.stack) == 1 and id(x) in live]:
            for v in values(fl, r.d["value"]):
                own = [m for m in rets if m.d["value"] is v]
                if own and not any(id(m) in live for m in own) or not own and v is not r.d["value"]:
                    continue  # returned by a helper that is not reached this way
                k = _kind(fl, v)
                c.decide(None if k is None else k == want, con + "/" + what, r.where, f"{what} gives {show(v)[:80]}")


def _with_history(c, fl, con, v, where):
    """Only positions with stack_num - 1 predecessors in their episode survive: compare the (stack_num - 2)-th predecessor with its own predecessor."""
    sel = v.a[1]
    if sel.k != "cmp":
        if sel.k == "un" and sel.a[1].k == "cmp":
            sel = Term("cmp", "!=" if sel.a[1].a[0] == "==" else sel.a[1].a[0], *sel.a[1].a[1:])
        else:
            c.und(con + "/history", show(sel)[:80])
            return
    a, b = sel.a[1], sel.a[2]
    pr = lambda t: t.a[1][0] if is_call(t, "prev") and t.a[1] else None
    if pr(a) is b:
        a, b = b, a
    c.decide(pr(b) is a if pr(b) is not None or pr(a) is not None else None, con + "/history", where, f"positions are kept by {show(sel)[:80]}")
    if sel.a[0] != "!=":
        c.decide(False, con + "/history", where, f"positions are kept where {show(sel)[:80]}: those without the needed predecessors")
    if a.k != "loopphi":
        if a is v.a[0] or _oldest_first(fl, a) is True:
            c.decide(False, con + "/history length", where, "only the direct predecessor is looked at, whatever stack_num is")
        return
    steps = [x for x in fl.loops.get(a, ()) if mentions(fl, x, lambda t: t is a)]
    for s in steps:
        c.decide(True if pr(s) is a else (False if s.k == "bin" or is_call(s, "next") else None), con + "/history step", where, f"the predecessors are computed as {show(s)[:80]}")
    want = poly(Term("attr", SELF, "stack_num"), lambda t: None) - Poly.c(2)
    for h in nodes(fl, "iter"):
        if not h.d.get("comp") and is_call(h.d["it"], "range"):
            ar = h.d["it"].a[1]
            ln = poly(ar[0], lambda t: None) if len(ar) == 1 else (poly(ar[1], lambda t: None) - poly(ar[0], lambda t: None) if len(ar) == 2 else None)
            if ln is not None and ln.atoms() <= want.atoms():
                c.decide(ln == want, con + "/history length", h.where, f"{show(h.d['it'])} predecessors are looked at instead of stack_num - 2 (+ the comparison)")


@rule("B11")
def parts_contribute_by_what_they_hold(c):
    """A vectorised buffer draws from its parts in proportion to their stored transitions, every drawn part position is moved to the part's range, and a part without draws contributes nothing."""
    cls = c.p.cls("ReplayBufferManager")
    fl = c.flow("sample_indices", cls, opaque=("prev", "next"))
    con = f"{cls.name}.sample_indices"
    A = lambda n: Term("attr", SELF, n)
    _request_kinds_manager(c, fl, con)
    cs = [n for n in calls(fl, "choice") if len(n.stack) == 1]
    for n in cs:
        pool = n.d["args"][0] if n.d["args"] else n.d["kw"].get("a")
        if pool is None or not (pool is A("buffer_num") or is_call(pool, "len")):
            continue
        p = n.d["kw"].get("p")
        if p is None and len(n.d["args"]) > 3:
            p = n.d["args"][3]
        if p is None:
            c.decide(False, con + "/share", n.where, "parts are drawn uniformly, whatever they hold")
            continue
        ok = None
        if p.k == "bin" and p.a[0] == "/":
            num, den = p.a[1], p.a[2]
            whole = is_call(den, "sum") and (den.a[0].k == "attr" and den.a[0].a[0] is num or den.a[1] and den.a[1][0] is num)
            lens = A("_lengths")
            if num is lens:
                ok = whole or is_call(den, "len")
            elif mentions(fl, num, lambda t: t is lens):
                # weights that only tell whether a part is empty are the same for a part with one and with many transitions
                lossy = lambda t: is_call(t, "sign", "bool", "heaviside", "ones_like", "zeros_like", "log", "log1p", "sqrt", "argsort") or t.k == "cmp" or (is_call(t, "astype") and t.a[1] and "bool" in skey(t.a[1][0]))
                inside = {x for t in subterms(num) if lossy(t) for x in occurrences(t, lens)}
                ok = False if all(o in inside for o in occurrences(num, lens)) else None
            elif num.k == "attr" or mentions(fl, num, lambda t: t.k == "attr" and t.a[1] in ("maxsize", "_extend_offset", "_offset")):
                ok = False
        c.decide(ok, con + "/share", n.where, f"parts are drawn with weights {show(p)[:100]}, not by what they hold")
    # zero draws must not mean "all"
    for n in calls(fl, "bincount"):
        b = n.d["term"]
        ml = n.d["kw"].get("minlength") or (n.d["args"][2] if len(n.d["args"]) > 2 else None)
        c.decide(ml is not None and (ml is A("buffer_num") or is_call(ml, "len")) if ml is None or ml.k in ("attr", "call") else None, con + "/one count per part", n.where,
                 "the draws are not counted for every part")
        its = [h for h in nodes(fl, "iter") if any(mentions(fl, x, lambda t: t is b) for x in [h.d["it"]])]

        def none_is_negative(m):
            if m.kind != "setsub" or m.d["base"] is not b:
                return False
            i = m.d["index"]
            v = m.d["value"]
            neg = v.k == "const" and isinstance(v.a[0], int) and v.a[0] < 0 or v.k == "un" and v.a[0] == "-"
            return neg and i.k == "cmp" and i.a[0] in ("==", "<", "<=") and mentions(fl, i, lambda t: t is b)
        for h in its:
            bad = find_path([n], lambda m: m is h, none_is_negative)
            where_ = any(mentions(fl, h.d["it"], lambda t: is_call(t, "where")) for _ in (0,))
            c.decide(True if bad is None else (None if where_ else False), con + "/no draws", h.where, "a part from which nothing was drawn is asked for 0 positions, which means all of its positions")
    # position moved to the part
    for r in [n for n in nodes(fl, "return") if len(n.stack) == 1]:
        for v in values(fl, r.d["value"]):
            for t in closure(fl, v) if callable(closure) else ():
                if t.k == "comp" and mentions(fl, t.a[1], lambda x: is_call(x, "sample_indices")):
                    e = t.a[1]
                    ok = None
                    if e.k == "bin" and e.a[0] == "+":
                        s = [x for x in e.a[1:] if is_call(x, "sample_indices")]
                        o = [x for x in e.a[1:] if not is_call(x, "sample_indices")]
                        if len(s) == 1 and len(o) == 1:
                            ok = o[0].k == "elem" and o[0].a[0] is A("_offset") if o[0].k == "elem" else None
                    elif is_call(e, "sample_indices"):
                        ok = False
                    c.decide(ok, con + "/part positions", r.where, f"the drawn positions are {show(e)[:100]}")


def occurrences(t, x):
    """Paths (as parent terms) under which x occurs in t."""
    return {p for p in subterms(t) if any(y is x for y in p.a if not isinstance(y, tuple)) or any(y is x for z in p.a if isinstance(z, tuple) for y in z)}


def _request_kinds_manager(c, fl, con):
    """Asking for 0 or for everything asks every part for everything."""
    n_req = Term("param", fl.entry.params()[1])
    for n in calls(fl, "sample_indices"):
        if len(n.stack) != 1 or n.d["recv"] is SELF or not n.d["args"]:
            continue
        a = strip(n.d["args"][0], "int")
        for v in values(fl, a.a[0] if a.k == "elem" else a):
            if is_call(v, "zeros", "zeros_like"):
                c.ok(con + "/everything", n.where)
            elif is_call(v, "full", "ones", "full_like"):
                c.decide(False if is_call(v, "ones") else (v.a[1][1] is const(0) if len(v.a[1]) > 1 else None), con + "/everything", n.where, f"the parts are asked for {show(v)}")


@rule("B11")
def interval_across_the_end_is_in_order(c):
    """get_buffer_indices: both ends must lie in the same part; an interval across the part's end continues at its beginning."""
    cls = c.p.cls(RB)
    fl = c.flow("get_buffer_indices", cls, opaque=())
    con = "ReplayBuffer.get_buffer_indices"
    prm = fl.entry.params()
    start, stop = Term("param", prm[1]), Term("param", prm[2])

    def search(t):
        """(side, position poly) of searchsorted with the side normalised to 'right' on integers: left of x is right of x - 1."""
        t = strip(t, "int", "cast", "item")
        if not is_call(t, "searchsorted"):
            return None
        kw = dict(t.a[2])
        a = t.a[1]
        x = a[1] if len(a) > 1 else kw.get("v")
        s = a[2] if len(a) > 2 else kw.get("side", const("left"))
        if x is None or s.k != "const":
            return None
        q = poly(x, lambda u: None)
        return q - Poly.c(1) if s.a[0] == "left" else q

    def part_of(t):
        """Poly p such that t is the number of edges <= p, plus an offset."""
        off = 0
        while t.k == "bin" and t.a[0] in ("+", "-") and t.a[2].k == "const" and isinstance(t.a[2].a[0], int):
            off += t.a[2].a[0] if t.a[0] == "+" else -t.a[2].a[0]
            t = t.a[1]
        q = search(t)
        return None if q is None else (q, off)
    S, T = poly(start, lambda u: None), poly(stop, lambda u: None)
    # same-part test
    found = False
    for b in nodes(fl, "branch"):
        t = canon_cond(b.d["cond"])[0]
        if t.k != "cmp" or t.a[0] not in ("==", "!="):
            continue
        x, y = part_of(t.a[1]), part_of(t.a[2])
        if x is None or y is None:
            continue
        found = True
        got = sorted([repr((x[0].m, x[1])), repr((y[0].m, y[1]))])
        want = sorted([repr((S.m, x[1])), repr(((T - Poly.c(1)).m, x[1]))])
        c.decide(got == want, con + "/same part", b.where, f"{show(t)[:150]} does not compare the parts of the first and of the last transition")
    if not found:
        c.und(con + "/same part", "no comparison found")

    def edge(t):
        """(arg poly, offset) for edges[searchsorted(edges, x) + k]."""
        t = strip(t, "int", "cast")
        if t.k != "sub":
            return None
        if t.a[1].k == "const":
            return (Poly.c(0), None)
        return part_of(t.a[1])
    for r in [n for n in nodes(fl, "return") if len(n.stack) == 1]:
        for v in values(fl, r.d["value"]):
            if is_call(v, "arange"):
                a = v.a[1]
                c.decide((a[0] is start and a[1] is stop) if len(a) == 2 else None, con + "/plain", r.where, f"the interval is {show(v)[:80]}")
            elif is_call(v, "concatenate", "hstack"):
                ps = v.a[1][0].a[0] if v.a[1] and v.a[1][0].k in ("list", "tuple") else ()
                if len(ps) != 2 or not all(is_call(x, "arange") and len(x.a[1]) == 2 for x in ps):
                    c.und(con + "/across", show(v)[:80])
                    continue
                (a0, a1), (b0, b1) = ps[0].a[1], ps[1].a[1]
                c.decide(True if a0 is start else (False if b0 is start else None), con + "/across from", r.where, f"the first piece starts at {show(a0)[:80]}, not at the first transition")
                c.decide(True if b1 is stop else (False if a1 is stop else None), con + "/across to", r.where, f"the second piece ends at {show(b1)[:80]}")
                up, lo = edge(a1), edge(b0)
                # start > lower edge here, so 'edges below start' and 'edges up to start' differ only for start on an edge
                for what, e, want in (("upper edge", up, 0), ("lower edge", lo, -1)):
                    if e is None:
                        c.und(con + "/" + what, show(a1 if want == 0 else b0)[:80])
                        continue
                    good = e[0] in (S, S - Poly.c(1), T - Poly.c(1), T) and e[1] == want
                    c.decide(good, con + "/" + what, r.where, f"the {what} of the part is taken as {show(a1 if want == 0 else b0)[:120]}")
    for b in nodes(fl, "branch"):
        cond, pos = canon_cond(b.d["cond"])
        if len(b.stack) != 1 or cond.k != "cmp" or cond.a[0] not in ("<", "<=", ">", ">="):
            continue
        d = poly(cond.a[1], lambda u: None) - poly(cond.a[2], lambda u: None)
        if d.atoms() != {skey(start), skey(stop)}:
            continue
        cn = IntCanon(fl)
        got = cn.cond(cond)
        want = [cn._cond(Term("cmp", op, start, stop)) for op in ("<", "<=")]
        c.decide(got in want + [Poly.c(1) - w for w in want] if not unknowns(cn) else None, con + "/across when", b.where, f"the interval is taken to cross the end depending on {show(cond)}")
