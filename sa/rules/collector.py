"""Collection: request validation, resets, stored data, policy mode, statistics, hooks."""
from __future__ import annotations

from ..core import rule
from ..flow import FALSE, NONE, TRUE, Term, canon_cond, children, const, dotted, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import (Poly, after_all, arg, before_all, calls, closure, describe, find_path, guards, mentions, nodes, poly, reachable, root, setattrs, setsubs, skey,
                     strip, values)
from .util import SELF, A, P, both, cut, edge_succ, field, find_branch, flat_attr, loop_of, params_of, same_skey, seq_source

BASE = "BaseCollector"
ENV, BUF, POL = A("env"), A("buffer"), A("policy")
OPAQUE = ("to_numpy", "_HACKY_create_info_batch", "_dict_of_arr_to_arr_of_dicts", "update_at_step_batch", "update_at_episode_done", "with_autogenerated_stats",
          "reset_env", "refresh_all_sequence_stats")


def collectors(p):
    return [k for k in p.subclasses(p.cls(BASE).qual) if k.name != BASE and k.find("_collect") is not None]


def plain(p):
    """Collectors whose `_collect` is Collector's."""
    own = p.cls("Collector").find("_collect")
    return [k for k in collectors(p) if k.find("_collect") is own]


def conv(t):
    """Peel conversions that keep rows: copies, array casts, dict-of-arrays to array-of-dicts."""
    while True:
        u = strip(t, "copy", "deepcopy", "cast", "array", "asarray", "_dict_of_arr_to_arr_of_dicts")
        if u.k == "call" and is_call(u, "cast") and len(u.a[1]) == 2:
            u = u.a[1][1]
        if u is t:
            return t
        t = u


def vals(fl, t):
    out = set()
    for v in values(fl, t):
        w = conv(v)
        if w.k in ("phi", "loopphi") and w is not v:
            out |= vals(fl, w)
        else:
            out.add(w)
    return out


class Env:
    """The pieces of one `_collect`, found by what is called, not by names."""

    def __init__(self, c, k):
        self.k = k
        self.fl = fl = c.flow("_collect", k, opaque=OPAQUE)
        st = calls(fl, "step", recv=ENV)
        self.steps = st
        self.step = st[0] if len(st) == 1 else None
        ad = calls(fl, "add", recv=BUF)
        self.adds = ad
        self.add = ad[0] if len(ad) == 1 else None
        self.resets = [n for n in calls(fl, "reset", recv=ENV)]
        self.pol = [n for n in nodes(fl, "call") if n.d["fn"] is POL or (n.d["name"] in ("__call__", "forward") and n.d["recv"] is POL)]
        if self.step is not None:
            self.S = self.step.d["result"]
            self.term, self.trunc = Term("item", self.S, 2), Term("item", self.S, 3)
            self.sent = arg(self.step, 1, "id")
            if self.sent is None:
                self.sent = arg(self.step, 1, "ready_env_ids")
            self.action = arg(self.step, 0, "action")
            self.got = self.got_ids()

    def got_ids(self):
        """Ids the step results belong to: those sent (synchronous), or the ids named by the step's infos."""
        if self.add is None:
            return None
        return arg(self.add, 1, "buffer_ids")

    def out(self, i):
        return Term("item", self.S, i)

    def is_done(self, t):
        t = conv(t)
        if is_call(t, "logical_or") and len(t.a[1]) == 2:
            return set(t.a[1]) == {self.term, self.trunc}
        return t.k in ("bin", "ibin") and t.a[0] == "|" and {t.a[1], t.a[2]} == {self.term, self.trunc}

    def is_done_sel(self, t):
        """Positions of finished environments among those that answered (index array or mask)."""
        if self.is_done(t):
            return True
        if t.k == "sub" and t.a[1] is const(0):
            return is_call(t.a[0], "where", "nonzero") and any(self.is_done(x) for x in list(t.a[0].a[1]) + ([t.a[0].a[0].a[0]] if t.a[0].a[0].k == "attr" else []))
        if t.k == "item" and t.a[1] == 0:
            return is_call(t.a[0], "where", "nonzero") and any(self.is_done(x) for x in list(t.a[0].a[1]) + ([t.a[0].a[0].a[0]] if t.a[0].a[0].k == "attr" else []))
        return is_call(t, "flatnonzero") and any(self.is_done(x) for x in t.a[1])

    def about_done(self, t):
        return any(self.is_done(x) for x in closure(self.fl, t))

    def batch(self):
        return conv(arg(self.add, 0, "batch"))


def envs(c, con):
    out = []
    for k in collectors(c.p):
        e = Env(c, k)
        if e.step is None or e.add is None:
            c.und(f"{k.name}._collect/{con}", f"{len(e.steps)} environment step(s), {len(e.adds)} buffer add(s)")
            continue
        out.append(e)
    return out


# ------------------------------------------------------------------------------- C01
SIGNS = {"None": None, "negative": -3, "zero": 0, "positive": 3}


class Unknown(Exception):
    pass


def ev(t, val):
    """Value of a condition over the two request sizes, decided from their sign only."""
    if t.k == "const":
        return t.a[0]
    if t in val:
        return val[t]
    if t.k == "un" and t.a[0] == "not":
        return not ev(t.a[1], val)
    if t.k == "un" and t.a[0] == "-":
        return -ev(t.a[1], val)
    if t.k == "boolop":
        r = None
        for x in t.a[1]:
            r = ev(x, val)
            if (t.a[0] == "and") != bool(r):
                return r
        return r
    if t.k == "phi":
        c = t.a[1]
        if c is not None and len(t.a[0]) == 2:
            return ev(t.a[0][0] if ev(c, val) else t.a[0][1], val)
        raise Unknown
    if t.k == "cmp":
        op = t.a[0]
        l, r = ev(t.a[1], val), ev(t.a[2], val)
        if op in ("is", "=="):
            if l is None or r is None:
                return l is r
            if 0 in (l, r):
                return l == r
            raise Unknown
        if op in ("is not", "!="):
            if l is None or r is None:
                return l is not r
            if 0 in (l, r):
                return l != r
            raise Unknown
        if l is None or r is None:
            raise Unknown
        both_req = t.a[1] in val and t.a[2] in val
        if both_req:
            raise Unknown
        lim = {x.a[0] for x in (t.a[1], t.a[2]) if x.k == "const"}
        if not lim <= {0, 1}:
            raise Unknown
        return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}.get(op)
    if t.k == "call" and is_call(t, "bool") and len(t.a[1]) == 1:
        return bool(ev(t.a[1][0], val))
    if t.k in ("tuple", "list"):
        return [ev(x, val) for x in t.a[0]]
    if t.k == "call" and is_call(t, "any", "all", "sum", "max", "min") and len(t.a[1]) == 1:
        return {"any": any, "all": all, "sum": sum, "max": max, "min": min}[t.a[0].a[0].rsplit(".", 1)[-1]](ev(t.a[1][0], val))
    raise Unknown


def sign_edges(val):
    def ok(n, m, l):
        if n.kind != "branch" or l not in ("T", "F"):
            return True
        try:
            v = bool(ev(n.d["cond"], val))
        except (Unknown, TypeError, KeyError):
            return True
        return (l == "T") == v
    return ok


@rule("C01")
def requests_are_validated_first(c):
    """For every sign of n_step and n_episode: the collection starts exactly for one positive number and no other; otherwise an error is raised first."""
    for k in collectors(c.p):
        fl = c.flow("collect", k, opaque=("_collect", "reset", "refresh_all_sequence_stats", "set_collect_time"))
        touch = [n for n in nodes(fl, "call") if n.d["name"] in ("_collect", "reset", "reset_env", "step", "add", "train")]
        start = [n for n in touch if n.d["name"] == "_collect"]
        if not start:
            c.und(f"{k.name}.collect", "no call of _collect found")
            continue
        for sn, sv in SIGNS.items():
            for en, ev_ in SIGNS.items():
                val = {P("n_step"): sv, P("n_episode"): ev_}
                good = (sn == "positive" and en == "None") or (en == "positive" and sn == "None")
                ok = sign_edges(val)
                con = f"{k.name}.collect/n_step {sn}, n_episode {en}"
                if good:
                    pth = find_path(fl.entry_node, start, edge_ok=ok)
                    c.decide(pth is not None, con, fl.entry.where, "a valid request is refused")
                else:
                    pth = find_path(fl.entry_node, touch, edge_ok=ok)
                    c.decide(pth is None, con, describe(pth), "a request that does not name exactly one positive amount is not refused before environments or buffer are touched")


@rule("C01")
def request_is_passed_on(c):
    """collect hands its own request to _collect unchanged."""
    for k in collectors(c.p):
        fl = c.flow("collect", k, opaque=("_collect", "reset", "refresh_all_sequence_stats", "set_collect_time"))
        for n in calls(fl, "_collect", recv=SELF):
            for i, x in enumerate(("n_step", "n_episode", "random", "render", "gym_reset_kwargs")):
                a = arg(n, i, x)
                c.decide(a is not None and P(x) in closure(fl, a), f"{k.name}.collect/{x}", n.where, f"_collect gets {show(a) if a is not None else 'nothing'} for {x}")
        for n in calls(fl, "reset", recv=SELF):
            a = arg(n, 2, "gym_reset_kwargs")
            c.decide(a is not None and P("gym_reset_kwargs") in closure(fl, a), f"{k.name}.collect/reset kwargs", n.where, "the reset before collecting does not get the given options")
            c.decide(any(x is P("reset_before_collect") and pol for x, pol in guards(fl, n)), f"{k.name}.collect/reset on request", n.where,
                     "environments are reset although no reset was requested")
        pth = find_path(fl.entry_node, calls(fl, "_collect", recv=SELF), calls(fl, "reset", "reset_env", recv=SELF), edge_ok=cut(lambda x: x is P("reset_before_collect"), True))
        c.decide(pth is None, f"{k.name}.collect/reset when requested", describe(pth), "collection starts without the requested reset")


@rule("C01")
def buffer_and_kind_checked(c):
    """The constructor refuses a buffer that cannot hold the environments; synchronous collection refuses asynchronous environments."""
    for k in collectors(c.p):
        fl = c.flow("__init__", k, opaque=("reset_env",))
        raises = nodes(fl, "raise")

        def refused(small, big, con, msg):
            """a branch 'small < big' exists on every path (of the relevant kind) and its true side raises"""
            brs = [b for b in nodes(fl, "branch") for x, pol in [canon_cond(b.d["cond"])] if x.k == "cmp" and x.a[0] == "<" and small(x.a[1]) and big(x.a[2])]
            okb = []
            for b in brs:
                x, pol = canon_cond(b.d["cond"])
                lab = "T" if pol else "F"
                bad = find_path(edge_succ(b, lab), [fl.exit_node], raises, skip_start=False)
                if bad is None:
                    okb.append(b)
            c.decide(bool(okb), con, fl.entry.where, msg)
        nenv = lambda t: any(is_call(x, "len") and x.a[1] and any(y is ENV or y is P("env") or (y.k == "attr" and y.a[1] == "env") for y in values(fl, x.a[1][0]) + [x.a[1][0]]) for x in
                             closure(fl, t)) or (t.k == "attr" and t.a[1] == "env_num")
        refused(lambda t: t.k == "attr" and t.a[1] == "buffer_num", nenv, f"{k.name}/parts", "a vectorised buffer with fewer parts than environments is accepted")
        refused(lambda t: t.k == "attr" and t.a[1] == "cached_buffer_num", nenv, f"{k.name}/cached parts", "a cached buffer with fewer cached parts than environments is accepted")
        refused(lambda t: t is const(1), nenv, f"{k.name}/plain buffer", "a plain buffer is accepted for several environments")
    for k in plain(c.p):
        e = Env(c, k)
        pth = find_path(e.fl.entry_node, e.steps + e.resets + e.adds, edge_ok=cut(lambda x: x.k == "attr" and x.a[1] == "is_async", True))
        c.decide(pth is None, f"{k.name}/asynchronous", describe(pth), "synchronous collection runs on asynchronous environments")


@rule("C01")
def nothing_collected_without_reset(c):
    """Collection is refused while there are no current observations or infos."""
    for k in collectors(c.p):
        e = Env(c, k)
        fl = e.fl
        for what in ("obs", "info"):
            tests = {x for b in nodes(fl, "branch") for x in [canon_cond(b.d["cond"])[0]]
                     if x.k == "cmp" and x.a[0] == "is" and x.a[2] is NONE and x.a[1].k == "attr" and x.a[1].a[0] is SELF and what in x.a[1].a[1]}
            pth = find_path(fl.entry_node, e.steps + e.resets + e.adds, edge_ok=cut(lambda x: x in tests, True)) if tests else [fl.entry_node]
            c.decide(pth is None, f"{k.name}/{what}", describe(pth) or fl.entry.where, f"collection starts without a current {what}")


# ------------------------------------------------------------------------------- C02
@rule("C02")
def only_finished_envs_are_reset(c):
    """The environments reset inside a collection are, by global id, those whose step ended their episode."""
    for e in envs(c, "reset"):
        rs = [n for n in e.resets if find_path(e.step, n) is not None and find_path(n, e.step) is not None]
        if not rs:
            c.bad(f"{e.k.name}._collect/reset", e.step.where, "finished environments are never reset while collecting")
            continue
        for n in rs:
            ids = arg(n, 0, "env_id")
            if ids is None:
                c.bad(f"{e.k.name}._collect/reset ids", n.where, "all environments are reset, not only the finished ones")
                continue
            good = None
            for v in vals(e.fl, ids):
                if v.k == "sub" and e.is_done_sel(v.a[1]):
                    good = conv(v.a[0]) in vals(e.fl, e.got) or v.a[0] is e.got
                elif is_call(v, "where", "nonzero", "flatnonzero") or e.is_done_sel(v):
                    good = False
                elif not e.about_done(v):
                    good = False
            c.decide(good, f"{e.k.name}._collect/reset ids", n.where, f"resets {show(ids)[:200]}, not the global ids of the finished environments")
            kw = n.d["kw"].get("**") or next((a for a in n.d["kwt"] if a[0] in ("**", None)), None)
            t = n.d["term"]
            c.decide(P("gym_reset_kwargs") in closure(e.fl, t, conds=False), f"{e.k.name}._collect/reset options", n.where, "the given reset options are not used for finished environments")


@rule("C02")
def finished_are_reset_each_step(c):
    """Every step that ended an episode is followed by the reset before the next action is computed."""
    for e in envs(c, "each"):
        cnt = {x for x in (canon_cond(b.d["cond"])[0] for b in nodes(e.fl, "branch")) if e.about_done(x)
               and (is_call(x, "sum", "any", "count_nonzero", "len") or (x.k == "cmp" and x.a[0] == "<" and x.a[1] is const(0)))
               and not any(y.k == "loopphi" for y in shallow(x))}

        def ok(n, m, l, cnt=cnt):
            if n.kind == "branch" and l in ("T", "F"):
                x, pol = canon_cond(n.d["cond"])
                if x in cnt:
                    return (l == "T") == pol
            return True
        rs = [n for n in e.resets]
        pth = find_path(e.step, e.steps, rs, edge_ok=ok, skip_start=True)
        c.decide(pth is None, f"{e.k.name}._collect/each step", describe(pth), "the next step is taken although an environment that ended its episode was not reset")


def rows_ok(e, idx):
    """Does idx address the finished environments by their position among those that answered?"""
    if e.is_done_sel(idx):
        return True
    if not e.about_done(idx):
        return False
    if idx.k == "sub" and e.is_done_sel(idx.a[1]):
        return False  # global ids
    if idx.k == "un" or is_call(idx, "logical_not", "invert"):
        return False
    if is_call(strip_index(idx), "where", "nonzero", "flatnonzero"):
        return False
    return None


def strip_index(t):
    while t.k in ("sub", "item") and (t.k == "item" or t.a[1].k == "const"):
        t = t.a[0]
    return t


def shallow(t):
    """Sub-terms outside the arguments of the environment step."""
    st, out = [t], []
    while st:
        x = st.pop()
        out.append(x)
        if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "step":
            continue
        st.extend(children(x))
    return out


def carried(e):
    """loop-carried per-environment values by role."""
    fl = e.fl
    roles = {}
    if e.pol:
        b = arg(e.pol[0], 0, "batch")
        o = field(fl, b, "obs") if b is not None else None
        i = field(fl, b, "info") if b is not None else None
        roles["obs"] = o
        roles["info"] = conv_info(i) if i is not None else None
        roles["state"] = arg(e.pol[0], 1, "state")
    else:  # opaque action computation
        n = [x for x in nodes(fl, "call") if x.d["name"] == "_compute_action_policy_hidden"]
        if n:
            roles = {"obs": arg(n[0], 2, "last_obs_RO"), "info": arg(n[0], 3, "last_info_R"), "state": arg(n[0], 4, "last_hidden_state_RH")}
    roles["ids"] = e.sent
    return {r: t for r, t in roles.items() if t is not None}


def conv_info(t):
    while t.k == "call" and is_call(t, "_HACKY_create_info_batch") and t.a[1]:
        t = t.a[1][0]
    return t


@rule("C02")
def reset_results_replace_finished_rows(c):
    """After a reset, the observation and info rows of exactly the finished environments are replaced by the reset results before the next step."""
    for e in envs(c, "rows"):
        fl = e.fl
        for r in [n for n in e.resets if find_path(n, e.step) is not None]:
            R = r.d["result"]
            for i, what in ((0, "observation"), (1, "info")):
                src = 0 if i == 0 else 4
                ws = [n for n in setsubs(fl) if n.d["value"] is not None and any(v is Term("item", R, i) for v in vals(fl, n.d["value"]))]
                con = f"{e.k.name}._collect/{what}"
                if not ws:
                    c.bad(con, r.where, f"the {what} of the reset is not taken over")
                    continue
                pth = find_path(r, e.steps, ws)
                c.decide(pth is None, con, describe(pth) or r.where, f"the next step can be taken with the {what} of the finished episode")
                for n in ws:
                    c.decide(rows_ok(e, n.d["index"]), con + "/rows", n.where,
                             f"the reset {what} is written to rows {show(n.d['index'])[:120]}")
                    base = vals(fl, n.d["base"])
                    c.decide(base <= {e.out(src)} or None, con + "/array", n.where, f"the reset {what} is written into {[show(x)[:80] for x in base]}")
                    raw = values(fl, n.d["base"])
                    c.decide(all(is_call(x, "copy", "deepcopy", "array") for x in raw), con + "/copy", n.where,
                             f"the {what} array handed to hooks and buffer is overwritten in place by the reset {what}")


@rule("C02")
def recurrent_state_of_finished_rows_is_cleared(c):
    """Whatever the kind of the recurrent state, the rows of the finished environments (and no others) are cleared after the reset."""
    for e in envs(c, "state"):
        fl = e.fl
        con = f"{e.k.name}._collect/state"
        h = carried(e).get("state")
        if h is None:
            c.und(con, "no recurrent state found")
            continue
        kinds = {"Tensor": [], "ndarray": [], "Batch": []}
        tests = []
        for b in nodes(fl, "branch"):
            x, pol = canon_cond(b.d["cond"])
            if is_call(x, "isinstance") and len(x.a[1]) == 2 and find_path(e.step, b) is not None and state_like(fl, x.a[1][0]):
                for kn in kinds:
                    if any(t.k == "global" and t.a[0].rsplit(".", 1)[-1] == kn for t in subterms(x.a[1][1])):
                        kinds[kn].append((b, x.a[1][0], pol))
        writes = [n for n in setsubs(fl) if n.d["value"] is not None and all(v in (NONE, const(0), const(0.0)) for v in values(fl, n.d["value"])) and e.about_done(n.d["index"])]
        empties = [n for n in calls(fl, "empty_") if e.about_done(arg(n, 0, "index") or NONE)]
        rs = [n for n in e.resets if find_path(n, e.step) is not None]
        for kn, bs in kinds.items():
            bs = [b for b in bs if any(find_path(r, b[0]) or find_path(b[0], r) for r in rs)]
            if not bs:
                c.decide(False if not empties and not writes else None if not writes else False, f"{con}/{kn}", (rs or [e.step])[0].where, f"a recurrent state that is a {kn} is not cleared for finished environments")
                continue
            for b, subj, pol in bs:
                start = edge_succ(b, "T" if pol else "F")
                ws = [w for w in writes + empties if (w.d.get("base") or w.d.get("recv")) is subj]
                pth = find_path(start, e.steps + [fl.exit_node], ws, skip_start=False)
                c.decide(pth is None and bool(ws), f"{con}/{kn}", b.where, f"a recurrent state that is a {kn} is kept for finished environments")
        for w in writes + empties:
            idx = w.d["index"] if w.kind == "setsub" else arg(w, 0, "index")
            c.decide(rows_ok(e, idx), f"{con}/rows", w.where, f"clears rows {show(idx)[:120]}")


def state_like(fl, t):
    vs = flat(fl, t)
    return any(v is not NONE for v in vs) and all(is_state(fl, v) or (v.k == "attr" and "hidden" in v.a[1]) for v in vs)


def sel_tree(fl, t, leafs, depth=0):
    """Reduce a carried value to the tree of selections applied to it: conditions and filters only."""
    t0 = conv(t)
    if t0.k == "phi":
        ch = tuple(sel_tree(fl, x, leafs, depth + 1) for x in t0.a[0])
        cond = t0.a[1]
        if all(x == ch[0] for x in ch):
            return ch[0]
        if cond is not None:
            x, pol = canon_cond(cond)
            if x.k == "cmp" and x.a[0] == "is" and x.a[2] is NONE and len(ch) == 2:
                return ch[1] if pol else ch[0]
        return ("phi", skey(cond) if cond is not None else None, ch)
    if t0.k == "sub" and (t0.a[1].k == "call" or t0.a[1].k in ("un", "cmp", "bin", "phi")) and t0.a[1].k != "const":
        inner = sel_tree(fl, t0.a[0], leafs, depth + 1)
        return ("sel", skey(t0.a[1]), inner)
    if is_call(t0, "delete") and len(t0.a[1]) >= 2:
        return ("del", skey(t0.a[1][1]), sel_tree(fl, t0.a[1][0], leafs, depth + 1))
    return "row"


@rule("C02")
def arrays_are_filtered_together(c):
    """When environments leave the rotation, ids, observations, infos and recurrent state pass through the same selection."""
    for k in plain(c.p):
        e = Env(c, k)
        fl = e.fl
        if e.step is None:
            continue
        ro = carried(e)
        ids = ro.get("ids")
        if ids is None or ids.k != "loopphi":
            c.und(f"{k.name}._collect/filter", "environment ids are not loop-carried")
            continue
        ref = [sel_tree(fl, b, ids) for b in fl.loops[ids][1:]]
        c.decide(any("sel" in repr(x) or "del" in repr(x) for x in ref) or None, f"{k.name}._collect/filter ids", e.step.where, "environments never leave the rotation")
        for role, t in ro.items():
            if role == "ids":
                continue
            if t.k != "loopphi":
                c.und(f"{k.name}._collect/filter {role}", f"{role} is not loop-carried")
                continue
            got = [sel_tree(fl, b, ids) for b in fl.loops[t][1:]]
            c.decide(got == ref, f"{k.name}._collect/filter {role}", e.step.where, f"the {role} array is selected by {got}, the environment ids by {ref}"[:600])


@rule("C02")
def only_surplus_finished_envs_leave(c):
    """Environments leave the rotation only when episodes are counted, only after finishing, and only as many as exceed the episodes still needed."""
    for k in plain(c.p):
        e = Env(c, k)
        fl = e.fl
        if e.step is None:
            continue
        masks = [n for n in setsubs(fl) if n.d["value"] is FALSE and is_call(n.d["base"], "ones_like", "ones", "full", "full_like")]
        con = f"{k.name}._collect/surplus"
        if not masks:
            c.und(con, "selection is not built as a mask")
            continue
        for n in masks:
            idx = n.d["index"]
            sel = idx.k == "sub" and idx.a[1].k == "slice" and e.is_done_sel(idx.a[0])
            if not sel:
                c.decide(False if not e.about_done(idx) or e.is_done_sel(idx) else None, con, n.where, f"takes {show(idx)[:120]} out of the rotation, not surplus finished environments")
                continue
            lo, hi, st = (x if isinstance(x, Term) else None for x in idx.a[1].a)
            want = cnt = None
            eps = episodes_counter(e)
            none = (None, NONE, const(0))
            at = None
            if eps is not None and st in (None, NONE, const(1)):
                at = lambda t: ("len" if is_call(t, "len") and t.a[1][0] is e.sent else "n" if t is P("n_episode") else "eps" if t is eps[1] else None)
                want = Poly.x("len") - Poly.x("n") + Poly.x("eps")
                if lo in none and hi not in none:
                    cnt = poly(hi, at) == want
                elif hi in none and lo not in none:
                    got = poly(lo, at)
                    cnt = True if got == -want else False if got == want else None
            c.decide(cnt if eps is not None else None, con + "/count", n.where, f"takes {show(idx.a[1])[:160]} of the finished environments out of the rotation")
            g = guards(fl, n)
            c.decide(any(x is P("n_episode") and pol for x, pol in g), con + "/episodes only", n.where, "environments leave the rotation although steps are counted")
            c.decide(any(x.k == "cmp" and x.a[0] == "<" and x.a[1] is const(0) and at is not None and poly(x.a[2], at) == want and pol for x, pol in g) or None, con + "/positive", n.where,
                     "a negative surplus would select from the end")


# ------------------------------------------------------------------------------- C03
def step_counter(e):
    """(loopphi, updated value) of the counter of collected steps: grows by the number of environments that answered."""
    return counter(e, lambda t: is_call(t, "len", "size") or (t.k == "attr" and t.a[1] == "size") or (t.k == "sub" and t.a[0].k == "attr" and t.a[0].a[1] == "shape"))


def episodes_counter(e):
    return counter(e, lambda t: (is_call(t, "sum", "count_nonzero") or is_call(t, "len")) and e.about_done(t) and (t.a[1] and (e.is_done(t.a[1][0]) or e.is_done_sel(t.a[1][0])) or (
        t.a[0].k == "attr" and e.is_done(t.a[0].a[0]))))


def steps_counter(e):
    rows = {e.got} | {e.out(i) for i in range(5)}
    return counter(e, lambda t: (is_call(t, "len") and t.a[1] and (t.a[1][0] in rows or conv(t.a[1][0]) in rows)) or (t.k == "attr" and t.a[1] == "size" and t.a[0] in rows))


def compared_increment(e, req):
    """Increment of the counter that is compared with the request."""
    for b in nodes(e.fl, "branch"):
        x, _ = canon_cond(b.d["cond"])
        if x.k == "cmp" and req in x.a[1:3]:
            o = x.a[2] if x.a[1] is req else x.a[1]
            if o.k in ("bin", "ibin") and o.a[0] == "+":
                for lp, inc in ((o.a[1], o.a[2]), (o.a[2], o.a[1])):
                    if lp.k == "loopphi":
                        return strip(inc, "int")
    return None


def all_envs_count(t):
    return (t.k == "attr" and t.a[1] == "env_num") or (is_call(t, "len") and t.a[1] and t.a[1][0] is ENV)


def asked(p, want):
    """edge_ok: only paths on which the (positive or None) request p is given (want) or not."""
    return both(cut(lambda x: x is p, want), cut(lambda x: x.k == "cmp" and x.a[0] == "is" and x.a[2] is NONE and x.a[1] is p, not want))


def counter(e, is_inc):
    for lp, vs in e.fl.loops.items():
        if vs[0] is const(0) and len(vs) == 2:
            for b in values(e.fl, vs[1]):
                if b.k in ("bin", "ibin") and b.a[0] == "+" and lp in (b.a[1], b.a[2]):
                    inc = b.a[2] if b.a[1] is lp else b.a[1]
                    if is_inc(strip(inc, "int")):
                        return lp, b, inc
    return None


@rule("C03")
def stored_transition_is_the_step(c):
    """Reward, end flags, info and next observation stored are those of this very environment step; done is terminated or truncated."""
    for e in envs(c, "stored"):
        fl, b = e.fl, e.batch()
        for name, i in (("obs_next", 0), ("rew", 1), ("terminated", 2), ("truncated", 3), ("info", 4)):
            t = field(fl, b, name)
            con = f"{e.k.name}._collect/{name}"
            if t is None:
                c.und(con, "stored batch is not built from named entries")
                continue
            c.decide(vals(fl, t) == {e.out(i)}, con, e.add.where, f"stores {show(t)[:160]} as {name}")
        t = field(fl, b, "done")
        if t is not None:
            c.decide(all(e.is_done(v) for v in values(fl, t)), f"{e.k.name}._collect/done", e.add.where, f"stores {show(t)[:160]} as the end of the episode")


@rule("C03")
def stored_under_the_stepped_environment(c):
    """The transition goes to the buffer part of the environment that answered; each step is stored exactly once."""
    for e in envs(c, "ids"):
        con = f"{e.k.name}._collect/ids"
        ids = arg(e.add, 1, "buffer_ids")
        if ids is None:
            c.bad(con, e.add.where, "transitions are stored without saying which environments they come from")
            continue
        if e.k in plain(c.p):
            c.decide(ids is e.sent, con, e.add.where, f"stores rows of environments {show(e.sent)[:100]} under {show(ids)[:100]}")
        else:
            c.decide(env_ids_of(e, ids), con, e.add.where, f"stores under {show(ids)[:120]}, not the ids named by the step's infos")
        pth = find_path(e.step, e.steps + [e.fl.exit_node], e.add)
        c.decide(pth is None, con + "/stored", describe(pth), "a step can be taken without being stored")
        pth = find_path(e.add, e.adds, e.steps)
        c.decide(pth is None, con + "/once", describe(pth), "a step can be stored twice")
        ws = [n for n in nodes(e.fl, "setattr", lambda n: conv(n.d["base"]) is e.batch()) if find_path(n, e.add)]
        for n in ws:
            c.decide(n.d["attr"] not in ("obs", "act", "rew", "terminated", "truncated", "done", "obs_next") or None, con + "/late", n.where, f"{n.d['attr']} is changed before storing")


def env_ids_of(e, t):
    info = e.out(4)
    vs = values(e.fl, t)
    good = []
    for v in vs:
        v = conv(v)
        if v.k == "sub" and v.a[0] is info and v.a[1] is const("env_id"):
            good.append(True)
        elif v.k == "comp":
            el = v.a[1]
            good.append(el.k == "sub" and el.a[1] is const("env_id") and el.a[0].k == "elem" and el.a[0].a[0] is info)
        else:
            good.append(None)
    return all(good) if good and None not in good else (True if good and all(g is not False for g in good) and True in good else None if False not in good else False)


@rule("C03")
def environment_runs_the_stored_action(c):
    """The environment gets the mapped version of the very action that is stored; for random actions the inverse-mapped sample is stored."""
    for e in envs(c, "act"):
        k = e.k
        fl = c.flow("_compute_action_policy_hidden", k, opaque=OPAQUE)
        r = fl.ret_value
        con = f"{k.name}/action"
        act, norm = field(fl, r, "act"), field(fl, r, "act_normalized")
        if act is None or norm is None:
            c.und(con, "computed actions are not returned as named entries")
            continue
        acts = set(values(fl, act))
        pairs = True
        for v in values(fl, norm):
            if is_call(v, "map_action"):
                good = v.a[1] and set(values(fl, v.a[1][0])) <= acts
                c.decide(bool(good), con + "/mapped", fl.entry.where, f"the environment gets the mapping of {show(v.a[1][0])[:120]}, stored is {show(act)[:120]}")
            else:
                inv = [a for a in acts if is_call(a, "map_action_inverse")]
                good = any(conv(a.a[1][0]) is conv(v) or set(map(conv, values(fl, conv(a.a[1][0])))) >= {conv(v)} for a in inv if a.a[1])
                c.decide(good, con + "/random", fl.entry.where, "the stored random action is not the inverse mapping of the executed one")
        for a in acts:
            if is_call(a, "map_action_inverse"):
                continue
            c.decide(not is_call(a, "map_action"), con + "/raw", fl.entry.where, "the mapped action is stored instead of the policy's own")
        # consistency: executed and stored alternatives are chosen by the same condition
        conds = lambda t: {skey(x.a[1]) for x in subterms(t) if x.k == "phi" and x.a[1] is not None and canon_cond(x.a[1])[0] is P("random")}
        a = e.action
        if k in plain(c.p) and e.add is not None:
            st = field(e.fl, e.batch(), "act")
            if st is None:
                c.und(con + "/stored", "stored action not found")
            else:
                sv = {skey(x) for x in values(e.fl, st)}
                for v in values(e.fl, flat_attr(e.fl, a)):
                    if is_call(v, "map_action"):
                        c.decide({skey(x) for x in values(e.fl, v.a[1][0])} <= sv, con + "/stored", e.add.where, "the stored action is not the one whose mapping is executed")
        c.decide(all(v.k == "attr" and v.a[1] == "act_normalized" or is_norm(e, v) for v in values(e.fl, a)) or (False if field_is(e, a, "act") else None), con + "/executed", e.step.where,
                 f"the environment executes {show(a)[:120]}")
        for n in [x for x in nodes(fl, "call") if x.d["name"] == "exploration_noise"]:
            g = guards(fl, n)
            c.decide(any(x is A("exploration_noise") and pol for x, pol in g), con + "/noise", n.where, "exploration noise is added although the collector was configured without")
            pre = arg(n, 0, "act")
            c.decide(any(same_skey(x, n.d["result"]) for x in acts), con + "/noise stored", n.where, "the action with exploration noise is not the one that is stored")


def is_norm(e, v):
    f = e.fl
    return True if is_call(v, "map_action") or is_call(v, "array") or is_call(v, "sample") else None


def field_is(e, a, name):
    return a.k == "attr" and a.a[1] == name


@rule("C03")
def policy_acts_on_the_stored_observation(c):
    """The observation stored with a transition is the one the policy was given; the policy also gets that row's info and recurrent state."""
    for k in plain(c.p):
        e = Env(c, k)
        if e.step is None or e.add is None:
            continue
        fl = e.fl
        con = f"{k.name}._collect/obs"
        obs = field(fl, e.batch(), "obs")
        ro = carried(e)
        if obs is None or "obs" not in ro:
            c.und(con, "policy call or stored observation not found")
            continue
        c.decide(vals(fl, obs) == vals(fl, ro["obs"]) and (obs is ro["obs"] or None), con, e.add.where, f"stores {show(obs)[:120]}, the policy acted on {show(ro['obs'])[:120]}")
        lp = ro["obs"]
        if lp.k == "loopphi":
            ini, *back = fl.loops[lp]
            c.decide(any(t.k == "sub" and t.a[0].k == "attr" and t.a[0].a[0] is SELF for t in values(fl, ini)), con + "/first", e.step.where, f"starts from {show(ini)[:120]}")
            for b in back:
                good = all(base_rows(fl, v) is e.out(0) for v in values(fl, b))
                c.decide(good, con + "/carried", e.step.where, f"continues with {show(b)[:160]} instead of the next observations of the step")
        for role, i in (("info", 4),):
            lp = ro.get(role)
            if lp is not None and lp.k == "loopphi":
                for b in fl.loops[lp][1:]:
                    good = all(base_rows(fl, v) is e.out(i) for x in values(fl, b) for v in values(fl, base_rows(fl, x)))
                    c.decide(good, f"{k.name}._collect/{role}/carried", e.step.where, f"continues with {show(b)[:160]}")
        h = ro.get("state")
        if h is not None and h.k == "loopphi":
            ini, *back = fl.loops[h]
            for b in back:
                good = all(is_state(fl, v) for v in flat(fl, b))
                c.decide(good, f"{k.name}._collect/state/carried", e.step.where, f"the recurrent state of the policy is not carried to the next step: {show(b)[:160]}")
    for k in collectors(c.p):
        fl = c.flow("_compute_action_policy_hidden", k, opaque=OPAQUE)
        pol = [n for n in nodes(fl, "call") if n.d["fn"] is POL]
        for n in pol:
            b = arg(n, 0)
            for nm, pn in (("obs", "last_obs_RO"), ("info", "last_info_R")):
                t = field(fl, b, nm) if b is not None else None
                if t is None:
                    c.und(f"{k.name}/policy {nm}", "policy input not found")
                    continue
                ps = [x.a[0] for x in closure(fl, t) if x.k == "param"]
                c.decide((pn in ps) if pn in params_of(c.p.method(k, "_compute_action_policy_hidden")) else None, f"{k.name}/policy {nm}", n.where, f"the policy gets {show(t)[:120]} as {nm}")
            s = arg(n, 1, "state")
            c.decide(s is not None and P("last_hidden_state_RH") in closure(fl, s), f"{k.name}/policy state", n.where, "the policy does not get the carried recurrent state")
            hs = field(fl, fl.ret_value, "hidden_state")
            R = n.d["result"]
            if hs is not None:
                c.decide(all(v is NONE or (R in closure(fl, v) and any(x is const("state") or (x.k == "attr" and x.a[1] == "state") for x in subterms(v))) for v in values(fl, hs)),
                         f"{k.name}/state returned", n.where, f"returns {show(hs)[:120]} as recurrent state")
            at = field(fl, fl.ret_value, "act")
            if at is not None:
                c.decide(any(R in closure(fl, v) for v in values(fl, at)), f"{k.name}/act returned", n.where, "the policy's action is not used")


def flat(fl, t):
    out = []
    for v in values(fl, t):
        w = base_rows(fl, v)
        if w.k in ("phi", "loopphi") and w is not v:
            out += flat(fl, w)
        else:
            out.append(w)
    return out


def is_state(fl, v):
    if v is NONE:
        return True
    if v.k == "attr" and v.a[1] == "hidden_state":
        return True
    return any((x.k == "const" and x.a[0] == "state") or (x.k == "attr" and x.a[1] in ("hidden_state", "state")) for x in subterms(v)) and not is_call(v, "step", "Batch")


def base_rows(fl, t):
    """Array whose rows t consists of: copies and row selections peeled."""
    while True:
        u = conv(t)
        if u.k == "sub" and u.a[1].k != "const":
            u = u.a[0]
        if is_call(u, "delete") and u.a[1]:
            u = u.a[1][0]
        if u.k == "phi" and len({base_rows(fl, x) for x in u.a[0]}) == 1:
            u = base_rows(fl, u.a[0][0])
        if u is t:
            return t
        t = u


def same_array(fl, t):
    """Arrays t's rows are taken from, looking through selections but not through copies."""
    out, todo, seen = set(), [t], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.k == "sub" and t.a[1].k != "const":
            todo.append(t.a[0])
        elif is_call(t, "delete", "cast") and t.a[1]:
            todo.append(t.a[1][1 if is_call(t, "cast") and len(t.a[1]) > 1 else 0])
        elif t.k == "phi":
            todo.extend(t.a[0])
        else:
            out.add(t)
    return out


@rule("C03")
def asynchronous_bookkeeping_is_per_environment(c):
    """Asynchronous collection: what is remembered per environment at sending time is read back for the environments that answered, and updated for exactly those."""
    own = c.p.cls("Collector").find("_collect")
    for e in envs(c, "async"):
        if e.k.find("_collect") is own:
            continue
        fl, b, k = e.fl, e.batch(), e.k
        got = e.got
        for name in ("obs", "act"):
            t = field(fl, b, name)
            con = f"{k.name}._collect/{name}"
            if t is None:
                c.und(con, "not found")
                continue
            good = all(v.k == "sub" and v.a[1] is got for v in values(fl, t))
            c.decide(good, con, e.add.where, f"stores {show(t)[:160]} as {name} of the environments that answered")
        # actions remembered for the environments they are sent to, before the step
        act = [n for n in setsubs(fl) if n.d["value"] is not None and any(v.k == "attr" and v.a[1] == "act" for v in values(fl, n.d["value"]))]
        pth = find_path(fl.entry_node, e.step, act)
        c.decide(pth is None and bool(act), f"{k.name}._collect/remember act", describe(pth) or e.step.where, "actions are sent without being remembered")
        for n in act:
            c.decide(n.d["index"] is e.sent, f"{k.name}._collect/remember act rows", n.where, f"actions sent to {show(e.sent)[:60]} are remembered for {show(n.d['index'])[:60]}")
        # current observation written back for the environments that answered
        ro = carried(e)
        for role, src in (("obs", 0), ("info", 4)):
            ws = [n for n in setsubs(fl) if n.d["value"] is not None and find_path(e.step, n) and e.out(src) in {base_rows(fl, v) for v in values(fl, n.d["value"])} | {
                base_rows(fl, v.a[0]) for v in values(fl, n.d["value"]) if v.k in ("sub", "elem", "val")} and root(n.d["base"]) is SELF]
            con = f"{k.name}._collect/update {role}"
            if not ws:
                c.bad(con, e.step.where, f"the current {role} of the environments is not updated")
                continue
            for n in ws:
                i, v = n.d["index"], n.d["value"]
                lp = loop_of(fl, i) if i.k in ("elem", "val") else None
                if i is got:
                    good = True
                elif lp is not None and v.k == "sub":
                    # for idx, id in enumerate(got): cur[id] = last[idx]
                    good = seq_source(i) is got and v.a[1].k in ("idx", "key", "item", "elem") and same_loop(v.a[1], i)
                elif lp is not None and v.k in ("elem", "val"):
                    good = seq_source(i) is got and same_loop(v, i)
                else:
                    good = False if e.sent is i else None
                c.decide(good, con, n.where, f"the {role} of {show(got)[:60]} is written to {show(i)[:60]}")
                patched = {x.d["base"] for r in e.resets if find_path(e.step, r) for x in setsubs(fl) if x.d["value"] is not None and any(
                    y is Term("item", r.d["result"], 0 if role == "obs" else 1) for y in vals(fl, x.d["value"]))}
                if patched:
                    whole = v.a[0] if v.k in ("sub", "elem", "val") and v not in patched else v
                    c.decide(whole in patched, con + "/reset rows", n.where, f"the {role} written back is not the array that received the reset rows")
            goal = [x for x in e.steps]
            pth = find_path(e.step, goal + [fl.exit_node], ws, loops_once=True)
            c.decide(pth is None, con + "/always", describe(pth), f"the current {role} can stay that of before the step")
            # resets come before the write-back
            for r in e.resets:
                if find_path(e.step, r):
                    pth = find_path(r, goal + [fl.exit_node], ws, loops_once=True)
                    c.decide(pth is None, con + "/after reset", describe(pth), f"the reset {role} is not written back")
        ids = ro.get("ids")
        if ids is not None and ids.k == "loopphi":
            c.decide(all(b2 is got for b2 in fl.loops[ids][1:]), f"{k.name}._collect/next ids", e.step.where, "the next actions are computed for environments that have not answered")
        fin = [n for n in setattrs(fl, base=SELF) if any(v is got for v in values(fl, n.d["value"]))]
        pth = find_path(e.step, fl.exit_node, fin + e.steps)
        c.decide(bool(fin) and pth is None, f"{k.name}._collect/ready ids kept", describe(pth) or e.step.where, "which environments are ready is not remembered for the next collection")


def same_loop(a, b):
    la = [x.a[1] for x in subterms(a) if x.k in ("elem", "idx", "key", "val")]
    lb = [x.a[1] for x in subterms(b) if x.k in ("elem", "idx", "key", "val")]
    return bool(la) and bool(lb) and la[0] == lb[0]


# ------------------------------------------------------------------------------- C04
MODE_SETTERS = ("train", "eval")


@rule("C04")
def collection_runs_in_evaluation_mode(c):
    """The collection happens with the policy in evaluation mode and the previous mode is restored on every way out, errors included."""
    for k in collectors(c.p):
        fl = c.flow("collect", k, opaque=("_collect", "reset", "refresh_all_sequence_stats", "set_collect_time"))
        run = calls(fl, "_collect", recv=SELF)
        sets = [n for n in calls(fl, *MODE_SETTERS) if n.d["recv"] is POL]

        def mode(n):
            if n.d["name"] == "eval":
                return FALSE
            v = n.d["args"][0] if n.d["args"] else n.d["kw"].get("mode", TRUE)
            return v
        off = [n for n in sets if mode(n) is FALSE]
        back = [n for n in sets if mode(n) is Term("attr", POL, "training")]
        con = f"{k.name}.collect"
        if not run:
            c.und(con, "no _collect call")
            continue
        pth = find_path(fl.entry_node, run, off)
        c.decide(pth is None, con + "/evaluation mode", describe(pth), "data is collected without switching the policy to evaluation mode")
        for n in run:
            other = [s for s in sets if s not in off]
            pth = next((x for o in off for x in [find_path(o, n, other)] if x), None)
            c.decide(pth is not None, con + "/still", n.where, "the policy is switched again before the collection")
            pth = find_path(n, [fl.exit_node, fl.raise_exit], back, exc=True)
            c.decide(pth is None, con + "/restored", describe(pth), "the policy's mode is not restored on every way out of the collection")
        for b in back:
            pth = find_path(b, [s for s in sets if s not in back])
            c.decide(pth is None, con + "/final", describe(pth), "the restored mode is overwritten")


@rule("C04")
def mode_helpers_restore(c):
    """The context managers that switch a policy's mode or flag restore the value read before the switch, also after an error."""
    for q, attr, setter in (("tianshou.utils.torch_utils.torch_train_mode", "training", "train"), ("tianshou.utils.torch_utils.policy_within_training_step", "is_within_training_step", None)):
        f = c.p.func(q)
        fl = c.flow(f)
        m = P(params_of(f)[0])
        con = q.rsplit(".", 1)[-1]
        old = Term("attr", m, attr)
        if setter:
            ws = [n for n in calls(fl, setter) if n.d["recv"] is m]
            val = lambda n: n.d["args"][0] if n.d["args"] else n.d["kw"].get("mode")
        else:
            ws = setattrs(fl, attr, base=m)
            val = lambda n: n.d["value"]
        ys = nodes(fl, "yield")
        on = [n for n in ws if val(n) is P("enabled")]
        re = [n for n in ws if val(n) is old]
        if not ys:
            c.und(con, "no yield")
            continue
        pth = find_path(fl.entry_node, ys, on)
        c.decide(pth is None, con + "/set", describe(pth), "the body runs without the requested value")
        for y in ys:
            pth = find_path(y, [fl.exit_node, fl.raise_exit], re, exc=True)
            c.decide(pth is None, con + "/restore", describe(pth), "the previous value is not restored on every way out")
        for n in ws:
            if n not in on and n not in re:
                c.bad(con + "/other", n.where, f"sets {show(val(n)) if val(n) is not None else '?'}")


TRAINING = ("backward", "learn", "update", "zero_grad", "process_fn", "post_process_fn", "_optimizer_step")


@rule("C04")
def collection_takes_no_training_step(c):
    """Nothing reachable from a collection back-propagates, steps an optimizer, learns or switches the policy's mode."""
    for k in collectors(c.p):
        fl = c.flow("_collect", k, opaque=("to_numpy",))
        bad = [n for n in nodes(fl, "call") if (n.d["name"] in TRAINING and n.d["recv"] is not None and (root(n.d["recv"]) is SELF and POL in list(subterms(n.d["recv"])))) or n.d["name"] == "backward"
               or (n.d["name"] == "step" and n.d["recv"] is not None and "optim" in show(n.d["recv"]))]
        c.decide(not bad, f"{k.name}._collect", bad[0].where if bad else "", "collection trains the policy")
        sw = [n for n in calls(fl, *MODE_SETTERS) if n.d["recv"] is not None and POL in list(subterms(n.d["recv"]))]
        c.decide(not sw, f"{k.name}._collect/mode", sw[0].where if sw else "", "collection switches the policy's mode")
        st = [n for n in nodes(fl, "setattr") if POL in list(subterms(n.d["base"])) and n.d["base"].k != "call" and n.d["attr"] in ("training", "updating", "is_within_training_step", "is_eval")]
        c.decide(not st, f"{k.name}._collect/flags", st[0].where if st else "", "collection changes flags of the policy")


# ------------------------------------------------------------------------------- C05
@rule("C05")
def reset_does_what_was_asked(c):
    """reset() always resets the environments with the given options, resets buffer and counters exactly when asked, and returns the reset results."""
    for k in collectors(c.p):
        fl = c.flow("reset", k, opaque=("reset_env", "reset_buffer", "reset_stat"))
        con = f"{k.name}.reset"
        for m, flag in (("reset_env", None), ("reset_buffer", P("reset_buffer")), ("reset_stat", P("reset_stats"))):
            cs = calls(fl, m, recv=SELF)
            if not cs:
                c.bad(f"{con}/{m}", fl.entry.where, f"{m} is never called")
                continue
            pth = find_path(fl.entry_node, fl.exit_node, cs, edge_ok=cut(lambda x: x is flag, True) if flag is not None else None)
            c.decide(pth is None, f"{con}/{m}", describe(pth), f"{m} is skipped" + (" although it was asked for" if flag is not None else ""))
            if flag is not None:
                pth = find_path(fl.entry_node, cs, edge_ok=cut(lambda x: x is flag, False))
                c.decide(pth is None, f"{con}/{m} only", describe(pth), f"{m} is called although it was not asked for")
        for n in calls(fl, "reset_env", recv=SELF):
            a = arg(n, 0, "gym_reset_kwargs")
            c.decide(a is P("gym_reset_kwargs") or (a is not None and P("gym_reset_kwargs") in closure(fl, a)), con + "/options", n.where, "the reset options are not passed on")
            vs = values(fl, fl.ret_value)
            R = n.d["result"]
            c.decide(all(v is R or (v.k == "tuple" and [x for x in v.a[0]] == [Term("item", R, 0), Term("item", R, 1)]) for v in vs), con + "/result", fl.entry.where, "does not return the reset results")
        for n in calls(fl, "reset_buffer", recv=SELF):
            a = arg(n, 0, "keep_statistics")
            c.decide(a in (None, FALSE), con + "/statistics", n.where, "the buffer keeps the statistics of unfinished episodes")


@rule("C05")
def counters_start_from_zero(c):
    """reset_stat and the constructor set the cumulative counters to zero; reset_buffer resets the buffer."""
    for k in collectors(c.p):
        for m in ("reset_stat", "__init__"):
            fl = c.flow(m, k, opaque=("reset_env", "_validate_buffer"))
            for a in ("collect_step", "collect_episode", "collect_time"):
                t = fl.end_heap.get((SELF, a))
                c.decide(t is not None and all(v.k == "const" and v.a[0] == 0 for v in values(fl, t)), f"{k.name}.{m}/{a}", fl.entry.where, f"{a} is {show(t) if t is not None else 'unchanged'} afterwards")
        fl = c.flow("reset_buffer", k)
        cs = calls(fl, "reset", recv=BUF)
        pth = find_path(fl.entry_node, fl.exit_node, cs)
        c.decide(pth is None, f"{k.name}.reset_buffer", describe(pth), "the buffer is not reset")
        for n in cs:
            c.decide(arg(n, 0, "keep_statistics") is P("keep_statistics"), f"{k.name}.reset_buffer/statistics", n.where, "keep_statistics is not passed on")


@rule("C05")
def environment_reset_replaces_carried_state(c):
    """reset_env resets all environments and replaces every carried-over value: observations and infos by the reset results, recurrent state by none."""
    for k in collectors(c.p):
        fl = c.flow("reset_env", k, opaque=("_dict_of_arr_to_arr_of_dicts",))
        rs = [n for n in calls(fl, "reset", recv=ENV)]
        con = f"{k.name}.reset_env"
        if not rs:
            c.und(con, "no environment reset")
            continue
        pth = find_path(fl.entry_node, fl.exit_node, rs)
        c.decide(pth is None, con, describe(pth), "the environments are not reset")
        for n in rs:
            ids = arg(n, 0, "env_id")
            c.decide(ids in (None, NONE), con + "/all", n.where, f"only environments {show(ids) if ids is not None else ''} are reset")
            c.decide(P("gym_reset_kwargs") in closure(fl, n.d["term"]), con + "/options", n.where, "the reset options are not used")
        R = [n.d["result"] for n in rs]
        fields = carried_fields(c, k)
        for a, role in sorted(fields.items()):
            t = fl.end_heap.get((SELF, a))
            if t is None:
                c.bad(f"{con}/{a}", fl.entry.where, f"{a} keeps its value from before the reset")
                continue
            vs = vals(fl, t)
            if role == "obs":
                good = vs <= {Term("item", r, 0) for r in R}
            elif role == "info":
                good = vs <= {Term("item", r, 1) for r in R}
            elif role == "state":
                good = vs <= {NONE}
            elif role == "ids":
                good = all(is_call(v, "arange") and all_envs(v.a[1]) for v in vs)
            else:
                good = all(v is NONE or is_call(v, "empty", "zeros", "Batch") or (v.k == "call" and not any(root(x) is SELF and x.k == "attr" and x.a[1] == a for x in subterms(v))) for v in vs)
            c.decide(good, f"{con}/{a}", fl.entry.where, f"{a} is {show(t)[:160]} after the reset")
        v = fl.ret_value
        vs = values(fl, v)
        c.decide(all(x.k == "tuple" and len(x.a[0]) == 2 and vals(fl, x.a[0][0]) <= {Term("item", r, 0) for r in R} and vals(fl, x.a[0][1]) <= {Term("item", r, 1) for r in R} for x in vs),
                 con + "/result", fl.entry.where, f"returns {show(v)[:160]}")


def all_envs(args):
    if len(args) != 1:
        return False
    a = args[0]
    return (a.k == "attr" and a.a[1] == "env_num") or (is_call(a, "len") and a.a[1] and a.a[1][0] is ENV)


def carried_fields(c, k):
    """Attributes of self read by _collect as per-environment data and written by it or by reset_env."""
    e = Env(c, k)
    fl = e.fl
    out = {}
    written = {n.d["attr"] for n in setattrs(fl, base=SELF)} | {t.d["base"].a[1] for t in setsubs(fl) if t.d["base"].k == "attr" and t.d["base"].a[0] is SELF}
    written |= {x.a[1] for n in setsubs(fl) for x in values(fl, n.d["base"]) if x.k == "attr" and x.a[0] is SELF}
    for a in written:
        if a in ("collect_step", "collect_episode", "collect_time"):
            continue
        l = a.lower()
        out[a] = "obs" if "obs" in l else "info" if "info" in l else "state" if "hidden" in l else "ids" if "ids" in l else "other"
    # whatever reset_env already maintains stays maintained
    return out


@rule("C05")
def collection_leaves_a_clean_start(c):
    """After counting steps the state for continuing is kept; after counting episodes all environments are reset."""
    for k in plain(c.p):
        e = Env(c, k)
        fl = e.fl
        if e.step is None:
            continue
        ro = carried(e)
        keep = {}
        for role in ("obs", "info", "state"):
            lp = ro.get(role)
            if lp is None or lp.k != "loopphi":
                continue
            ini = fl.loops[lp][0]
            attr = next((x for v in values(fl, ini) for x in [base_rows(fl, v)] if x.k == "attr" and x.a[0] is SELF), None)
            if attr is None:
                c.und(f"{k.name}._collect/keep {role}", "not taken from the collector")
                continue
            ws = [n for n in setattrs(fl, attr.a[1], base=SELF) if find_path(e.step, n)]
            con = f"{k.name}._collect/keep {role}"
            pth = find_path(e.step, fl.exit_node, ws, edge_ok=both(asked(P("n_step"), True), asked(P("n_episode"), False)))
            c.decide(pth is None, con, describe(pth), f"the {role} to continue from is not kept after counting steps")
            back = fl.loops[lp][1]
            patched = {x.d["base"] for r in e.resets if find_path(e.step, r) for x in setsubs(fl) if x.d["value"] is not None and any(
                y is Term("item", r.d["result"], 0 if role == "obs" else 1) for y in vals(fl, x.d["value"]))} if role in ("obs", "info") else set()
            for n in ws:
                if patched & same_array(fl, back):
                    c.decide(bool(patched & same_array(fl, n.d["value"])), con + "/reset rows", n.where, f"the {role} kept is not the array that received the reset rows")
                c.decide(sel_tree(fl, n.d["value"], None) == sel_tree(fl, back, None) and {base_rows(fl, x) for x in flat(fl, n.d["value"])} == {base_rows(fl, x) for x in flat(fl, back)} or None
                         if {base_rows(fl, x) for x in flat(fl, n.d["value"])} & {base_rows(fl, x) for x in flat(fl, back)} else False,
                         con + "/value", n.where, f"keeps {show(n.d['value'])[:160]}")
        rs = calls(fl, "reset_env", "reset", recv=SELF)
        pth = find_path(e.step, fl.exit_node, rs, edge_ok=both(asked(P("n_step"), False), asked(P("n_episode"), True)))
        c.decide(pth is None, f"{k.name}._collect/reset after episodes", describe(pth), "collecting episodes ends without resetting the environments for the next collection")
    own = c.p.cls("Collector").find("_collect")


@rule("C05")
def running_episodes_do_not_survive_a_reset(c):
    """Resetting the environments also ends the running episodes in the buffer."""
    for k in collectors(c.p):
        fl = c.flow("reset", k, opaque=("_dict_of_arr_to_arr_of_dicts",))
        rs = calls(fl, "reset", recv=ENV)
        touch = [n for n in nodes(fl, "call") if n.d["recv"] is not None and n.d["recv"] is BUF]
        con = f"{k.name}.reset/running episodes"
        if not rs:
            c.und(con, "no environment reset")
            continue
        pth = find_path(fl.entry_node, fl.exit_node, touch, edge_ok=cut(lambda x: x is P("reset_buffer"), False))
        c.decide(pth is None, con, fl.entry.where, "with reset_buffer=False the environments start new episodes while the buffer continues the unfinished ones")


@rule("C05")
def waiting_environments_are_drained_first(c):
    """An asynchronous collector waits for every environment that is still stepping before it resets them."""
    own = c.p.cls("Collector").find("_collect")
    for k in collectors(c.p):
        if k.find("_collect") is own:
            continue
        fl = c.flow("reset_env", k, opaque=("_dict_of_arr_to_arr_of_dicts",))
        rs = calls(fl, "reset", recv=ENV)
        con = f"{k.name}.reset_env/waiting"
        if not rs:
            c.und(con, "no environment reset")
            continue
        w = lambda x: x is Term("attr", ENV, "waiting_id") or (is_call(x, "len") and x.a[1] and x.a[1][0] is Term("attr", ENV, "waiting_id")) or (
            x.k == "cmp" and any(y is Term("attr", ENV, "waiting_id") for y in subterms(x)))
        # with environments still waiting, the reset must be unreachable: only the 'nothing waiting' exit of the loop leads on
        pth = find_path(fl.entry_node, rs, edge_ok=cut(w, True))
        c.decide(pth is None, con, describe(pth), "environments can be reset while some are still stepping")
        for s in calls(fl, "step", recv=ENV):
            a = arg(s, 0, "action")
            c.decide(a is NONE, con + "/no action", s.where, "draining sends actions")
            i = arg(s, 1, "id")
            c.decide(i is Term("attr", ENV, "waiting_id") or None, con + "/ids", s.where, f"drains {show(i) if i is not None else 'all'}")


@rule("C05")
def closing_drops_state(c):
    """close() closes the environments and drops the carried observations so that collecting again is refused."""
    for k in collectors(c.p):
        fl = c.flow("close", k)
        cs = calls(fl, "close", recv=ENV)
        pth = find_path(fl.entry_node, fl.exit_node, cs)
        c.decide(pth is None, f"{k.name}.close", describe(pth), "the environments are not closed")


# ------------------------------------------------------------------------------- C06
@rule("C06")
def counters_count_what_was_stored(c):
    """Steps grow by the number of environments that answered, episodes by the number of ended flags, once per step; both reach the cumulative counters."""
    for e in envs(c, "counters"):
        fl, k = e.fl, e.k
        sc = None
        for lp, vs in fl.loops.items():
            pass
        st = steps_counter(e)
        ep = episodes_counter(e)
        for what, cnt, attr in (("step", st, "collect_step"), ("episode", ep, "collect_episode")):
            con = f"{k.name}._collect/{what}"
            ws = setattrs(fl, attr, base=SELF)
            if cnt is None:
                inc = compared_increment(e, P("n_" + what))
                if inc is not None and (inc.k == "const" or all_envs_count(inc) or (inc.k == "bin" and inc.a[0] in "+-*" and any(is_call(y, "len", "sum") for y in inc.a[1:3]))):
                    c.bad(con, e.step.where, f"counts {show(inc)[:100]} per step instead of the {what}s of the environments that answered")
                    continue
                # maybe counted directly on the attribute
                c.decide(None if ws else False, con, e.step.where, f"{attr}: no counter of collected {what}s found")
                continue
            lp, new, inc = cnt
            c.decide(all(x is new for x in fl.loops[lp][1:]), con + "/each step", e.step.where, f"collected {what}s are not counted at every step")
            good = [n for n in ws if n.d["value"].k in ("bin", "ibin") and n.d["value"].a[0] == "+" and set(n.d["value"].a[1:3]) == {A(attr), new}]
            c.decide(bool(ws) and all(n in good for n in ws), con + "/total", (ws or [e.step])[0].where, f"{attr} does not grow by exactly the collected {what}s")
            pth = find_path(e.step, fl.exit_node, ws)
            c.decide(pth is None, con + "/always", describe(pth), f"{attr} is not updated")
            for a in ws:
                pth = find_path(a, ws)
                c.decide(pth is None, con + "/once", describe(pth), f"{attr} grows twice for one collection")


@rule("C06")
def collection_ends_at_the_requested_amount(c):
    """The loop ends exactly when the steps (or episodes) counted reach the request."""
    for e in envs(c, "end"):
        fl, k = e.fl, e.k
        st = steps_counter(e)
        ep = episodes_counter(e)
        for what, cnt, req, other in (("n_step", st, P("n_step"), P("n_episode")), ("n_episode", ep, P("n_episode"), P("n_step"))):
            con = f"{k.name}._collect/{what}"
            if cnt is None:
                c.und(con, "no counter")
                continue
            new = cnt[1]
            brs = [(b, x, pol) for b in nodes(fl, "branch") for x, pol in [canon_cond(b.d["cond"])] if x.k == "cmp" and req in subterms_set(x) and new in subterms_set(x) and find_path(b, e.step) is not None
                   and (new in (x.a[1], x.a[2]) and req in (x.a[1], x.a[2]))]
            if not brs:
                c.und(con, "no comparison of the counter with the request")
                continue
            base = both(asked(req, True), asked(other, False))
            for b, x, pol in brs:
                # 'enough' side: not (new < req)
                if x.a[0] == "<" and x.a[1] is new and x.a[2] is req:
                    enough, more = ("F", "T") if pol else ("T", "F")
                elif x.a[0] == "<" and x.a[1] is req and x.a[2] is new:
                    c.bad(con, b.where, "collection continues after the requested amount was reached")
                    continue
                else:
                    c.und(con, "unusual comparison")
                    continue
                p1 = find_path(edge_succ(b, enough), e.steps, edge_ok=base, skip_start=False)
                c.decide(p1 is None, con + "/enough", describe(p1), "another step is taken although the request is fulfilled")
                p2 = find_path(edge_succ(b, more), fl.exit_node, e.steps, edge_ok=base, skip_start=False)
                c.decide(p2 is None, con + "/more", describe(p2), "collection ends before the request is fulfilled")


def subterms_set(t):
    return set(subterms(t))


@rule("C06")
def statistics_see_each_step_and_episode(c):
    """The statistics object gets every step batch once and, for every finished episode, that episode's own data and return."""
    for k in plain(c.p):
        e = Env(c, k)
        fl = e.fl
        if e.step is None or e.add is None:
            continue
        con = f"{k.name}._collect/stats"
        us = calls(fl, "update_at_step_batch")
        pth = find_path(e.step, e.steps + [fl.exit_node], us)
        c.decide(pth is None, con + "/step", describe(pth), "a step does not enter the statistics")
        for u in us:
            pth = find_path(u, us, e.steps)
            c.decide(pth is None, con + "/step once", describe(pth), "a step enters the statistics twice")
            a = arg(u, 0, "step_batch")
            c.decide(conv(a) is e.batch() or None if a is not None else False, con + "/step data", u.where, f"statistics get {show(a)[:120] if a is not None else 'nothing'}")
            c.decide(u.d["recv"] is fl.ret_value or any(v is u.d["recv"] for v in values(fl, fl.ret_value)), con + "/returned", u.where, "the returned statistics are not those that were updated")
        ds = calls(fl, "update_at_episode_done")
        if not ds:
            c.bad(con + "/episode", e.step.where, "finished episodes do not enter the statistics")
        ptr, ret, ln, start = (Term("item", e.add.d["result"], i) for i in range(4))
        for d in ds:
            r = arg(d, 1, "episode_return")
            eb = arg(d, 0, "episode_batch")
            loops = [x for x in shallow(eb) if x.k in ("elem", "idx", "val", "key") and find_loop(fl, x) is not None and find_path(e.step, find_loop(fl, x))] if eb is not None else []
            it = next((find_loop(fl, x) for x in loops), None)
            if it is None:
                c.und(con + "/episode", "episodes are not walked in a loop")
                continue
            own = of_done_row(e, r, ret)
            c.decide(own, con + "/return", d.where, f"the return of an episode is {show(r)[:160] if r is not None else '?'}")
            pth = find_path(edge_succ(it, "next"), [it, fl.exit_node] + e.steps, ds, skip_start=False)
            c.decide(pth is None, con + "/each episode", describe(pth), "a finished episode can be left out of the statistics")
            pth = find_path(d, ds, [it])
            c.decide(pth is None, con + "/episode once", describe(pth), "a finished episode enters the statistics twice")


def find_loop(fl, t):
    try:
        return loop_of(fl, t)
    except Exception:
        return None


def of_done_row(e, t, arr):
    """Is t the entry of arr for the finished environment of the current loop pass?"""
    if t is None:
        return None
    t = strip(t, "int", "float", "item")
    if t.k in ("elem", "val"):
        s = t.a[0]
        if s.k == "sub" and e.is_done_sel(s.a[1]):
            return s.a[0] is arr
        return None if arr in set(subterms(s)) else False
    if t.k == "sub" and t.a[0].k != "sub":
        if t.a[0] is not arr:
            return False
        i = t.a[1]
        if i.k in ("elem", "val"):
            return e.is_done_sel(i.a[0]) or None
        return None
    if t.k == "sub" and t.a[0].k == "sub" and e.is_done_sel(t.a[0].a[1]):
        if t.a[1].k == "const":
            return False
        return t.a[0].a[0] is arr if t.a[1].k in ("idx", "item", "elem") else None
    return None if arr in set(subterms(t)) else False


@rule("C06")
def statistics_add_up(c):
    """Statistics objects add steps by the batch length and append each episode's length and return in order."""
    for k in c.p.subclasses(c.p.cls("CollectStats").qual):
        fl = c.flow("update_at_step_batch", k, opaque=("to_numpy", "refresh_std_array_stats", "get_stddev_from_dist"))
        ws = setattrs(fl, "n_collected_steps", base=SELF)
        con = f"{k.name}/steps"
        pth = find_path(fl.entry_node, fl.exit_node, ws)
        c.decide(pth is None, con, describe(pth), "steps are not counted")
        for n in ws:
            v = n.d["value"]
            c.decide(poly(v, lambda t: "old" if t is A("n_collected_steps") else "len" if is_call(t, "len") and t.a[1][0] is P("step_batch") else None) == Poly.x("old") + Poly.x("len"), con + "/by", n.where,
                     f"n_collected_steps becomes {show(v)}")
        fl = c.flow("update_at_episode_done", k, opaque=("refresh_return_stats", "refresh_len_stats"))
        ws = setattrs(fl, "n_collected_episodes", base=SELF)
        pth = find_path(fl.entry_node, fl.exit_node, ws)
        c.decide(pth is None, f"{k.name}/episodes", describe(pth), "episodes are not counted")
        for n in ws:
            c.decide(poly(n.d["value"], lambda t: "old" if t is A("n_collected_episodes") else None) == Poly.x("old") + Poly.c(1), f"{k.name}/episodes/by", n.where, f"becomes {show(n.d['value'])}")
        for a, elem in (("lens", lambda t: is_call(t, "len") and t.a[1][0] is P("episode_batch")), ("returns", lambda t: t is P("episode_return"))):
            t = fl.end_heap.get((SELF, a))
            con = f"{k.name}/{a}"
            if t is None:
                c.bad(con, fl.entry.where, f"{a} of a finished episode are not recorded")
                continue
            for v in values(fl, t):
                good = None
                if is_call(v, "concatenate", "append", "hstack"):
                    seq = v.a[1][0].a[0] if v.a[1] and v.a[1][0].k in ("tuple", "list") else v.a[1][:2]
                    if len(seq) == 2:
                        last = seq[1].a[0][0] if seq[1].k in ("list", "tuple") and len(seq[1].a[0]) == 1 else seq[1]
                        last = strip(last, "array")
                        first = seq[0]
                        if A(a) in (last, seq[1]):
                            good = False  # prepended
                        else:
                            good = first is A(a) and elem(last)
                elif is_call(v, "array", "asarray") and v.a[1] and v.a[1][0].k in ("list", "tuple"):
                    good = len(v.a[1][0].a[0]) == 1 and elem(v.a[1][0].a[0][0])
                    if good:
                        # only when nothing was recorded before
                        good = True
                elif v is A(a):
                    good = False
                c.decide(good, con, fl.entry.where, f"{a} becomes {show(v)[:160]}")


@rule("C06")
def autogenerated_statistics_keep_their_names(c):
    """Statistics built from arrays keep every value under its own name, and the asynchronous collector passes returns, lengths and counts of the finished episodes."""
    k = c.p.cls("CollectStats")
    m = c.p.method(k, "with_autogenerated_stats")
    fl = c.flow(m, k, opaque=("from_sequence",))
    names = [a.arg for a in m.node.args.args if a.arg not in ("cls", "self")]
    ctor = [n for n in nodes(fl, "call") if n.d["result"] in values(fl, fl.ret_value)]
    for n in ctor:
        for a in names:
            v = n.d["kw"].get(a)
            c.decide(v is not None and all(strip(x, "array", "asarray") is P(a) for x in values(fl, v)), f"with_autogenerated_stats/{a}", n.where, f"{a} is {show(v) if v is not None else 'not set'}")
        for a, src in (("returns_stat", "returns"), ("lens_stat", "lens")):
            v = n.d["kw"].get(a)
            c.decide(v is not None and P(src) in closure(fl, v) and not any(P(o) in closure(fl, v) for o in names if o != src), f"with_autogenerated_stats/{a}", n.where, f"{a} is {show(v) if v is not None else 'not set'}")
    own = c.p.cls("Collector").find("_collect")
    for e in envs(c, "autogenerated"):
        if e.k.find("_collect") is own:
            continue
        fl = e.fl
        ret = {i: Term("item", e.add.d["result"], i) for i in range(4)}
        st = counter(e, lambda t: is_call(t, "len") and t.a[1] and t.a[1][0] is e.got)
        ep = episodes_counter(e)
        for n in [x for x in nodes(fl, "call") if x.d["result"] in values(fl, fl.ret_value)]:
            con = f"{e.k.name}._collect/result"
            for a, i in (("returns", 1), ("lens", 2)):
                v = arg(n, None, a)
                if v is None:
                    c.bad(f"{con} {a}", n.where, f"{a} are not reported")
                    continue
                cl = closure(fl, v)
                rows = [x for x in cl if x.k == "sub" and x.a[0] in ret.values()]
                good = bool(rows) and all(x.a[0] is ret[i] for x in rows if find_in_fill(fl, v, x)) and any(x.a[0] is ret[i] and e.is_done_sel(x.a[1]) for x in rows)
                c.decide(good, f"{con} {a}", n.where, f"{a} reported are not those the buffer returned for the finished episodes")
            for a, cnt in (("n_collected_steps", st), ("n_collected_episodes", ep)):
                v = arg(n, None, a)
                c.decide(v is not None and cnt is not None and v is cnt[1], f"{con} {a}", n.where, f"{a} is {show(v)[:100] if v is not None else 'not reported'}")


def find_in_fill(fl, v, x):
    """x is a direct fill of the container behind v (not nested inside another step's arguments)."""
    b = strip(v, "array", "asarray")
    return b in fl.mut and x in fl.mut[b]


@rule("C06")
def collect_time_is_recorded(c):
    """Every collection records its own duration, adds it to the total, and refreshes the summaries."""
    for k in collectors(c.p):
        fl = c.flow("collect", k, opaque=("_collect", "reset", "refresh_all_sequence_stats", "set_collect_time"))
        run = calls(fl, "_collect", recv=SELF)
        con = f"{k.name}.collect/time"
        if not run:
            c.und(con, "no _collect")
            continue
        ws = setattrs(fl, "collect_time", base=SELF)
        ts = calls(fl, "set_collect_time")
        rf = calls(fl, "refresh_all_sequence_stats")
        for what, xs in (("total", ws), ("own", ts), ("summaries", rf)):
            pth = find_path(run, fl.exit_node, xs)
            c.decide(pth is None, f"{con} {what}", describe(pth), f"a collection ends without {what} being recorded")
        tm = calls(fl, "time", "perf_counter", "monotonic")

        def elapsed(t):
            if not (t.k in ("bin", "ibin") and t.a[0] == "-"):
                return None
            l = next((n for n in tm if n.d["result"] is t.a[1]), None)
            r = next((n for n in tm if n.d["result"] is t.a[2]), None)
            if l is None or r is None:
                return None
            return find_path(run, l) is not None and find_path(r, run) is not None and find_path(run, r) is None
        for n in ts:
            a = arg(n, 0, "collect_time")
            c.decide(elapsed(a), con + " value", n.where, f"the recorded time is {show(a)}")
            c.decide(n.d["recv"] in {r.d["result"] for r in run}, con + " object", n.where, "time is recorded on other statistics")
        for n in ws:
            v = n.d["value"]
            if v.k in ("bin", "ibin") and v.a[0] == "+" and A("collect_time") in (v.a[1], v.a[2]):
                inc = v.a[2] if v.a[1] is A("collect_time") else v.a[1]
                g = elapsed(inc)
                if g is None and any(same_skey(inc, arg(t, 0, "collect_time")) for t in ts):
                    g = True
                c.decide(g, con + " total value", n.where, f"collect_time grows by {show(inc)}")
            else:
                c.bad(con + " total value", n.where, f"collect_time becomes {show(v)}")
            pth = find_path(n, ws)
            c.decide(pth is None, con + " once", describe(pth), "the time is added twice")
        vs = values(fl, fl.ret_value)
        c.decide(all(v in {r.d["result"] for r in run} for v in vs), f"{k.name}.collect/result", fl.entry.where, "does not return the statistics of the collection")
    k = c.p.cls("CollectStats")
    fl = c.flow("set_collect_time", k)
    for n in setattrs(fl, "collect_time", base=SELF):
        c.decide(n.d["value"] is P("collect_time"), "set_collect_time/time", n.where, f"collect_time becomes {show(n.d['value'])}")
    for n in setattrs(fl, "collect_speed", base=SELF):
        v = n.d["value"]
        if v.k == "const":
            c.decide(v.a[0] == 0, "set_collect_time/speed", n.where, f"speed {show(v)}")
            continue
        c.decide(v.k == "bin" and v.a[0] == "/" and v.a[1] is A("n_collected_steps") and v.a[2] in (P("collect_time"), A("collect_time")), "set_collect_time/speed", n.where, f"collect_speed becomes {show(v)}")
    fl = c.flow("refresh_all_sequence_stats", k, opaque=("from_sequence", "compute_dim_to_summary_stats"))
    for a, src in (("returns_stat", "returns"), ("lens_stat", "lens"), ("pred_dist_std_array_stat", "pred_dist_std_array")):
        ws = setattrs(fl, a, base=SELF)
        pth = find_path(fl.entry_node, fl.exit_node, ws)
        c.decide(pth is None, f"refresh/{a}", describe(pth), f"{a} is not refreshed")
        for n in ws:
            if n.d["value"] is not NONE:
                used = {x.a[1] for x in closure(fl, n.d["value"]) if x.k == "attr" and x.a[0] is SELF}
                c.decide(used == {src}, f"refresh/{a}/source", n.where, f"{a} is computed from {sorted(used)}")


# ------------------------------------------------------------------------------- C07
@rule("C07")
def step_hook_sees_the_step(c):
    """The step hook runs once per step, between the step and the storing, with the computed actions and the batch that is stored."""
    for k in plain(c.p):
        e = Env(c, k)
        fl = e.fl
        if e.step is None or e.add is None:
            continue
        con = f"{k.name}._collect/step hook"
        hs = [n for n in nodes(fl, "call") if n.d["fn"] is A("_on_step_hook")]
        if not hs:
            c.bad(con, e.step.where, "the step hook is never called")
            continue
        cond = lambda x: x.k == "cmp" and x.a[0] == "is" and x.a[1] is A("_on_step_hook") and x.a[2] is NONE
        pth = find_path(e.step, e.add, hs, edge_ok=both(cut(cond, False), cut(lambda x: x is A("_on_step_hook"), True)))
        c.decide(pth is None, con, describe(pth), "a step is stored before the step hook has seen it")
        for h in hs:
            pth = find_path(h, hs, e.steps)
            c.decide(pth is None, con + "/once", describe(pth), "the step hook runs twice for one step")
            b = h.d["args"][1] if len(h.d["args"]) > 1 else h.d["kw"].get("rollout_batch")
            a = h.d["args"][0] if h.d["args"] else h.d["kw"].get("action_batch")
            c.decide(b is not None and conv(b) is e.batch(), con + "/batch", h.where, "the step hook gets another batch than the stored one")
            c.decide(a is not None and field(fl, a, "act_normalized") is not None and same_skey(field(fl, a, "act_normalized"), resolve_attr(fl, e.action)) or None, con + "/actions", h.where,
                     "the step hook gets other actions than the executed ones")


def resolve_attr(fl, t):
    if t.k == "attr":
        v = field(fl, t.a[0], t.a[1])
        if v is not None:
            return v
    return t


@rule("C07")
def episode_hook_sees_the_finished_episode(c):
    """The episode hook runs for every finished episode with the buffer entries from its start to its last transition."""
    for k in plain(c.p):
        e = Env(c, k)
        fl = e.fl
        if e.step is None or e.add is None:
            continue
        con = f"{k.name}._collect/episode hook"
        hs = [n for n in nodes(fl, "call") if n.d["fn"] is A("_on_episode_done_hook")]
        if not hs:
            c.bad(con, e.step.where, "the episode hook is never called")
            continue
        ptr, ret, ln, start = (Term("item", e.add.d["result"], i) for i in range(4))
        for h in hs:
            b = h.d["args"][0] if h.d["args"] else None
            if b is None or not (conv(b).k == "sub" and conv(b).a[0] is BUF):
                c.decide(None, con + "/data", h.where, f"the hook gets {show(b)[:100] if b is not None else 'nothing'}")
                continue
            idx = conv(b).a[1]
            gi = next((n for n in calls(fl, "get_buffer_indices") if n.d["result"] is conv(idx) or n.d["result"] is idx), None)
            if gi is None:
                c.und(con + "/data", f"indices are {show(idx)[:100]}")
                continue
            c.decide(gi.d["recv"] is BUF, con + "/buffer", gi.where, "indices of another buffer")
            s, t = strip(arg(gi, 0, "start"), "int"), strip(arg(gi, 1, "stop"), "int")
            c.decide(of_done_row(e, s, start), con + "/start", gi.where, f"the episode starts at {show(s)[:120]}")
            good = None
            if t.k in ("bin", "ibin") and t.a[0] == "+":
                one = const(1) in (t.a[1], t.a[2])
                other = t.a[1] if t.a[2] is const(1) else t.a[2]
                good = one and of_done_row(e, other, ptr)
            elif of_done_row(e, t, ptr) in (True, False) and not is_call(t, "add"):
                good = False
            elif t.k == "phi":
                good = False if any(of_done_row(e, strip(v, "int"), ptr) is True for v in values(fl, t)) else None
            c.decide(good, con + "/stop", gi.where, f"the episode stops at {show(t)[:120]}")
            it = next((find_loop(fl, x) for x in shallow(idx) if find_loop(fl, x) is not None and find_path(e.step, find_loop(fl, x))), None)
            if it is None:
                c.und(con + "/each", "episodes not walked in a loop")
                continue
            cond = lambda x: x.k == "cmp" and x.a[0] == "is" and x.a[1] is A("_on_episode_done_hook") and x.a[2] is NONE
            pth = find_path(edge_succ(it, "next"), [it, fl.exit_node], hs, edge_ok=both(cut(cond, False), cut(lambda x: x is A("_on_episode_done_hook"), True)), skip_start=False)
            c.decide(pth is None, con + "/each", describe(pth), "a finished episode is not shown to the hook")
            pth = find_path(h, hs, [it])
            c.decide(pth is None, con + "/once", describe(pth), "an episode is shown to the hook twice")
            # additions
            H = h.d["result"]
            ws = [n for n in calls(fl, "set_array_at_key") if n.d["recv"] is BUF]
            if not ws:
                c.bad(con + "/additions", h.where, "what the hook returns is not stored in the buffer")
            for n in ws:
                v, kk, ix = arg(n, 0, "array"), arg(n, 1, "key"), arg(n, 2, "index")
                if v is None:
                    v = n.d["args"][0] if n.d["args"] else None
                src = lambda t, kind: t is not None and (t.k == kind or (t.k == "sub")) and H in closure(fl, t)
                c.decide(v is not None and H in closure(fl, v) and kk is not None and H in closure(fl, kk) and same_loop(v, kk) and (v.k, kk.k) != ("key", "val"), con + "/entry", n.where,
                         f"stores {show(v)[:60] if v is not None else None} under {show(kk)[:60] if kk is not None else None}")
                c.decide(ix is idx or (ix is not None and conv(ix) is conv(idx)), con + "/where", n.where, "the addition is not stored at exactly the episode's transitions")
                g = guards(fl, n)
                c.decide(any((x.k == "cmp" and x.a[0] == "is" and x.a[1] is P("n_episode") and x.a[2] is NONE and not pol) or (x is P("n_episode") and pol) or (x is P("n_step") and not pol) for x, pol in g),
                         con + "/episodes only", n.where, "additions are stored although steps are counted, leaving gaps in unfinished episodes")
                lp = loop_of(fl, v) if v is not None else None
                if lp is not None:
                    pth = find_path(edge_succ(lp, "next"), [lp], ws, skip_start=False)
                    c.decide(pth is None, con + "/all", describe(pth), "an addition can be left out")
            # shown to the statistics with the additions
            ups = calls(fl, "update_at_episode_done")


@rule("C07")
def merged_hooks_combine_disjoint_entries(c):
    """A merged hook asks every hook with the episode, adds all their entries and refuses entries that would overwrite earlier ones."""
    k = c.p.cls("EpisodeRolloutHookMerged")
    fl = c.flow("__call__", k)
    hs = [n for n in nodes(fl, "call") if n.d["fn"].k in ("elem", "val") and n.d["fn"].a[0] is A("episode_rollout_hooks")]
    con = "EpisodeRolloutHookMerged"
    if not hs:
        c.und(con, "hooks not called in a loop")
        return
    it = loop_of(fl, hs[0].d["fn"])
    for h in hs:
        c.decide(bool(h.d["args"]) and h.d["args"][0] is P("episode_batch"), con + "/episode", h.where, "a hook does not get the episode")
        ups = [n for n in calls(fl, "update") if n.d["args"] and h.d["result"] in closure(fl, n.d["args"][0])] + [n for n in setsubs(fl) if n.d["value"] is not None and h.d["result"] in closure(fl, n.d["value"])]
        none = lambda x: x.k == "cmp" and x.a[0] == "is" and x.a[1] is h.d["result"] and x.a[2] is NONE
        pth = find_path(h, [it, fl.exit_node], ups + nodes(fl, "raise"), edge_ok=both(cut(none, False), cut(lambda x: x is h.d["result"], True)))
        c.decide(pth is None, con + "/all entries", describe(pth), "entries of a hook can be lost")
        pth = find_path(edge_succ(it, "next"), [it, fl.exit_node], hs, skip_start=False)
        c.decide(pth is None, con + "/all hooks", describe(pth), "a hook can be skipped")
        # overlap test: intersection of the new entries with the collected ones; overlap raises, otherwise no raise
        rs = [n for n in nodes(fl, "raise")]
        for r in rs:
            g = guards(fl, r)
            inter = [x for x, pol in g if pol and overlap(fl, x, h.d["result"])]
            wrong = [x for x, pol in g if any(is_call(y, "difference", "symmetric_difference", "issubset", "issuperset", "union") for y in subterms(x))]
            c.decide(True if inter else False if wrong else None, con + "/refuse overlap", r.where, f"entries are refused when {[show(x)[:80] for x, _ in g]}")
        tests = {canon_cond(b.d["cond"])[0] for b in nodes(fl, "branch") if overlap(fl, canon_cond(b.d["cond"])[0], h.d["result"])}
        c.decide(bool(tests) or None, con + "/overlap test", h.where, "overlapping entries are not looked for")
        if tests:
            def ok(n, m, l):
                if n.kind == "branch" and l in ("T", "F"):
                    x, pol = canon_cond(n.d["cond"])
                    if x in tests:
                        return (l == "T") == pol
                    if x is A("check_overlapping_keys"):
                        return (l == "T") == pol
                return True
            pth = find_path(h, ups, edge_ok=ok)
            c.decide(pth is None, con + "/overlap refused", describe(pth), "an overlapping entry overwrites an earlier one although the check is on")


def overlap(fl, t, new):
    for x in subterms(t):
        if is_call(x, "intersection", "isdisjoint") and new in closure(fl, x):
            return True
        if x.k in ("bin", "ibin") and x.a[0] == "&" and new in closure(fl, x):
            return True
        if x.k == "comp" and new in closure(fl, x):
            return True
        if x.k == "cmp" and x.a[0] == "in" and new in closure(fl, x):
            return True
    return False


@rule("C07")
def hooks_can_be_exchanged(c):
    """The constructor and the setters install exactly the given hook."""
    k = c.p.cls("Collector")
    for a, setter, param in (("_on_episode_done_hook", "set_on_episode_done_hook", "hook"), ("_on_step_hook", "set_on_step_hook", "hook")):
        fl = c.flow(setter, k)
        t = fl.end_heap.get((SELF, a))
        c.decide(t is P(param), f"Collector.{setter}", fl.entry.where, f"installs {show(t) if t is not None else 'nothing'}")
        fl = c.flow(setter.replace("set_", "get_", 1), k)
        c.decide(fl.ret_value is A(a), f"Collector.{setter.replace('set_', 'get_', 1)}", fl.entry.where, f"returns {show(fl.ret_value)}")
        fl = c.flow("__init__", k, opaque=("_validate_buffer",))
        t = fl.end_heap.get((SELF, a))
        c.decide(t is P(a[1:]), f"Collector.__init__/{a}", fl.entry.where, f"installs {show(t) if t is not None else 'nothing'}")


@rule("C07")
def hooks_do_not_change_the_episode(c):
    """The library's own episode hooks compute from the episode without writing to it."""
    from ..alias import Alias
    base = c.p.cls("EpisodeRolloutHook")
    for k in c.p.subclasses(base.qual):
        if k.name == base.name:
            continue
        fl = c.flow("__call__", k)
        al = Alias(fl, {P("episode_batch")})
        ms = al.mutations()
        c.decide(not ms, f"{k.name}", (ms[0][0] if ms and isinstance(ms[0], tuple) else ms[0]).where if ms else "", "the hook writes to the episode it was shown")
