"""Vectorised environments, second part: waiting, seeds, shared storage, row order, adapters."""
from __future__ import annotations

from ..core import rule
from ..flow import FALSE, NONE, TRUE, Term, canon_cond, const, dotted, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import Poly, arg, calls, closure, comp_filter, describe, find_path, guards, nodes, poly, root, setattrs, setsubs, skey, values
from .envs import child_commands, child_flow, venv_classes, worker_calls, worker_term, workers_of
from .util import REORDERS, SELF, A, P, assume, each_src, edge_succ, resolve, same_skey


def sources(fl, t):
    """Possible values of t, loop-carried ones expanded."""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        for v in values(fl, x):
            if v in seen:
                continue
            seen.add(v)
            if v.k == "loopphi":
                todo += list(fl.loops.get(v, ()))
            else:
                out.append(v)
    return out


def in_loop(n):
    return find_path(n, n, skip_start=True) is not None


# ------------------------------------------------------------------------------- E02
@rule("E02")
def ready_list_loses_exactly_the_sent(c):
    """The ready list keeps exactly the environments that were not sent an action."""
    for k in venv_classes(c.p):
        fl = c.flow("step", k)
        con = f"{k.name}.step/ready/kept"
        sends = [n for n in worker_calls(fl) if n.d["name"] == "send" and not any(g is A("is_async") and not pol for g, pol in guards(fl, n))]
        ids = [each_src(n.d["recv"].a[1]) for n in sends if n.d["recv"].k == "sub"]
        for n in setattrs(fl, "ready_id", base=SELF):
            v = n.d["value"]
            if v.k != "comp":
                c.und(con, show(v))
                continue
            e = v.a[1]
            f = comp_filter(fl, v)
            if each_src(e) is not A("ready_id") or f is None:
                c.und(con, show(v))
                continue
            if not f:
                c.bad(con, n.where, "every environment stays on the ready list")
                continue
            for g, pol in f:
                if g.k == "cmp" and g.a[0] == "in" and g.a[1] is e:
                    s = g.a[2]
                    if is_call(s, "set", "list", "tuple", "frozenset") and s.a[1]:
                        s = s.a[1][0]
                    if any(s is x or same_skey(s, x) for x in ids if x is not None):
                        c.decide(not pol, con, n.where, "exactly the environments that were sent an action stay ready")
                    elif s.k == "sub" and s.a[1].k == "slice" and any(s.a[0] is x or same_skey(s.a[0], x) for x in ids if x is not None):
                        c.bad(con, n.where, f"only {show(s)[:80]} leave the ready list, not all environments that were sent an action")
                    elif s is A("waiting_id"):
                        c.decide(not pol, con, n.where, "the ready list becomes the list of running environments")
                    else:
                        c.und(con, show(g))
                else:
                    c.und(con, show(g))


@rule("E02")
def waiting_loop_is_right(c):
    """The process back end waits only while something is left to wait for, never asks an answered connection again, counts the time from the start, and keeps all answers."""
    for w in workers_of(c.p):
        fl = c.flow("wait", w)
        con = f"{w.name}.wait"
        ws, num, to = P("workers"), P("wait_num"), P("timeout")
        for n in calls(fl, "wait"):
            q = [str(x) for x in (n.d["quals"] or [dotted(n.d["fn"])])]
            if any("ray" in x for x in q):
                for v in values(fl, fl.ret_value):
                    got = [t for t in closure(fl, v) if t.k in ("item", "sub") and t.a[0] is n.d["term"]]
                    for t in got:
                        i = t.a[1] if t.k == "item" else (t.a[1].a[0] if t.a[1].k == "const" else None)
                        c.decide(None if i is None else i == 0, con + "/finished", n.where, "the workers that did not answer yet are returned as answered")
                continue
            rem = n.d["args"][0]
            c.decide(True if in_loop(n) else False, con + "/repeats", n.where, "connections are waited for only once although more answers were asked for")
            # something left to wait for
            gs = guards(fl, n)

            def nonempty(g, pol):
                if g is rem:
                    return pol
                if g.k == "cmp" and is_call(g.a[1], "len") and g.a[1].a[1][0] is rem:
                    return (g.a[0] == "==" and not pol and g.a[2] is const(0)) or (g.a[0] in ("<", "<=") and not pol)
                if g.k == "cmp" and is_call(g.a[2], "len") and g.a[2].a[1][0] is rem:
                    return g.a[0] == "<" and pol or g.a[0] == "==" and not pol and g.a[1] is const(0)
                return False
            if any(nonempty(g, pol) for g, pol in gs):
                c.ok(con + "/nonempty")
            else:
                capped = any(is_call(t, "min") and any(is_call(x, "len") for x in t.a[1]) for g, _ in gs for t in closure(fl, g))
                used = any(t is rem for g, _ in gs for t in subterms(g))
                c.decide(None if capped or used else False, con + "/nonempty", n.where, "when every running environment has answered but fewer than asked for are running, waiting never ends")
            # what is waited for next
            upd = [x for x in fl.loops.get(rem, ()) if x is not rem] if rem.k == "loopphi" else []
            acc = [m for m in calls(fl, "extend") if n.d["term"] in m.d["args"]] + [m for m in nodes(fl, "aug") if m.d["rhs"] is n.d["term"]]
            allr = {m.d["recv"] for m in acc if m.kind == "call"}
            for x in upd:
                if x.k != "comp":
                    continue
                if x.a[1].k == "attr" and each_src(x.a[1].a[0]) is ws:
                    continue  # the initial list
                src, f = each_src(x.a[1]), comp_filter(fl, x)
                if src is None or f is None:
                    c.und(con + "/left", show(x))
                    continue
                for g, pol in f:
                    if not (g.k == "cmp" and g.a[0] == "in" and g.a[1] is x.a[1]):
                        c.und(con + "/left", show(g))
                        continue
                    if pol:
                        c.bad(con + "/left", n.where, "the answered connections are waited for again")
                    elif src is rem:
                        c.decide(True if g.a[2] in allr or g.a[2] is n.d["term"] else None, con + "/left", n.where, show(g))
                    else:
                        c.decide(True if g.a[2] in allr else (False if g.a[2] is n.d["term"] else None), con + "/left", n.where,
                                 "connections that answered in an earlier round are waited for again, and counted twice")
            # time left
            t = n.d["kw"].get("timeout") or (n.d["args"][1] if len(n.d["args"]) > 1 else None)
            tick = [m for m in nodes(fl, "call") if dotted(m.d["fn"]) in ("time.time", "time.perf_counter", "time.monotonic")]
            at = {m.d["term"]: ("now" if in_loop(m) else "start") for m in tick}
            if t is not None:
                for v in sources(fl, t):
                    if v is to or v is NONE:
                        continue
                    pl = poly(v, lambda y: "timeout" if y is to else at.get(y))
                    want = Poly.x("timeout") - Poly.x("now") + Poly.x("start")
                    odd = pl.atoms() - {"timeout", "now", "start"}
                    c.decide(None if odd else pl == want, con + "/time left", n.where, f"the time left is computed as {pl}")
            # answers accumulate
            for v in values(fl, fl.ret_value):
                if v.k == "comp" and len(v.a[2]) == 1:
                    src = v.a[2][0]
                    vs = [src] + (list(fl.loops.get(src, ())) if src.k == "loopphi" else [])
                    if n.d["term"] in vs:
                        c.bad(con + "/accumulate", n.where, "answers of an earlier round are forgotten")
                    else:
                        ok = src in allr or any(x.k in ("bin", "ibin") and x.a[0] == "+" and src in x.a[1:] for x in vs)
                        c.decide(ok or None, con + "/accumulate", n.where, show(src))


# ------------------------------------------------------------------------------- E03
@rule("E03")
def answers_have_the_expected_kind(c):
    """The parent tells an answer apart by its kind (tuple): the child sends tuples for step and reset."""
    w = c.p.cls("SubprocEnvWorker")
    fl = child_flow(c)
    cmds = child_commands(fl)
    recs = calls(fl, "recv")
    pipe = recs[0].d["recv"]
    for cmd in ("step", "reset"):
        if cmd not in cmds:
            raise AnalysisBroken(f"{cmd} not handled")
        b, lab, _ = cmds[cmd]
        for s in calls(fl, "send"):
            if s.d["recv"] is not pipe or not find_path(edge_succ(b, lab), s, recs, skip_start=False):
                continue
            for v in values(fl, s.d["args"][0]):
                bad = v.k in ("list", "dict", "set") or is_call(v, "list", "dict")
                c.decide(False if bad else True, f"{cmd}/answer kind", s.where, f"the child answers {cmd!r} with a {v.k if v.k != 'call' else show(v)}; the parent expects a tuple and takes anything else for a bare observation")
                if v.k == "tuple" and not any(x.k == "star" for x in v.a[0]):
                    c.decide(len(v.a[0]) == (2 if cmd == "reset" else 5), f"{cmd}/answer size", s.where, f"the answer to {cmd!r} has {len(v.a[0])} components")


# ------------------------------------------------------------------------------- E04
@rule("E04")
def integer_seed_becomes_consecutive_seeds(c):
    """Under 'an integer was given' (zero included) environment i gets seed + i; under 'nothing given' nothing is made up."""
    for k in venv_classes(c.p):
        fl = c.flow("seed", k)
        con = f"{k.name}.seed"
        sd = P("seed")

        def val(t):
            if t.k == "cmp" and t.a[0] == "is" and sd in t.a[1:] and NONE in t.a[1:]:
                return False
            if is_call(t, "isinstance") and t.a[1][0] is sd:
                return "int" in skey(t.a[1][1])
            return None
        for b in nodes(fl, "branch"):
            g, _ = canon_cond(b.d["cond"])
            if g is sd:
                c.bad(con + "/zero", b.where, "the seed 0 is treated like no seed")
        for t in closure(fl, fl.ret_value):
            if t.k == "boolop" and sd in t.a[1] and t.a[1][-1] is not sd:
                c.bad(con + "/zero", fl.entry.where, f"the seed 0 is treated like no seed in {show(t)}")
        for n in calls(fl, "seed"):
            if not worker_term(n.d["recv"]):
                continue
            s = arg(n, 0, "seed")
            if s is None:
                continue
            src = each_src(s)
            t = resolve(src if src is not None else s, val)
            for v in values(fl, t):
                while is_call(v, "list", "tuple", "asarray", "array") and v.a[1]:
                    v = v.a[1][0]
                if v.k in ("bin", "ibin") and v.a[0] == "*" and any(sd in subterms(x) for x in v.a[1:]):
                    c.bad(con + "/consecutive", n.where, f"an integer seed becomes {show(v)}: all environments behave alike")
                elif v.k == "comp":
                    e = v.a[1]
                    var = [y for y in subterms(e) if y.k in ("elem", "idx")]
                    pl = poly(e, lambda y: "seed" if y is sd else ("i" if y in var else None))
                    odd = pl.atoms() - {"seed", "i"}
                    c.decide(None if odd else pl == Poly.x("seed") + Poly.x("i"), con + "/consecutive", n.where, f"environment i gets seed {pl}")
                elif is_call(v, "range", "arange") and v.a[1] and v.a[1][0] is sd:
                    c.ok(con + "/consecutive")
                else:
                    c.und(con + "/consecutive", show(v))


@rule("E04")
def every_seeding_call_carries_the_seed(c):
    """Whatever a seed method uses to seed (seed or reset of the environment), the seed given is what it hands over."""
    ks = list(workers_of(c.p)) + ([c.p.cls("PettingZooEnv")] if c.p.has_cls("PettingZooEnv") else [])
    for k in ks:
        fl = c.flow("seed", k)
        con = f"{k.name}.seed/hands over"
        n0 = 0
        for n in nodes(fl, "call"):
            nm = n.d["name"]
            fn = n.d["fn"]
            tgt = fn.a[0] if nm == "remote" and fn.k == "attr" else fn
            if tgt.k != "attr" or tgt.a[1] not in ("seed", "reset", "seed_action_space") or root(tgt) is not SELF or n.d["is_super"]:
                continue
            given = list(n.d["args"]) + [v for _, v in n.d["kwt"]]
            n0 += 1
            c.decide(any(P("seed") in closure(fl, x) for x in given), con, n.where, f"{show(n.d['term'])} is made without the seed")
        for n in calls(fl, "send"):
            n0 += 1
            c.decide(any(P("seed") in closure(fl, x) for x in n.d["args"]), con, n.where, f"{show(n.d['term'])} is made without the seed")
        if not n0:
            c.und(con, "no seeding call found")


@rule("E04")
def reset_options_stay_complete(c):
    """The options of a reset are handed on as given: nothing is taken out of them on the way."""
    for k in workers_of(c.p):
        for m in ("reset", "send"):
            fl = c.flow(m, k)
            kw = P("kwargs")
            con = f"{k.name}.{m}/options complete"
            took = [n for n in nodes(fl, "call") if n.d["recv"] is kw and n.d["name"] in ("pop", "popitem", "clear")]
            took += [n for n in nodes(fl) if n.kind in ("delsub", "setsub") and n.d["base"] is kw]
            use = [n for n in nodes(fl, "call") if any(v is kw for _, v in n.d["kwt"]) or any(kw in subterms(x) for x in n.d["args"])]
            bad = None
            for t in took:
                for u in use:
                    if u is not t and find_path(t, u, skip_start=True):
                        bad = t
            c.decide(bad is None, con, bad.where if bad else fl.entry.where, f"{show(bad.d['term']) if bad is not None and bad.kind == 'call' else 'a change of the options'} removes an option before the environment gets it")


# ------------------------------------------------------------------------------- E05
@rule("E05")
def blocks_have_the_spaces_type_and_size(c):
    """A shared block remembers the dtype and shape it was made for and has room for exactly that many elements of that type."""
    k = c.p.cls("ShArray")
    fl = c.flow("__init__", k)
    for a in ("dtype", "shape"):
        ws = setattrs(fl, a, base=SELF)
        c.decide(bool(ws) or None, f"block/{a}", fl.entry.where, f"{a} is not remembered")
        for n in ws:
            v = n.d["value"]
            c.decide(True if v is P(a) else (None if P(a) in closure(fl, v) else False), f"block/{a}", n.where, f"{a} is remembered as {show(v)}")
    for n in setattrs(fl, "arr", base=SELF):
        v = n.d["value"]
        if not is_call(v, "Array", "RawArray"):
            c.und("block/size", show(v))
            continue
        ty = v.a[1][0] if v.a[1] else None
        sz = v.a[1][1] if len(v.a[1]) > 1 else dict(v.a[2]).get("size_or_initializer")
        c.decide(None if ty is None else (True if Term("attr", P("dtype"), "type") in subterms(ty) else (None if P("dtype") in subterms(ty) else False)), "block/element type", n.where, f"elements are stored as {show(ty) if ty else '?'}")
        while sz is not None and is_call(sz, "int") and sz.a[1]:
            sz = sz.a[1][0]
        if sz is None:
            c.und("block/size", show(v))
        else:
            good = is_call(sz, "prod") and sz.a[1] and P("shape") in subterms(sz.a[1][0])
            bad = is_call(sz, "max", "min", "sum", "len") or (sz.k == "sub" and sz.a[0] is P("shape"))
            c.decide(True if good else (False if bad else None), "block/size", n.where, f"the block has room for {show(sz)} elements")


@rule("E05")
def parts_are_paired_by_name_or_place(c):
    """Writing pairs the entries of a dictionary by key and the parts of a tuple by place; reading keeps every entry under its own key."""
    w = child_flow(c)
    buf = P("obs_bufs")
    from_buf = lambda t: root(t) is buf or any(x is buf for x in subterms(t))
    n0 = 0
    for n in nodes(w, "call"):
        if len(n.d["args"]) != 2 or n.d["inlined"] or is_call(n.d["term"], "isinstance", "zip", "len", "type", "copyto"):
            continue
        o, b = n.d["args"]
        if not from_buf(b) or b is buf or from_buf(o):
            continue
        n0 += 1
        if o.k == "sub" and b.k == "sub":
            c.decide(o.a[1] is b.a[1] or None, "encode/pair", n.where, f"{show(o)} -> {show(b)}")
        elif b.k in ("elem", "val") and o.k in ("elem", "val"):
            def lst(t):
                s = t.a[0]
                if t.k == "val" or is_call(s, "values", "items"):
                    return "dict", s
                return "seq", s
            (ko, so), (kb, sb) = lst(o), lst(b)
            re_ = [x for x in (so, sb) if any(is_call(y, *REORDERS) for y in subterms(x)) or (x.k == "sub" and x.a[1].k == "slice")]
            if ko == "dict" or kb == "dict":
                c.bad("encode/pair", n.where, "dictionary entries are paired by their order instead of their key: an observation whose keys come in another order lands in the wrong blocks")
            elif re_:
                c.bad("encode/pair", n.where, f"the parts of a tuple are paired as {show(so)} with {show(sb)}")
            else:
                c.decide(o.a[1] == b.a[1], "encode/pair", n.where, f"{show(o)} -> {show(b)}")
        elif o.k == "val" and b.k == "sub":
            c.decide(b.a[1].k == "key" and b.a[1].a[1] == o.a[1] or None, "encode/pair", n.where, f"{show(o)} -> {show(b)}")
        else:
            c.und("encode/pair", show(n.d["term"]))
    if not n0:
        c.und("encode/pair", "no recursive writing found")
    k = c.p.cls("SubprocEnvWorker")
    fd = c.flow("_decode_obs", k)
    for v in values(fd, fd.ret_value):
        bad = [t for t in subterms(v) if is_call(t, *REORDERS)]
        c.decide(not bad, "decode/pair", fd.entry.where, f"the parts of an observation are read back through {show(bad[0]) if bad else ''}")


# ------------------------------------------------------------------------------- E07
@rule("E07")
def requested_ids_not_positions(c):
    """Worker numbers come from the requested ids, never from their count; result rows stay in request order; each row holds its own worker's answer."""
    for k in venv_classes(c.p):
        for m in ("reset", "step", "get_env_attr", "set_env_attr"):
            fl = c.flow(m, k)
            con = f"{k.name}.{m}"
            for n in worker_calls(fl):
                r = n.d["recv"]
                if r is None or r.k != "sub":
                    continue
                i = r.a[1]
                src = each_src(i)
                if i.k == "idx":
                    whole = i.a[0] is A("workers") or is_call(i.a[0], "range")
                    c.decide(True if whole else False, f"{con}/{n.d['name']}/numbers", n.where, f"worker numbers run over the positions in {show(i.a[0])}, not over the ids in it")
                for v in values(fl, src) if src is not None else ():
                    cnt = is_call(v, "range", "arange") and any(is_call(t, "len") and t.a[1][0] not in (SELF, A("workers")) for t in v.a[1])
                    c.decide(not cnt, f"{con}/{n.d['name']}/numbers", n.where, f"worker numbers run over {show(v)}, the count of the requested ids, not the ids")
        fl = c.flow("step", k)
        for n in calls(fl, "insert", "appendleft"):
            if any(is_call(t, "recv") for x in n.d["args"] for t in closure(fl, x)) and any(g is A("is_async") and not pol for g, pol in guards(fl, n)):
                c.bad(f"{k.name}.step/row order", n.where, "results are collected in the reverse order of the requested ids")
        for n in calls(fl, "append"):
            if any(is_call(t, "recv") for x in n.d["args"] for t in subterms(x)) and any(g is A("is_async") and not pol for g, pol in guards(fl, n)):
                c.ok(f"{k.name}.step/row order")
        fl = c.flow("reset", k)
        for v in values(fl, fl.ret_value):
            if v.k != "tuple":
                continue
            for i, x in enumerate(v.a[0]):
                for y in values(fl, x):
                    if is_call(y, "stack", "array", "asarray", "concatenate") and y.a[1]:
                        y = y.a[1][0]
                    if y.k != "comp":
                        continue
                    e = y.a[1]
                    if e.k in ("sub", "item"):
                        own = any(t.k in ("elem", "val") and is_inner(y, t) for t in subterms(e.a[0])) or e.a[0].k == "elem"
                        c.decide(own or False, f"{k.name}.reset/own row {i}", fl.entry.where, f"every row of component {i} is {show(e)}")


def is_inner(comp, elem):
    return any(elem.a[0] is it for it in comp.a[2])


# ------------------------------------------------------------------------------- E08
@rule("E08")
def either_flag_ends(c):
    """TruncatedAsTerminated reports termination when either flag is set."""
    k = c.p.cls("TruncatedAsTerminated")
    fl = c.flow("step", k)
    st = calls(fl, "step")
    if not st:
        raise AnalysisBroken("wrapped step not found")
    r = st[0].d["term"]
    te, tr = Term("item", r, 2), Term("item", r, 3)
    for v in values(fl, fl.ret_value):
        if v.k != "tuple" or len(v.a[0]) != 5:
            continue
        from .util import truths
        x = v.a[0][2]
        for a in (False, True):
            for b in (False, True):
                got = truths(resolve(x, lambda t: a if t is te else (b if t is tr else None)), lambda t: a if t is te else (b if t is tr else None))
                if None in got or len(got) != 1:
                    c.und(f"TruncatedAsTerminated.step/{a:d}{b:d}", show(x))
                else:
                    c.decide(got == {a or b}, f"TruncatedAsTerminated.step/{a:d}{b:d}", fl.entry.where, f"with terminated={a}, truncated={b} the wrapper reports terminated={next(iter(got))}")


@rule("E08")
def every_agent_gets_its_reward(c):
    """After a step every agent's latest reward is stored at that agent's own position, replacing the old one."""
    k = c.p.cls("PettingZooEnv")
    fl = c.flow("step", k)
    rw = Term("attr", A("env"), "rewards")
    src = lambda t: t is rw or (is_call(t, "items", "keys") and t.a[0].k == "attr" and t.a[0].a[0] is rw) or t is A("agents") or (t.k == "attr" and t.a[1] in ("agents", "possible_agents")) or t is A("agent_idx")
    ws = setsubs(fl, base=A("rewards"))
    for n in ws:
        con = "PettingZooEnv.step/every agent"
        i = n.d["index"]
        if i.k == "idx":
            c.decide(src(i.a[0]) or None, con, n.where, show(i))
            continue
        ag = i.a[1] if i.k == "sub" and i.a[0] is A("agent_idx") else (i if i.k == "val" else None)
        if ag is None:
            c.und(con, show(i))
            continue
        if ag.k not in ("key", "elem", "val"):
            c.bad(con, n.where, f"only the reward of {show(ag)} is stored; rewards other agents received by this step are lost")
            continue
        base = each_src(ag)
        c.decide(True if src(base) or "rewards" in skey(base) else None, con, n.where, show(base))
        c.decide(not n.d["aug"], "PettingZooEnv.step/latest", n.where, "rewards of earlier steps are added up: an agent's reward is reported again and again")
        f = [x for x in nodes(fl, "branch") if x.kind == "branch" and any(g is canon_cond(x.d["cond"])[0] and ag in subterms(g) for g, _ in guards(fl, n))]
        c.decide(not f or None, "PettingZooEnv.step/all agents", n.where, "stored only for some agents")
    if not ws and not setattrs(fl, "rewards", base=SELF):
        c.und("PettingZooEnv.step/every agent", "rewards are stored in another way")


@rule("E08")
def masks_mark_allowed_actions(c):
    """A mask entry is true exactly for an allowed action; reset options reach the wrapped environment."""
    k = c.p.cls("PettingZooEnv")
    for m in ("reset", "step"):
        fl = c.flow(m, k)
        for v in values(fl, fl.ret_value):
            if v.k != "tuple":
                continue
            for o in values(fl, v.a[0][0]):
                if o.k != "dict":
                    continue
                d = {kk.a[0]: vv for kk, vv in o.a[0] if kk is not None and kk.k == "const"}
                mk = d.get("mask")
                if mk is None or "action_mask" not in skey(mk):
                    continue
                con = f"PettingZooEnv.{m}/mask meaning"
                e = mk.a[1] if mk.k == "comp" else None
                if e is None:
                    c.und(con, show(mk))
                    continue
                g, pol = canon_cond(e)
                if g.k == "elem" or is_call(g, "bool"):
                    c.decide(pol, con, fl.entry.where, f"a mask entry is {show(e)}")
                elif g.k == "cmp" and g.a[0] == "==" and any(x.k == "const" and x.a[0] in (0, 1) for x in g.a[1:]):
                    x = next(x.a[0] for x in g.a[1:] if x.k == "const")
                    c.decide(pol == bool(x), con, fl.entry.where, f"a mask entry is {show(e)}: forbidden actions are marked allowed")
                elif g.k == "cmp" and g.a[0] == "<" and g.a[1] is const(0):
                    c.decide(pol, con, fl.entry.where, f"a mask entry is {show(e)}")
                else:
                    c.und(con, show(e))
                f = comp_filter(fl, mk)
                c.decide(None if f is None else not f, con + "/length", fl.entry.where, "the mask leaves out actions")
    fl = c.flow("reset", k)
    rs = [n for n in calls(fl, "reset") if n.d["recv"] is A("env")]
    for n in rs:
        c.decide(any(v is P("kwargs") for _, v in n.d["kwt"]) or any(P("kwargs") in closure(fl, v) for _, v in n.d["kwt"]), "PettingZooEnv.reset/options", n.where, "reset options (the seed) do not reach the wrapped environment")


@rule("E08")
def grid_and_radix(c):
    """The grid of a discretised dimension includes both ends and is looked up per dimension; a base is the product of the sizes after it."""
    k = c.p.cls("ContinuousToDiscrete")
    fl = c.flow("__init__", k)
    for n in setattrs(fl, "mesh", base=SELF):
        for t in closure(fl, n.d["value"]):
            if is_call(t, "linspace"):
                kw = dict(t.a[2])
                ep = kw.get("endpoint") or (t.a[1][3] if len(t.a[1]) > 3 else TRUE)
                c.decide(True if ep is TRUE else (False if ep is FALSE else None), "ContinuousToDiscrete/both ends", n.where, "the largest action of a dimension cannot be chosen: the grid leaves out the upper bound")
    fl = c.flow("action", k)
    hits = [t for t in closure(fl, fl.ret_value) if t.k == "sub" and (t.a[0].k == "sub" and t.a[0].a[0] is A("mesh"))]
    for t in hits:
        d, i = t.a[0].a[1], t.a[1]
        if d.k == "const":
            c.bad("ContinuousToDiscrete.action/own grid", fl.entry.where, f"every dimension is looked up in the grid of dimension {show(d)}")
        elif d.k == "idx" and i.k == "elem":
            c.decide(d.a[1] == i.a[1], "ContinuousToDiscrete.action/own grid", fl.entry.where, f"dimension {show(d)} is looked up at {show(i)}")
        else:
            c.und("ContinuousToDiscrete.action/own grid", show(t))
    k = c.p.cls("MultiDiscreteToDiscrete")
    fl = c.flow("__init__", k)
    bs = [x.d["value"] for x in setattrs(fl, "bases", base=SELF)]
    for n in setsubs(fl, base=lambda b: b is A("bases") or b in bs):
        v, i = n.d["value"], n.d["index"]
        if v.k == "bin" and v.a[0] == "*":
            nv = [x for x in v.a[1:] if x.k == "sub" and x.a[0] is not n.d["base"]]
            if len(nv) != 1:
                c.und("MultiDiscreteToDiscrete/size used", show(v))
                continue
            pl = poly(nv[0].a[1], lambda t: "i" if t is i else ("L" if is_call(t, "len") or (t.k == "attr" and t.a[1] == "size") else None))
            odd = pl.atoms() - {"i", "L"}
            good = pl in (-Poly.x("i"), Poly.x("L") - Poly.x("i"))
            c.decide(None if odd else good, "MultiDiscreteToDiscrete/size used", n.where, f"base {show(i)} is built with the size of dimension {pl}, not the i-th from the end")
    for n in setattrs(fl, "action_space", base=SELF):
        v = n.d["value"]
        if is_call(v, "Discrete") and v.a[1]:
            x = v.a[1][0]
            while is_call(x, "int") and x.a[1]:
                x = x.a[1][0]
            c.decide(True if is_call(x, "prod") else (False if is_call(x, "sum", "max", "len") else None), "MultiDiscreteToDiscrete/size", n.where, f"there are {show(x)} flat actions")
