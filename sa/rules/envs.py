"""Vectorised environments, workers, wrappers."""
from __future__ import annotations

from ..alias import Alias
from ..core import rule
from ..flow import FALSE, NONE, TRUE, Term, canon_cond, children, const, dotted, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import (Poly, after_all, arg, attr_named, before_all, calls, closure, comp_filter, describe, find_path, guards, mentions, nodes, poly, reachable, root, setattrs, setsubs,
                     skey, values)
from .util import REORDERS, SELF, A, P, both, cut, each_src, edge_succ, inner_step, iter_heads, loop_of, rat, rat_eq, same_skey

BASE = "BaseVectorEnv"
OPS = ("get_env_attr", "set_env_attr", "reset", "step", "seed", "render")


def venv_classes(p):
    wrap = p.cls("VectorEnvWrapper")
    return [k for k in p.subclasses(p.cls(BASE).qual) if not k.is_sub(wrap.qual)]


def wrapper_classes(p):
    return p.subclasses(p.cls("VectorEnvWrapper").qual)


def worker_term(t):
    """elem/sub of self.workers."""
    return t is not None and t.k in ("elem", "sub", "val") and t.a[0] is A("workers")


def worker_calls(fl):
    return [n for n in nodes(fl, "call") if worker_term(n.d["recv"]) or (n.d["name"] == "wait" and n.d["recv"] is A("worker_class"))]


def workers_of(p):
    return [k for k in p.subclasses(p.cls("EnvWorker").qual) if not k.name == "EnvWorker"]


# ------------------------------------------------------------------------------- E01
@rule("E01")
def operations_check_closed(c):
    """Every worker access of every operation is reached only on the not-closed side of a closed test that raises otherwise."""
    for k in venv_classes(c.p):
        for m in OPS + ("close",):
            fl = c.flow(m, k)
            ws = worker_calls(fl)
            con = f"{k.name}.{m}"
            if not ws:
                c.und(con, "no worker access found")
                continue
            for n in ws:
                g = any(x is A("is_closed") and not pol for x, pol in guards(fl, n))
                c.decide(g, f"{con}/{n.d['name']}", n.where, f"{m} reaches a worker without having checked that the environment is open")


@rule("E01")
def reserved_attributes_go_through_check(c):
    """Space/metadata attributes are fetched through the checked attribute access."""
    k = c.p.cls(BASE)
    f = k.find("__getattribute__")
    if f is None:
        raise AnalysisBroken("BaseVectorEnv.__getattribute__ vanished")
    fl = c.flow(f, k, opaque=("get_env_attr",))
    vs = values(fl, fl.ret_value)
    got = [v for v in vs if is_call(v, "get_env_attr")]
    c.decide(bool(got), "reserved", fl.entry.where, "reserved attributes are no longer looked up in the environments")
    for n in nodes(fl, "call"):
        if n.d["name"] == "get_env_attr":
            ok = any(g.k == "cmp" and g.a[0] == "in" and pol for g, pol in guards(fl, n))
            c.decide(ok or None, "reserved/guard", n.where, "attribute lookup in the environments is not limited to the reserved names")
            c.decide(arg(n, 0, "key") is P("key"), "reserved/key", n.where, f"looks up {show(arg(n, 0, 'key'))}")


@rule("E01")
def close_reaches_every_worker_once(c):
    """close() closes all workers and then marks the environment closed; a worker closes its environment at most once."""
    for k in venv_classes(c.p):
        fl = c.flow("close", k, opaque=("close_env",))
        wc = [n for n in calls(fl, "close") if worker_term(n.d["recv"])]
        con = f"{k.name}.close"
        c.decide(bool(wc), con, fl.entry.where, "close() closes no worker")
        for n in wc:
            r = n.d["recv"]
            if r.k == "elem":
                lp = loop_of(fl, r)
                skip = find_path(edge_succ(lp, "next"), lp, n, skip_start=False) if lp else None
                c.decide(skip is None, con + "/each", n.where, f"an iteration can skip closing its worker: {describe(skip)}")
                brk = find_path(edge_succ(lp, "next"), fl.exit_node, lp, skip_start=False) if lp else None
                c.decide(brk is None, con + "/all", n.where, f"closing stops before the last worker: {describe(brk)}")
            else:
                c.und(con + "/each", show(r))
        st = [n for n in setattrs(fl, "is_closed", base=SELF) if n.d["value"] is TRUE]
        pth = find_path(fl.entry_node, fl.exit_node, st)
        c.decide(bool(st) and pth is None, con + "/mark", fl.entry.where, f"the environment is not marked closed: {describe(pth)}")
        for n in nodes(fl, "setattr"):
            if n.d["base"] is SELF and n.d["attr"] == "is_closed" and n.d["value"] is not TRUE:
                c.bad(con + "/mark", n.where, f"close() sets the closed mark to {show(n.d['value'])}")
        for m in OPS + ("__init__",):
            fm = c.flow(m, k)
            for n in setattrs(fm, "is_closed", base=SELF):
                c.decide(m == "__init__" and n.d["value"] is FALSE, f"{k.name}.{m}/mark", n.where, f"{m} sets the closed mark to {show(n.d['value'])}")
    for w in workers_of(c.p):
        fl = c.flow("close", w, opaque=("close_env",))
        ce = calls(fl, "close_env")
        con = f"{w.name}.close"
        c.decide(bool(ce), con, fl.entry.where, "closing a worker does not close its environment")
        mk = [n for n in setattrs(fl, "is_closed", base=SELF) if n.d["value"] is TRUE]
        for n in ce:
            c.decide(any(g is A("is_closed") and not pol for g, pol in guards(fl, n)), con + "/once", n.where, "a worker may close its environment twice")
            pth = find_path(fl.entry_node, fl.exit_node, ce, edge_ok=cut(lambda t: t is A("is_closed"), False))
            c.decide(pth is None, con + "/always", n.where, f"an open worker can be closed without closing its environment: {describe(pth)}")
        pth = find_path(fl.entry_node, fl.exit_node, mk, edge_ok=cut(lambda t: t is A("is_closed"), False))
        c.decide(bool(mk) and pth is None, con + "/mark", fl.entry.where, f"the worker is not marked closed: {describe(pth)}")


@rule("E01")
def closing_releases_the_environment(c):
    """Closing a worker really closes its environment / ends its process on every normal path."""
    for w in workers_of(c.p):
        fl = c.flow("close_env", w)
        con = f"{w.name}.close_env"
        if w.name == "SubprocEnvWorker":
            snd = [n for n in calls(fl, "send") if "close" in skey(n.d["term"])]
            term = [n for n in calls(fl, "terminate", "kill") if n.d["recv"] is A("process")]
            pth = find_path(fl.entry_node, fl.exit_node, term, exc=True)
            c.decide(bool(snd) and pth is None, con, fl.entry.where, f"the process is not ended on the path {describe(pth)}")
        else:
            cl = [n for n in nodes(fl, "call") if n.d["name"] in ("close", "remote") and n.d["recv"] is not None and mentions(fl, n.d["recv"], lambda t: t is A("env"))
                  and (n.d["name"] == "close" or "close" in skey(n.d["recv"]))]
            pth = find_path(fl.entry_node, fl.exit_node, cl)
            c.decide(bool(cl) and pth is None, con, fl.entry.where, f"the environment is not closed on the path {describe(pth)}")


# ------------------------------------------------------------------------------- E02
def async_cut():
    return cut(lambda t: t is A("is_async"), True)


def waiting_checks(fl):
    """branch nodes testing `x in self.waiting_id` whose true side always raises."""
    out = []
    for n in nodes(fl, "branch"):
        cnd, pol = canon_cond(n.d["cond"])
        if cnd.k == "cmp" and cnd.a[0] == "in" and cnd.a[2] is A("waiting_id"):
            out.append((n, cnd.a[1], "T" if pol else "F"))
        elif cnd.k in ("call", "comp") and any(t.k == "cmp" and t.a[0] == "in" and t.a[2] is A("waiting_id") for t in subterms(cnd)):
            t = next(t for t in subterms(cnd) if t.k == "cmp" and t.a[0] == "in" and t.a[2] is A("waiting_id"))
            lab = ("T" if pol else "F") if is_call(cnd, "any") else ("F" if pol else "T")
            out.append((n, t.a[1], lab))
    return out


@rule("E02")
def busy_environments_are_refused(c):
    """In asynchronous mode every request to chosen environments is preceded by a check of the same ids against the busy list, which raises."""
    for k in venv_classes(c.p):
        for m in ("reset", "step", "seed", "get_env_attr", "set_env_attr"):
            fl = c.flow(m, k)
            con = f"{k.name}.{m}"
            ch = waiting_checks(fl)
            # reading results back is not a request; wait() addresses busy ones on purpose
            reqs = [n for n in worker_calls(fl) if n.d["name"] not in ("wait", "recv")]
            for n in reqs:
                if m == "step" and any(g is A("is_async") and not pol for g, pol in guards(fl, n)):
                    continue
                pth = find_path(fl.entry_node, n, [b for b, _, _ in ch], loops_once=True, edge_ok=async_cut())
                c.decide(pth is None, f"{con}/{n.d['name']}", n.where, f"in asynchronous mode a worker that is still stepping can be addressed: {describe(pth)}")
                for b, idt, lab in ch:
                    p2 = find_path(edge_succ(b, lab), n, skip_start=False)
                    c.decide(p2 is None, f"{con}/{n.d['name']}/refuse", b.where, f"a busy environment is noticed but used anyway: {describe(p2)}")
                    src, r = each_src(idt), n.d["recv"]
                    if src is not None and r.k == "sub" and each_src(r.a[1]) is not None:
                        s2 = each_src(r.a[1])
                        part = src.k == "sub" and src.a[0] is s2
                        c.decide(False if part else (True if src is s2 or same_skey(src, s2) else None), f"{con}/{n.d['name']}/ids", b.where,
                                 f"the busy check looks at {show(src)} but {show(s2)} is addressed")
        fl = c.flow("render", k)
        for n in worker_calls(fl):
            okc = lambda t: (t.k == "cmp" and "waiting_id" in skey(t)) or t is A("waiting_id")
            pth = find_path(fl.entry_node, n, [b for b in nodes(fl, "branch") if okc(canon_cond(b.d["cond"])[0])], edge_ok=async_cut())
            c.decide(pth is None, f"{k.name}.render", n.where, f"rendering may address a stepping environment: {describe(pth)}")


@rule("E02")
def every_sent_action_is_tracked(c):
    """Asynchronous step: each sent action is recorded with its worker and id, its id leaves the ready list, and the action goes to its own worker."""
    for k in venv_classes(c.p):
        fl = c.flow("step", k)
        con = f"{k.name}.step"
        sends = [n for n in worker_calls(fl) if n.d["name"] == "send" and not any(g is A("is_async") and not pol for g, pol in guards(fl, n))]
        waits = [n for n in worker_calls(fl) if n.d["name"] == "wait"]
        if not waits:
            raise AnalysisBroken("asynchronous wait not found")
        c.decide(bool(sends), con + "/send", fl.entry.where, "asynchronous step sends nothing")
        for n in sends:
            r = n.d["recv"]
            wid = r.a[1] if r.k == "sub" else None
            act = n.d["args"][0] if n.d["args"] else None
            # the action of the same loop turn
            if wid is not None and wid.k == "elem":
                lid = wid.a[1]
                if act is not None and act.k == "elem":
                    c.decide(act.a[1] == lid and each_src(act) is P("action"), con + "/action", n.where, f"environment {show(wid)} is sent {show(act)}")
                elif act is not None and act.k == "sub" and act.a[0] is P("action"):
                    i = act.a[1]
                    c.decide(i.k == "idx" and i.a[1] == lid, con + "/action", n.where, f"environment {show(wid)} is sent {show(act)}")
                else:
                    c.und(con + "/action", show(act) if act else "none")
            lp = loop_of(fl, wid) if wid is not None else None
            goal = ([lp] if lp else []) + [fl.exit_node]
            for lst, val in (("waiting_conn", r), ("waiting_id", wid)):
                ap = [m for m in calls(fl, "append", "insert", "extend") if m.d["recv"] is A(lst) and m.d["args"] and (m.d["args"][-1] is val or m.d["args"][-1].k == "list")]
                wrong = [m for m in calls(fl, "append") if m.d["recv"] is A(lst) and m.d["args"] and m.d["args"][0] is not val]
                pth = find_path(n, goal, ap) if lp is None or not ap or find_path(ap[0], n, [lp]) is None else None
                ext = [m for m in nodes(fl) if (m.kind == "setattr" and m.d["attr"] == lst) or (m.kind == "call" and m.d["name"] == "extend" and m.d["recv"] is A(lst))]
                if ext and not ap:
                    c.und(f"{con}/{lst}", "tracked in another form")
                    continue
                c.decide(bool(ap) and pth is None, f"{con}/{lst}", n.where, f"an action is sent but {lst} does not record it"
                         + (f" (it records {show(wrong[0].d['args'][0])})" if wrong else f": {describe(pth)}"))
        # ready list shrinks before waiting
        rd = [n for n in nodes(fl) if (n.kind == "setattr" and n.d["base"] is SELF and n.d["attr"] == "ready_id") or
              (n.kind == "call" and n.d["recv"] is A("ready_id") and n.d["name"] in ("remove", "pop"))]
        for n in sends:
            for w in waits:
                pth = find_path(n, w, rd)
                c.decide(pth is None, con + "/ready", n.where, f"a running environment stays on the ready list: {describe(pth)}")
        for n in rd:
            if n.kind == "setattr" and n.d["value"].k == "comp":
                cond = n.d["value"].a[2] if len(n.d["value"].a) > 2 else None
                t = n.d["value"]
                # filter polarity: elements *in* id must be dropped
                elt = t.a[1]
                br = [b for b in nodes(fl, "branch") if canon_cond(b.d["cond"])[0].k == "cmp" and canon_cond(b.d["cond"])[0].a[0] == "in" and canon_cond(b.d["cond"])[0].a[1] is elt]
                fl_conds = [x for x in subterms(t) if x.k == "cmp" and x.a[0] in ("in", "not in")]
                for x in fl_conds:
                    neg = x.a[0] == "not in" or any(y.k == "un" and y.a[0] == "not" and y.a[1] is x for y in subterms(t))
                    c.decide(neg, con + "/ready/filter", n.where, f"the ready list keeps {show(t)}")


@rule("E02")
def every_answer_is_accounted(c):
    """Asynchronous step: each answered worker is taken off the busy lists at the same position, its id becomes ready and labels its own result."""
    for k in venv_classes(c.p):
        fl = c.flow("step", k)
        con = f"{k.name}.step"
        rec = [n for n in calls(fl, "recv") if not worker_term(n.d["recv"]) and n.d["recv"] is not None]
        if not rec:
            rec = [n for n in calls(fl, "recv") if not any(g is A("is_async") and not pol for g, pol in guards(fl, n))]
        for n in rec:
            w = n.d["recv"]
            lp = loop_of(fl, w)
            goal = ([lp] if lp else []) + [fl.exit_node]
            start = edge_succ(lp, "next") if lp else [fl.entry_node]
            if each_src(w) is not None:
                waitc = [x for x in calls(fl, "wait") if x.d["recv"] is A("worker_class")]
                srcs = values(fl, each_src(w))
                c.decide(any(x.d["term"] in srcs for x in waitc) or None, con + "/answered", n.where, f"results are read from {show(each_src(w))}, not from the answered workers")
            pops = {}
            for lst in ("waiting_conn", "waiting_id"):
                ps = [m for m in nodes(fl) if (m.kind == "call" and m.d["recv"] is A(lst) and m.d["name"] in ("pop", "remove")) or (m.kind == "delsub" and m.d["base"] is A(lst))]
                pth = find_path(start, goal, ps, skip_start=False)
                c.decide(bool(ps) and pth is None, f"{con}/{lst} cleared", n.where, f"an answered environment stays in {lst}: {describe(pth)}")
                pops[lst] = ps
            at = lambda m: m.d["args"][0] if m.d["args"] else const(-1)
            ix = [at(m) for m in pops["waiting_id"] if m.kind == "call" and m.d["name"] == "pop"]
            jx = [at(m) for m in pops["waiting_conn"] if m.kind == "call" and m.d["name"] == "pop"]
            if ix and jx:
                same = ix[0] is jx[0] or skey(ix[0]) == skey(jx[0])
                c.decide(same, con + "/same position", pops["waiting_id"][0].where, f"busy worker and id are removed at different positions: {show(jx[0])} and {show(ix[0])}")
                if is_call(ix[0], "index"):
                    src = ix[0].a[0].a[0] if ix[0].a[0].k == "attr" else None
                    if src is not None:
                        c.decide(src in (A("waiting_conn"), A("waiting_id")) or (False if {m.d["term"] for m in calls(fl, "wait")} & set(values(fl, src)) or same_skey(src, each_src(w) or src) else None), con + "/position list", pops["waiting_id"][0].where,
                                 f"the position on the busy lists is looked up in {show(src)[:80]}")
                    c.decide(ix[0].a[1][0] is w, con + "/position", pops["waiting_id"][0].where, f"position looked up for {show(ix[0].a[1][0])}, not the answered worker")
                # position must be computed before the lookup list shrinks
                for m in calls(fl, "index"):
                    if m.d["recv"] is A("waiting_conn"):
                        early = [x for x in pops["waiting_conn"] if find_path(x, m, lp) is not None]
                        c.decide(not early, con + "/position order", m.where, "the position is looked up after the worker was removed")
                popped = [m.d["term"] for m in pops["waiting_id"]]
                rdy = [m for m in calls(fl, "append") if m.d["recv"] is A("ready_id")]
                pth = find_path(start, goal, rdy, skip_start=False)
                c.decide(bool(rdy) and pth is None, con + "/ready again", n.where, f"an answered environment never becomes ready again: {describe(pth)}")
                for m in rdy:
                    v = m.d["args"][0]
                    c.decide(v in popped or None if v in popped or v.k not in ("call", "elem", "const") else False, con + "/ready id", m.where, f"{show(v)} is made ready instead of the answered environment")
                lab = [m for m in setsubs(fl) if m.d["index"] is const("env_id") and n.d["term"] in closure(fl, m.d["base"])]
                pth = find_path(start, goal, lab, skip_start=False)
                c.decide(bool(lab) and pth is None, con + "/label", n.where, f"a result is not labelled with its environment: {describe(pth)}")
                for m in lab:
                    c.decide(m.d["value"] in popped, con + "/label id", m.where, f"the result is labelled {show(m.d['value'])}")
            res = [m for m in calls(fl, "append") if m.d["args"] and m.d["args"][0] is n.d["term"]]
            pth = find_path(n, goal, res)
            c.decide(bool(res) and pth is None or (None if not res else False), con + "/returned", n.where, f"an answer is read but not returned: {describe(pth)}")
        for n in calls(fl, "wait"):
            if n.d["recv"] is not A("worker_class"):
                continue
            want = (A("waiting_conn"), A("wait_num"), A("timeout"))
            got = (arg(n, 0, "workers"), arg(n, 1, "wait_num"), arg(n, 2, "timeout"))
            for w_, g_, nm in zip(want, got, ("running workers", "wait count", "timeout")):
                c.decide(g_ is w_, f"{con}/wait {nm}", n.where, f"wait is given {show(g_) if g_ is not None else 'nothing'} as {nm}")


@rule("E02")
def mode_and_initial_lists(c):
    """Asynchronous mode is on exactly when fewer than all results suffice or a time limit is set; initially all environments are ready."""
    for k in venv_classes(c.p):
        fl = c.flow("__init__", k)
        for n in setattrs(fl, "is_async", base=SELF):
            v = n.d["value"]
            con = f"{k.name}.__init__/is_async"
            if v.k == "boolop":
                has_w = any("wait_num" in skey(x) for x in v.a[1])
                has_t = any("timeout" in skey(x) for x in v.a[1])
                c.decide(v.a[0] == "or" and has_w and has_t, con, n.where, f"asynchronous mode is decided by {show(v)}")
            else:
                c.decide(False if v.k in ("cmp", "const") else None, con, n.where, f"asynchronous mode is decided by {show(v)}")
        n = 0
        for a_ in setattrs(fl, "ready_id", base=SELF):
            n += 1
            c.decide("range" in skey(a_.d["value"]) or None, f"{k.name}.__init__/ready", a_.where, f"initially ready: {show(a_.d['value'])}")
        c.decide(n > 0, f"{k.name}.__init__/ready set", fl.entry.where, "the ready list is never initialised")


@rule("E02")
def wait_returns_answered_workers(c):
    """Each back end's wait returns the workers whose answers arrived, stops waiting only when enough arrived or time is up, and never waits for more than are running."""
    for w in workers_of(c.p):
        fl = c.flow("wait", w)
        con = f"{w.name}.wait"
        ws, num, to = P("workers"), P("wait_num"), P("timeout")
        for v in values(fl, fl.ret_value):
            if v is ws:
                c.ok(con + "/all")
                continue
            if v.k == "comp":
                e = v.a[1]
                if e.k == "sub" and e.a[0] is ws and is_call(e.a[1], "index"):
                    lst = e.a[1].a[0].a[0]
                    x = e.a[1].a[1][0]
                    ok = lst.k == "comp" and each_src(root_elem(lst.a[1])) is ws and comp_filter(fl, lst) in (None, [])
                    short = lst.k == "loopphi" and any(x.k == "comp" and comp_filter(fl, x) for x in fl.loops.get(lst, ()))
                    c.decide(False if short else (ok or None), con + "/mapping", fl.entry.where, f"answers are mapped back through {show(lst)}")
                    c.decide(x.k == "elem" or None, con + "/answered", fl.entry.where, f"{show(v)}")
                else:
                    c.und(con + "/mapping", show(v))
            else:
                c.decide(False if v.k == "sub" and v.a[0] is ws else None, con + "/mapping", fl.entry.where, f"wait returns {show(v)}")
        for n in calls(fl, "wait"):
            q = n.d["quals"] or [dotted(n.d["fn"])]
            if any("ray" in str(x) for x in q):
                nr = n.d["kw"].get("num_returns")
                bounded = nr is not None and is_call(nr, "min") and num in nr.a[1] and any(is_call(x, "len") for x in nr.a[1])
                c.decide(bounded, con + "/bounded", n.where, f"waits for {show(nr) if nr is not None else 'the default number of'} answers although fewer environments may be running")
                c.decide(n.d["kw"].get("timeout") is to, con + "/timeout", n.where, f"waits with time limit {show(n.d['kw'].get('timeout', NONE))}")
            else:
                rem = n.d["args"][0]
                t = n.d["kw"].get("timeout") or (n.d["args"][1] if len(n.d["args"]) > 1 else None)
                c.decide(t is not None and to in closure(fl, t), con + "/timeout", n.where, f"waits with time limit {show(t) if t is not None else 'none'}: the configured timeout has no effect")
                # loop goes on while too few answered
                enough = [b for b in nodes(fl, "branch") if canon_cond(b.d["cond"])[0].k == "cmp" and num in canon_cond(b.d["cond"])[0].a]
                c.decide(bool(enough), con + "/enough", n.where, "waiting does not depend on the requested number of answers")
                for b in enough:
                    cn, pol = canon_cond(b.d["cond"])
                    # cn: len(ready) < wait_num  (canonical '<' / '==' )
                    if cn.a[0] == "<" and is_call(cn.a[1], "len") and cn.a[2] is num:
                        go = "T" if pol else "F"
                        r1 = find_path(edge_succ(b, go), n, skip_start=False) is not None
                        r2 = find_path(edge_succ(b, "F" if go == "T" else "T"), n, skip_start=False) is None
                        c.decide(r1 and r2, con + "/count", b.where, f"waiting {'stops too early' if not r1 else 'goes on although enough answered'}")
                    elif cn.a[0] == "<" and cn.a[1] is num and is_call(cn.a[2], "len"):
                        # wait_num < len: goes on while wait_num >= len -> one too many
                        stop = "T" if pol else "F"
                        r = find_path(edge_succ(b, stop), n, skip_start=False)
                        c.bad(con + "/count", b.where, "waits for one answer more than requested" if r is None else "waits for the wrong number of answers")
                    else:
                        c.und(con + "/count", show(cn))
                # answered connections are not waited for again
                upd = fl.loops.get(rem, ()) if rem.k == "loopphi" else ()
                fresh = any(any(t_.k == "comp" for t_ in subterms(x)) or is_call(x, "difference") for x in upd) or any(
                    m.d["name"] in ("remove",) and root(m.d["recv"]) for m in calls(fl, "remove"))
                c.decide(fresh or None, con + "/remaining", n.where, "answered workers stay in the waiting set")
                got = [m for m in calls(fl, "extend", "append", "update", "add") if n.d["term"] in closure(fl, *m.d["args"])] + [m for m in nodes(fl, "aug") if n.d["term"] in closure(fl, m.d["rhs"])]
                pth = find_path(n, [fl.exit_node, n], got)
                c.decide(pth is None or (None if not got else False), con + "/collected", n.where, f"answers that arrived are not returned: {describe(pth)}")


def root_elem(t):
    while t.k in ("attr", "sub", "item"):
        t = t.a[0]
    return t


# ------------------------------------------------------------------------------- E03
def child_flow(c):
    return c.flow("tianshou.env.worker.subproc._worker")


def child_commands(fl):
    """{command: (branch node, label of the equal side)}; the command word is component 0 of what the pipe delivered."""
    out = {}
    for b in nodes(fl, "branch"):
        cn, pol = canon_cond(b.d["cond"])
        if cn.k == "cmp" and cn.a[0] == "==":
            for x, y in ((cn.a[1], cn.a[2]), (cn.a[2], cn.a[1])):
                if x.k == "const" and isinstance(x.a[0], str) and y.k in ("item", "sub") and is_call(y.a[0], "recv"):
                    out[x.a[0]] = (b, "T" if pol else "F", y)
        elif cn.k == "cmp" and cn.a[0] == "in" and cn.a[2].k in ("tuple", "list", "set") and cn.a[1].k in ("item", "sub") and is_call(cn.a[1].a[0], "recv"):
            for x in cn.a[2].a[0]:
                if x.k == "const" and x.a[0] not in out:
                    out[x.a[0]] = (b, "T" if pol else "F", cn.a[1])
    return out


def parent_requests(c, w):
    """{command: [(method, flow, send node, payload)]}."""
    out = {}
    for name in sorted({n for k in w.mro_classes() for n in k.methods}):
        f = w.find(name)
        if f is None or f.is_abstract or f.is_static or f.is_property:
            continue
        if inner_step(w, name):
            continue  # judged where it is called
        fl = c.flow(f, w)
        for n in calls(fl, "send"):
            if n.d["recv"] is A("parent_remote") and n.d["args"] and n.d["args"][0].k in ("list", "tuple") and n.d["args"][0].a[0] and n.d["args"][0].a[0][0].k == "const":
                if f.qual.rsplit(".", 1)[0].endswith("EnvWorker") and name not in ("__init__",):
                    out.setdefault(n.d["args"][0].a[0][0].a[0], []).append((name, fl, n, n.d["args"][0].a[0][1] if len(n.d["args"][0].a[0]) > 1 else None))
    return out


@rule("E03")
def requests_are_understood(c):
    """Every request word the parent sends is handled by the child process, unknown ones raise."""
    w = c.p.cls("SubprocEnvWorker")
    fl = child_flow(c)
    cmds, reqs = child_commands(fl), parent_requests(c, w)
    if len(reqs) < 3:
        raise AnalysisBroken("parent requests not found")
    for r, uses in reqs.items():
        c.decide(r in cmds, f"request {r}", uses[0][2].where, f"the parent sends {r!r} but the child does not handle it")
    rec = [n for n in calls(fl, "recv")]
    # path where no command matches must raise
    known = {b.id: lab for b, lab, _ in cmds.values()}
    ok = lambda n, m, l: not (n.id in known and l == known[n.id])
    for n in rec:
        pth = find_path(n, [n, fl.exit_node], nodes(fl, "raise"), edge_ok=ok)
        c.decide(pth is None, "unknown request", n.where, f"an unknown request is silently ignored: {describe(pth)}")


@rule("E03")
def answers_match_expectation(c):
    """For each request the child sends exactly as many answers as the parent waits for."""
    w = c.p.cls("SubprocEnvWorker")
    fl = child_flow(c)
    cmds, reqs = child_commands(fl), parent_requests(c, w)
    recs = calls(fl, "recv")
    pipe = recs[0].d["recv"] if recs else None
    sends = [n for n in calls(fl, "send") if n.d["recv"] is pipe]
    for cmd, (b, lab, word) in sorted(cmds.items()):
        st = edge_succ(b, lab)
        ends = recs + [fl.exit_node]
        others = lambda n, m, l: True
        zero = find_path(st, ends, sends, skip_start=False)
        one = find_path(st, sends, recs, skip_start=False)
        two = None
        for s in sends:
            if find_path(st, s, recs, skip_start=False):
                two = two or find_path(s, sends, recs)
        child = {0} if one is None else ({0, 1} if zero is not None else {1})
        c.decide(two is None, f"{cmd}/answers once", b.where, f"request {cmd!r} can be answered twice: {describe(two)}")
        if len(child) == 2:
            c.bad(f"{cmd}/answers always", b.where, f"request {cmd!r} is not answered on the path {describe(zero)}")
        for name, pf, n, payload in reqs.get(cmd, ()):
            rv = [m for m in calls(pf, "recv") if m.d["recv"] is A("parent_remote")]
            if name == "send":
                c.decide(1 in child, f"{cmd}/{name}", n.where, f"{name} expects an answer to {cmd!r} later, the child sends none")
                continue
            waits = after_all(pf, n, rv) is None and bool(rv)
            never = find_path(n, rv) is None
            if waits:
                c.decide(1 in child, f"{cmd}/{name}", n.where, f"{name} waits for an answer to {cmd!r} that the child never sends")
            elif never:
                c.decide(0 in child, f"{cmd}/{name}", n.where, f"the child answers {cmd!r} but {name} never reads the answer: the next request gets it")
            else:
                c.bad(f"{cmd}/{name}", n.where, f"{name} reads the answer to {cmd!r} only on some paths: {describe(after_all(pf, n, rv))}")


@rule("E03")
def payloads_agree(c):
    """The data sent with a request has the form the child unpacks, and is applied to the environment; answers carry the environment's result."""
    w = c.p.cls("SubprocEnvWorker")
    fl = child_flow(c)
    cmds, reqs = child_commands(fl), parent_requests(c, w)
    recs = calls(fl, "recv")
    env = None
    for n in nodes(fl, "call"):
        if n.d["name"] == "data" or (n.d["fn"].k == "attr" and n.d["fn"].a[1] == "data"):
            env = n.d["term"]
    pipe = recs[0].d["recv"]
    sends = [n for n in calls(fl, "send") if n.d["recv"] is pipe]
    if env is None:
        c.und("environment", "construction in the child not recognised")
        return
    expect = {"step": "step", "reset": "reset", "render": "render", "close": "close", "getattr": "getattr", "setattr": "setattr", "seed": ("seed", "reset")}
    for cmd, ops in expect.items():
        if cmd not in cmds:
            continue
        b, lab, word = cmds[cmd]
        data = Term("item", word.a[0], 1) if word.k == "item" else None
        ops = (ops,) if isinstance(ops, str) else ops
        st = edge_succ(b, lab)
        does = [n for n in nodes(fl, "call") if n.d["name"] in ops and (n.d["recv"] is env or (n.d["args"] and (n.d["args"][0] is env or n.d["args"][0] is Term("attr", env, "unwrapped"))))]
        reach = [n for n in does if find_path(st, n, recs, skip_start=False)]
        has = lambda t: is_call(t, "hasattr") and len(t.a[1]) > 1 and (t.a[1][1].k == "const" and t.a[1][1].a[0] == "render" or cmd == "getattr")
        pth = find_path(st, recs + [fl.exit_node], reach, skip_start=False, edge_ok=cut(has, True))
        c.decide(bool(reach) and pth is None, f"{cmd}/performed", b.where, f"request {cmd!r} is not carried out on the path {describe(pth)}")
        for n in reach:
            if data is None or cmd == "close":
                continue
            given = [x for x in list(n.d["args"]) + [v for _, v in n.d["kwt"]]]
            uses = any(data in closure(fl, x) for x in given)
            c.decide(uses, f"{cmd}/data", n.where, f"{show(n.d['term'])} ignores the data sent with {cmd!r}")
        # payload shape
        for name, pf, n, payload in reqs.get(cmd, ()):
            pars = set(pf.entry.params()[1:]) | set(pf.entry.all_params()[1:])
            if cmd == "setattr" and payload is not None and payload.k == "dict":
                keys = {k_.a[0]: v for k_, v in payload.a[0] if k_ is not None and k_.k == "const"}
                used = {t.a[1].a[0] for x in reach for y in x.d["args"] for t in subterms(y) if t.k == "sub" and t.a[0] is data and t.a[1].k == "const"}
                c.decide(used <= set(keys), f"{cmd}/keys", n.where, f"the child reads {sorted(used)} from {sorted(keys)}")
                for kk in ("key", "value"):
                    if kk in keys:
                        c.decide(keys[kk] is P(kk), f"{cmd}/{kk}", n.where, f"{kk} is sent as {show(keys[kk])}")
                for x in reach:
                    if len(x.d["args"]) == 3 and all(y.k == "sub" and y.a[1].k == "const" for y in x.d["args"][1:]):
                        c.decide([y.a[1].a[0] for y in x.d["args"][1:]] == ["key", "value"], f"{cmd}/order", x.where, f"sets {show(x.d['args'][1])} to {show(x.d['args'][2])}")
            elif cmd == "getattr":
                c.decide(payload is P("key"), f"{cmd}/payload", n.where, f"asks for {show(payload) if payload else 'nothing'}")
            elif cmd == "step":
                c.decide(payload is P("action"), f"{cmd}/payload", n.where, f"sends {show(payload) if payload else 'nothing'} as action")
            elif cmd in ("reset", "render"):
                if name not in (cmd, "send"):
                    continue
                c.decide(payload is P("kwargs"), f"{cmd}/payload/{name}", n.where, f"sends {show(payload) if payload else 'nothing'} as options")
            elif cmd == "seed":
                c.decide(payload is P("seed"), f"{cmd}/payload", n.where, f"sends {show(payload) if payload else 'nothing'} as seed")
        # answer content
        ans = [s for s in sends if find_path(st, s, recs, skip_start=False)]
        for s in ans:
            v = s.d["args"][0]
            if cmd in ("step", "reset"):
                for x in values(fl, v):
                    if x.k == "tuple":
                        for i, y in enumerate(x.a[0]):
                            if y.k == "star":
                                y0 = y.a[0]
                                okk = y0.k == "sub" and y0.a[1].k == "slice" and y0.a[1].a[0] is const(i) and y0.a[1].a[1] is NONE
                                c.decide(okk, f"{cmd}/answer rest", s.where, f"the answer carries {show(y0)}")
                                continue
                            for z in values(fl, y):
                                if z is NONE and i == 0:
                                    continue
                                ok = (z.k == "item" and z.a[1] == i) or (z.k == "sub" and z.a[1] is const(i))
                                c.decide(ok or (None if z.k not in ("item", "sub", "const") else False), f"{cmd}/answer {i}", s.where, f"component {i} of the answer is {show(z)}")
                    elif any(n.d["term"] is x for n in reach):
                        c.ok(f"{cmd}/answer")
                    else:
                        c.und(f"{cmd}/answer", show(x))
            elif cmd in ("getattr", "render", "close"):
                c.decide(any(n.d["term"] in closure(fl, v) for n in reach), f"{cmd}/answer", s.where, f"the answer to {cmd!r} is {show(v)}")


@rule("E03")
def process_ends(c):
    """The child closes its pipe and leaves its loop when told to close or when the parent is gone; parent and child drop each other's pipe ends."""
    fl = child_flow(c)
    cmds = child_commands(fl)
    recs = calls(fl, "recv")
    pipe = recs[0].d["recv"]
    cl = [n for n in calls(fl, "close") if n.d["recv"] is pipe]
    b, lab, _ = cmds.get("close", (None, None, None))
    if b is None:
        raise AnalysisBroken("close request not handled")
    st = edge_succ(b, lab)
    c.decide(find_path(st, recs, skip_start=False) is None, "close/leave", b.where, "the process keeps running after it was closed")
    pth = find_path(st, fl.exit_node, cl, skip_start=False)
    c.decide(pth is None, "close/pipe", b.where, f"the process leaves without closing its pipe: {describe(pth)}")
    hs = [n for n in nodes(fl, "handler")]
    for n in recs:
        eof = find_path(n, fl.exit_node, exc=True, edge_ok=lambda a, m, l: not (a is n and l != "exc"))
        c.decide(eof is not None, "parent gone/leave", n.where, "a vanished parent makes the process fail instead of end")
        back = find_path(n, n, exc=True, edge_ok=lambda a, m, l: not (a is n and l != "exc"))
        c.decide(back is None, "parent gone/loop", n.where, f"the process spins when the parent is gone: {describe(back)}")
    par = P(fl.entry.params()[0])
    pc = [n for n in calls(fl, "close") if n.d["recv"] is par]
    for n in recs:
        pth = find_path(fl.entry_node, n, pc)
        c.decide(bool(pc) and pth is None, "drop parent end", n.where, "the child keeps the parent's pipe end open, so it can never notice a vanished parent")
    w = c.p.cls("SubprocEnvWorker")
    fi = c.flow("__init__", w)
    cc = [n for n in calls(fi, "close") if mentions(fi, n.d["recv"], attr_named("child_remote")) or n.d["recv"] in [x.d["value"] for x in setattrs(fi, "child_remote")]]
    pth = find_path(fi.entry_node, fi.exit_node, cc)
    c.decide(bool(cc) and pth is None, "drop child end", fi.entry.where, "the parent keeps the child's pipe end open, so it never notices a dead child")
    stn = calls(fi, "start")
    for n in cc:
        c.decide(any(find_path(s, n) is not None for s in stn) or None, "drop child end/order", n.where, "the child's pipe end is closed before the process is started")
    # process arguments in the order of the entry function's parameters
    pr = calls(fi, "Process")
    for n in pr:
        a_ = n.d["kw"].get("args")
        if a_ is not None and a_.k == "tuple" and len(a_.a[0]) >= 3:
            sa = {x.d["attr"]: x.d["value"] for x in setattrs(fi, "parent_remote", "child_remote", base=SELF)}
            got0, got1 = a_.a[0][0], a_.a[0][1]
            def is_end(t, nm, i):
                good = {A(nm)} | set(values(fi, sa[nm])) if nm in sa else {A(nm)}
                return all(v in good or (v.k == "item" and v.a[1] == i and is_call(v.a[0], "Pipe")) for v in values(fi, t))
            ok0, ok1 = is_end(got0, "parent_remote", 0), is_end(got1, "child_remote", 1)
            c.decide(ok0 and ok1, "process arguments", n.where, f"the process gets {show(got0)} and {show(got1)} as parent and child pipe ends")
            if len(a_.a[0]) > 3:
                bufs = [x.d["value"] for x in setattrs(fi, "buffer", base=SELF)] + [A("buffer")]
                ok = any(v in bufs or v is a_.a[0][3] for v in values(fi, a_.a[0][3])) and all(v in [y for x in bufs for y in values(fi, x)] for v in values(fi, a_.a[0][3]))
                c.decide(ok or None, "process arguments/buffer", n.where, f"the process writes observations to {show(a_.a[0][3])}")


# ------------------------------------------------------------------------------- E04
@rule("E04")
def each_environment_its_own_seed(c):
    """seed(): every worker is seeded with its own entry of the seed list; an integer becomes consecutive seeds."""
    for k in venv_classes(c.p):
        fl = c.flow("seed", k)
        con = f"{k.name}.seed"
        sc = [n for n in calls(fl, "seed") if worker_term(n.d["recv"])]
        c.decide(bool(sc), con, fl.entry.where, "seed() seeds no worker")
        for n in sc:
            r, s = n.d["recv"], arg(n, 0, "seed")
            if s is None:
                c.bad(con + "/own", n.where, "workers are seeded without the seed")
                continue
            lid = r.a[1] if r.k == "elem" else (r.a[1].a[1] if r.a[1].k in ("idx", "elem") else None)
            src = None
            if s.k == "elem":
                c.decide(s.a[1] == lid, con + "/own", n.where, f"worker {show(r)} gets {show(s)}")
                src = s.a[0]
            elif s.k == "sub" and s.a[1].k in ("idx", "elem"):
                c.decide(s.a[1].a[1] == lid, con + "/own", n.where, f"worker {show(r)} gets {show(s)}")
                src = s.a[0]
            else:
                c.decide(False if s is P("seed") else None, con + "/own", n.where, f"every worker gets the same seed {show(s)}")
                continue
            for v in values(fl, src):
                if v.k == "comp":
                    e = v.a[1]
                    if P("seed") not in closure(fl, e):
                        c.bad(con + "/int", n.where, f"an integer seed becomes {show(v)}")
                        continue
                    var = [t for t in subterms(e) if t.k in ("elem", "idx")]
                    pl = poly(e, lambda t: "seed" if t is P("seed") else ("i" if t in var else None))
                    if var:
                        c.decide(pl == Poly.x("seed") + Poly.x("i"), con + "/int", n.where, f"environment i gets seed {pl} instead of seed + i")
                        srcs = {t.a[0] for t in var}
                        rng = [t for t in srcs if is_call(t, "range")]
                        for t in rng:
                            c.decide(len(t.a[1]) == 1 or t.a[1][0] is const(0), con + "/int/range", n.where, f"indices run over {show(t)}")
                    else:
                        c.bad(con + "/int", n.where, f"all environments get the same seed {show(e)}")
                elif v is P("seed"):
                    c.ok(con + "/list")
                elif is_call(v, "range"):
                    a_ = v.a[1]
                    c.decide(a_[0] is P("seed") and len(a_) == 2, con + "/int", n.where, f"an integer seed becomes {show(v)}")
                elif P("seed") in closure(fl, v):
                    w = v
                    while is_call(w, "list", "tuple", "asarray", "array", "cast", "copy") and w.a[1]:
                        w = w.a[1][-1]
                    bad = [t for t in subterms(v) if is_call(t, *REORDERS) or (t.k == "sub" and t.a[1].k == "slice")]
                    if w is P("seed"):
                        c.ok(con + "/list")
                    elif bad:
                        c.bad(con + "/list", n.where, f"the seeds given are used as {show(v)[:120]}, not one by one")
                    elif not (v.k in ("bin", "ibin") and v.a[0] == "*"):
                        c.und(con + "/list", f"seeds used as {show(v)[:120]}")
            lp = loop_of(fl, r if r.k == "elem" else r.a[1])
            if lp is not None:
                skip = find_path(edge_succ(lp, "next"), lp, n, skip_start=False)
                c.decide(skip is None, con + "/each", n.where, f"a worker may stay unseeded: {describe(skip)}")


@rule("E04")
def worker_seeds_environment_and_space(c):
    """Each back end seeds both its environment and the environment's action space, and hands a reset seed on."""
    for w in workers_of(c.p):
        fl = c.flow("seed", w)
        con = f"{w.name}.seed"
        sp = [n for n in calls(fl, "seed") if n.d["recv"] is A("action_space") and arg(n, 0, "seed") is P("seed")]
        pth = find_path(fl.entry_node, fl.exit_node, sp)
        c.decide(bool(sp) and pth is None, con + "/space", fl.entry.where, f"the action space is not seeded: {describe(pth)}")

        def env_seed(n):
            if n.kind != "call":
                return False
            given = list(n.d["args"]) + [v for _, v in n.d["kwt"]]
            if not any(P("seed") in closure(fl, x) for x in given):
                return False
            f = skey(n.d["fn"])
            if n.d["name"] in ("seed", "reset") and n.d["recv"] is A("env"):
                return True
            if n.d["name"] == "remote" and ("self.env.seed" == f[:-7] or "self.env.reset" == f[:-7]):
                return True
            return n.d["name"] == "send" and n.d["recv"] is A("parent_remote") and "seed" in skey(n.d["args"][0])
        es = [n for n in nodes(fl, "call") if env_seed(n)]
        pth = find_path(fl.entry_node, fl.exit_node, es)
        c.decide(bool(es) and pth is None, con + "/environment", fl.entry.where, f"the environment itself is not seeded: {describe(pth)}")
        for m in ("reset", "send"):
            fl = c.flow(m, w)
            kw = P("kwargs")

            def passes(n):
                if n.kind != "call":
                    return False
                star = any(v is kw for k_, v in n.d["kwt"]) or any(kw in closure(fl, x) for x in n.d["args"])
                return star and (n.d["name"] in ("reset",) and n.d["recv"] is A("env") or n.d["name"] == "remote" and "reset" in skey(n.d["fn"]) or n.d["name"] == "send")
            rs = [n for n in nodes(fl, "call") if passes(n)]
            e = cut(lambda t: t.k == "cmp" and t.a[0] == "is" and P("action") in t.a and NONE in t.a, True) if m == "send" else None
            pth = find_path(fl.entry_node, fl.exit_node, rs, edge_ok=e)
            c.decide(bool(rs) and pth is None, f"{w.name}.{m}/options", fl.entry.where, f"reset options (seed) do not reach the environment: {describe(pth)}")
            sp = [n for n in calls(fl, "seed") if n.d["recv"] is A("action_space")]
            has = cut(lambda t: t.k == "cmp" and t.a[0] == "in" and t.a[1] is const("seed"), True)
            pth = find_path(fl.entry_node, fl.exit_node, sp, edge_ok=both(has, e))
            c.decide(bool(sp) and pth is None, f"{w.name}.{m}/space", fl.entry.where, f"resetting with a seed leaves the action space unseeded: {describe(pth)}")
            for n in sp:
                v = arg(n, 0, "seed")
                c.decide(v is not None and "seed" in skey(v), f"{w.name}.{m}/space seed", n.where, f"the action space is seeded with {show(v) if v else 'nothing'}")
    # child side: the environment's own space
    fl = child_flow(c)
    cmds = child_commands(fl)
    if "seed" in cmds:
        b, lab, word = cmds["seed"]
        recs = calls(fl, "recv")
        sp = [n for n in calls(fl, "seed") if n.d["recv"] is not None and n.d["recv"].k == "attr" and n.d["recv"].a[1] == "action_space"]
        es = [n for n in calls(fl, "seed") if n not in sp]
        pth = find_path(edge_succ(b, lab), recs, sp + es, skip_start=False)
        c.decide(bool(sp) and pth is None, "child seed/space", b.where, f"the remote action space is not seeded: {describe(pth)}")
        rs = [n for n in calls(fl, "reset", "seed") if n not in sp and find_path(edge_succ(b, lab), n, recs, skip_start=False)]
        pth = find_path(edge_succ(b, lab), recs, rs, skip_start=False)
        c.decide(bool(rs) and pth is None, "child seed/environment", b.where, f"the remote environment is not seeded: {describe(pth)}")
    ray = c.p.cls("RayEnvWorker")
    fl = c.flow("seed", ray)
    rem = [n for n in calls(fl, "remote") if "action_space" in skey(n.d["fn"]) or n.d["name"] == "remote" and "seed_action" in skey(n.d["fn"])]
    pth = find_path(fl.entry_node, fl.exit_node, rem)
    c.decide(bool(rem) and pth is None, "RayEnvWorker.seed/remote space", fl.entry.where, f"the remote environment's action space is not seeded: {describe(pth)}")
    for k in venv_classes(c.p):
        fl = c.flow("reset", k)
        for n in worker_calls(fl):
            if n.d["name"] in ("send", "reset"):
                ok = any(k_ == "**" and v is P("kwargs") for k_, v in n.d["kwt"]) or any(v is P("kwargs") for _, v in n.d["kwt"])
                c.decide(ok, f"{k.name}.reset/options", n.where, "reset options are not handed to the workers")


# ------------------------------------------------------------------------------- E05
@rule("E05")
def returned_observation_is_a_copy(c):
    """What the shared block hands out shares no memory with it; what is saved fills the whole block."""
    k = c.p.cls("ShArray")
    fl = c.flow("get", k)
    al = Alias(fl, [A("arr")])
    from .. import alias as _al
    for v in values(fl, fl.ret_value):
        hit = shm_alias(v)
        c.decide(not hit, "get", fl.entry.where, f"the returned observation {show(v)} is a live view of the shared block: it changes when the environment steps on")
        c.decide("arr" in skey(v), "get/source", fl.entry.where, f"{show(v)} is not read from the shared block")
        c.decide("dtype" in skey(v) and "shape" in skey(v), "get/type", fl.entry.where, f"{show(v)} ignores the stored dtype or shape")
    fl = c.flow("save", k)
    w = [n for n in nodes(fl) if (n.kind == "call" and dotted(n.d["fn"]) == "numpy.copyto" and shm_alias(n.d["args"][0])) or (n.kind == "setsub" and shm_alias(n.d["base"]))]
    pth = find_path(fl.entry_node, fl.exit_node, w)
    c.decide(bool(w) and pth is None, "save", fl.entry.where, f"the observation is not written to the shared block: {describe(pth)}")
    for n in w:
        src = n.d["args"][1] if n.kind == "call" else n.d["value"]
        c.decide(P(fl.entry.params()[1]) in closure(fl, src), "save/value", n.where, f"{show(src)} is written")
        if n.kind == "call" and len(n.d["args"]) + len(n.d["kwt"]) > 2:
            c.bad("save/whole", n.where, "only part of the observation is written")
        if n.kind == "setsub" and not (n.d["index"].k == "slice" and all(x is NONE for x in n.d["index"].a) or n.d["index"] is Term("global", "Ellipsis")):
            c.bad("save/whole", n.where, f"only {show(n.d['index'])} is written")
    # element types
    mod = c.p.cls("ShArray").module
    import ast as _ast
    tab = None
    for s in mod.tree.body:
        if isinstance(s, _ast.Assign | _ast.AnnAssign) and isinstance(s.value, _ast.Dict):
            ks = [getattr(x, "attr", None) for x in s.value.keys]
            if "float32" in ks:
                tab = s
    if tab is None:
        raise AnalysisBroken("type table vanished")
    for kx, vx in zip(tab.value.keys, tab.value.values):
        a_, b_ = getattr(kx, "attr", ""), getattr(vx, "attr", "")
        want = {"bool_": "c_bool", "float32": "c_float", "float64": "c_double"}.get(a_, "c_" + a_)
        c.decide(b_ == want, f"type {a_}", f"{mod.rel}:{kx.lineno}", f"numpy {a_} is stored in shared memory as {b_}, not {want}")


def shm_alias(t):
    """May t be a view of self.arr's memory?"""
    if t is A("arr"):
        return True
    if t.k == "call":
        f = t.a[0]
        if f.k == "global" and f.a[0] in ("numpy.frombuffer", "numpy.asarray", "numpy.ctypeslib.as_array", "numpy.reshape", "numpy.squeeze", "numpy.ravel", "torch.from_numpy", "torch.as_tensor"):
            return bool(t.a[1]) and shm_alias(t.a[1][0])
        if f.k == "attr" and f.a[1] in ("get_obj", "reshape", "view", "squeeze", "ravel", "transpose", "swapaxes"):
            return shm_alias(f.a[0])
        if f.k == "attr" and f.a[1] == "astype":
            return any(n == "copy" and v is FALSE for n, v in t.a[2]) and shm_alias(f.a[0])
        if f.k == "global" and f.a[0] == "numpy.array":
            return any(n == "copy" and v is FALSE for n, v in t.a[2]) and shm_alias(t.a[1][0])
        return False
    if t.k == "phi":
        return any(shm_alias(x) for x in t.a[0])
    if t.k == "sub":
        return t.a[1].k == "slice" and shm_alias(t.a[0])
    return False


@rule("E05")
def leaves_keep_their_names(c):
    """Set-up, writing and reading walk the same structure: dictionary entries by the same key, tuples in order, each leaf in its own block."""
    q = "tianshou.env.worker.subproc._setup_buf"
    fl = c.flow(q)
    sp = P(fl.entry.params()[0])
    rec = [n for n in calls(fl, "_setup_buf")]
    for v in values(fl, fl.ret_value):
        if v.k == "comp" and v.a[0] == "dict":
            kv = v.a[1].a[0]
            inner = [t for t in subterms(kv[1]) if is_call(t, "_setup_buf")]
            c.decide(kv[0].k in ("key", "elem") and bool(inner) and inner[0].a[1][0].k in ("val", "sub") , "setup/dict", fl.entry.where, f"storage of a dictionary space is {show(v)}")
            if inner and inner[0].a[1][0].k == "val" and kv[0].k == "key":
                c.decide(inner[0].a[1][0].a[1] == kv[0].a[1], "setup/dict key", fl.entry.where, f"{show(v)}")
        elif is_call(v, "ShArray"):
            a_ = v.a[1]
            c.decide(len(a_) >= 2 and a_[0] is Term("attr", sp, "dtype") and a_[1] is Term("attr", sp, "shape"), "setup/leaf", fl.entry.where, f"a leaf is stored as {show(v)}")
        elif is_call(v, "tuple") or v.k == "comp":
            t = v.a[1][0] if v.k == "call" else v
            if t.k == "comp":
                c.decide(is_call(t.a[1], "_setup_buf"), "setup/tuple", fl.entry.where, f"{show(v)}")
            elif t.k == "list" and not t.a[0] and fl.mut.get(t):  # appended to in a loop
                c.decide(all(is_call(x, "_setup_buf") for x in fl.mut[t]) or None, "setup/tuple", fl.entry.where, f"{[show(x) for x in fl.mut[t]]}")
            else:
                c.bad("setup/tuple", fl.entry.where, f"the parts of a tuple space share {show(v)}")
        elif v.k in ("bin",) or is_call(v, "fromkeys"):
            c.bad("setup", fl.entry.where, f"several leaves share one block: {show(v)}")
        else:
            c.und("setup", show(v))
    # writing
    w = child_flow(c)
    enc = [f for f in w_closures(c, "_encode_obs")]
    for n in calls(w, "save"):
        gs = guards(w, n)
        c.ok("encode/leaf")
    encs = [n for n in nodes(w, "call") if n.d["fn"].k == "closure" and len(n.d["args"]) == 2 or n.d["name"] == "_encode_obs"]
    for n in encs:
        a_ = n.d["args"]
        if len(a_) != 2:
            c.und("encode", show(n.d["term"]))
            continue
        o, b = a_
        if o.k == "sub" and b.k == "sub" and o.a[1].k in ("elem", "key", "val"):
            c.decide(o.a[1] is b.a[1], "encode/dict", n.where, f"entry {show(o.a[1])} is written into the block of {show(b.a[1])}")
        elif o.k in ("val", "elem") and b.k == "sub" and b.a[1].k == "key":
            c.decide(o.a[1] == b.a[1].a[1], "encode/dict", n.where, f"{show(o)} -> {show(b)}")
        elif o.k == "elem" and b.k == "elem":
            c.decide(o.a[1] == b.a[1], "encode/tuple", n.where, f"{show(o)} is written into {show(b)}")
        elif b is P("obs_bufs"):
            ok = (o.k == "sub" and o.a[1] is const(0)) or (o.k == "item" and o.a[1] == 0)
            c.decide(ok, "encode/observation", n.where, f"{show(o)} is written to the shared block instead of the observation")
        else:
            c.und("encode", show(n.d["term"]))
    # a leaf block is always written, whatever kind the observation is
    isleaf = lambda t: is_call(t, "isinstance") and len(t.a[1]) == 2 and "ShArray" in skey(t.a[1][1])
    saves = calls(w, "save")
    for n in encs:
        if n.d["inlined"] and n.d["args"][1] is P("obs_bufs"):
            rets = [m for m in nodes(w, "ret") if m.d.get("call") is n] or None
            starts = [m for m, l in n.succ if l != "exc"]
            lb = [b for b in reachable(n) if b.kind == "branch" and len(b.stack) == len(n.stack) + 1 and isleaf(canon_cond(b.d["cond"])[0])]
            ends = [m for m in nodes(w) if m.kind == "ret" and len(m.stack) == len(n.stack)] + calls(w, "send")
            pth = find_path(n, ends, saves, edge_ok=cut(isleaf, True))
            c.decide(bool(saves) and pth is None, "encode/leaf written", n.where, f"an observation stored in one block is dropped without notice on the path {describe(pth)}")
    # order: encode before the answer
    snd = calls(w, "send")
    # reading
    k = c.p.cls("SubprocEnvWorker")
    fd = c.flow("_decode_obs", k)
    inner = None
    for v in values(fd, fd.ret_value):
        if v.k == "comp" and v.a[0] == "dict":
            kv = v.a[1].a[0]
            t = [x for x in subterms(kv[1]) if x.k in ("val", "sub")]
            ok = kv[0].k in ("key", "elem") and bool(t) and (t[0].k == "val" and t[0].a[1] == kv[0].a[1] or t[0].k == "sub" and t[0].a[1] is kv[0])
            c.decide(ok, "decode/dict", fd.entry.where, f"{show(v)}")
        elif is_call(v, "get"):
            c.decide(v.a[0].a[0] is A("buffer"), "decode/leaf", fd.entry.where, f"{show(v)}")
        elif is_call(v, "tuple") or v.k == "comp":
            t = v.a[1][0] if v.k == "call" else v
            rev = any(is_call(x, "reversed", "sorted") for x in subterms(v))
            c.decide(not rev, "decode/tuple", fd.entry.where, f"{show(v)}")
        else:
            c.und("decode", show(v))


def w_closures(c, name):
    return []


@rule("E05")
def shared_answers_are_decoded(c):
    """With shared memory every reset/step answer gets its observation from the shared block, after the answer has arrived; without it, from the answer."""
    k = c.p.cls("SubprocEnvWorker")
    for m in ("recv", "reset"):
        fl = c.flow(m, k, opaque=("_decode_obs",))
        dec = calls(fl, "_decode_obs")
        rv = [n for n in calls(fl, "recv") if n.d["recv"] is A("parent_remote")]
        shm = cut(lambda t: t is A("share_memory"), True)
        pth = find_path(fl.entry_node, fl.exit_node, dec, edge_ok=shm)
        c.decide(bool(dec) and pth is None, f"{m}/decoded", fl.entry.where, f"with shared memory an answer is returned without its observation: {describe(pth)}")
        nos = cut(lambda t: t is A("share_memory"), False)
        pth = find_path(fl.entry_node, dec, edge_ok=nos)
        c.decide(pth is None, f"{m}/plain", fl.entry.where, f"without shared memory the observation is read from a shared block: {describe(pth)}")
        for n in dec:
            pth = find_path(fl.entry_node, n, rv)
            c.decide(pth is None, f"{m}/order", n.where, f"the shared block is read before the answer arrived: {describe(pth)}")
        for n in nodes(fl, "return"):
            v = n.d["value"]
            if len(n.stack) != 1 or v.k != "tuple":
                continue
            first = values(fl, v.a[0][0])
            c.decide(all(is_call(x, "_decode_obs") or (x.k in ("item", "sub") and (x.a[1] == 0 or x.a[1] is const(0))) for x in first), f"{m}/observation", n.where,
                     f"the returned observation is {show(v.a[0][0])}")
            for i, x in enumerate(v.a[0][1:], 1):
                if x.k == "star":
                    y = x.a[0]
                    ok = y.k == "sub" and y.a[1].k == "slice" and y.a[1].a[0] is const(1) and y.a[1].a[1] is NONE
                    c.decide(ok, f"{m}/rest", n.where, f"the rest of the answer is {show(y)}")
                else:
                    ok = all((y.k == "item" and y.a[1] == i) or (y.k == "sub" and y.a[1] is const(i)) for y in values(fl, x))
                    c.decide(ok or None, f"{m}/component {i}", n.where, f"component {i} is {show(x)}")
    w = child_flow(c)
    cmds = child_commands(w)
    recs, snd, enc = calls(w, "recv"), calls(w, "send"), [n for n in nodes(w, "call") if P("obs_bufs") in n.d["args"] and not is_call(n.d["term"], "isinstance", "type", "len")]
    for cmd in ("step", "reset"):
        if cmd not in cmds:
            continue
        b, lab, _ = cmds[cmd]
        hasb = cut(lambda t: t.k == "cmp" and t.a[0] == "is" and P("obs_bufs") in t.a, False)
        pth = find_path(edge_succ(b, lab), snd, enc, skip_start=False, edge_ok=hasb)
        c.decide(bool(enc) and pth is None, f"child {cmd}/before answer", b.where, f"the answer is sent before the observation is in the shared block: {describe(pth)}")


# ------------------------------------------------------------------------------- E06
@rule("E06")
def wrapper_forwards(c):
    """Every operation of a wrapper calls the same operation of the wrapped environment with its own arguments, exactly once, and returns that result."""
    base = c.p.cls(BASE)
    for k in wrapper_classes(c.p):
        for m in (*OPS, "close"):
            f = k.find(m)
            con = f"{k.name}.{m}"
            if f.cls is base:
                c.bad(con, f.where, f"{m} is not forwarded: it runs on the wrapper's own (missing) workers")
                continue
            fl = c.flow(f, k)
            fw = [n for n in calls(fl, m) if n.d["recv"] is A("venv")]
            pth = find_path(fl.entry_node, fl.exit_node, fw)
            c.decide(bool(fw) and pth is None, con, fl.entry.where, f"{m} does not reach the wrapped environment: {describe(pth)}")
            bp = base.find(m).params()[1:]
            for n in fw:
                again = find_path(n, fw)
                c.decide(again is None, con + "/once", n.where, f"{m} is forwarded twice: {describe(again)}")
                for i, x in enumerate(bp):
                    v = arg(n, i, x)
                    c.decide(v is P(x) or (v is not None and P(x) in closure(fl, v) and None), f"{con}/{x}", n.where, f"{m} is forwarded with {show(v) if v is not None else 'nothing'} as {x}")
                if m in ("reset", "render"):
                    c.decide(any(v is P("kwargs") for _, v in n.d["kwt"]), con + "/options", n.where, "options are not forwarded")
                if m in ("get_env_attr", "seed", "render") or (m in ("reset", "step") and k.name == "VectorEnvWrapper"):
                    c.decide(values(fl, fl.ret_value) == [n.d["term"]], con + "/result", n.where, f"{m} returns {show(fl.ret_value)}")
        fl = c.flow("__len__", k)
        c.decide("self.venv" in skey(fl.ret_value), f"{k.name}.__len__", fl.entry.where, f"length is {show(fl.ret_value)}")
        f = k.find("__getattribute__")
        fl = c.flow(f, k)
        ok = any("self.venv" in skey(v) for v in values(fl, fl.ret_value))
        c.decide(ok, f"{k.name}/reserved attributes", f.where, "space attributes are not taken from the wrapped environment")
        fi = c.flow("__init__", k)
        v = [n for n in setattrs(fi, "is_async", base=SELF)]
        c.decide(any("is_async" in skey(n.d["value"]) for n in v), f"{k.name}/is_async", fi.entry.where, "the wrapper does not take over the asynchronous mode")


@rule("E06")
def normaliser_discipline(c):
    """Statistics are updated once per call, only if enabled and from raw observations; every returned observation is normalised after that; all else is unchanged."""
    k = c.p.cls("VectorEnvNormObs")
    for m, size in (("reset", 2), ("step", 5)):
        fl = c.flow(m, k)
        con = f"{k.name}.{m}"
        fw = [n for n in calls(fl, m) if n.d["recv"] is A("venv")]
        if not fw:
            raise AnalysisBroken("wrapped call not found")
        raw = fw[0].d["term"]
        is_obs = lambda t: (t.k == "item" and t.a[0] is raw and t.a[1] == 0) or (t.k == "sub" and t.a[0] is raw and t.a[1] is const(0))
        up = [n for n in calls(fl, "update") if n.d["recv"] is A("obs_rms")]
        nm = [n for n in calls(fl, "norm") if n.d["recv"] is A("obs_rms")]
        on = both(cut(lambda t: t is A("update_obs_rms"), True), cut(lambda t: t is A("obs_rms"), True))
        off = cut(lambda t: t is A("update_obs_rms"), False)
        pth = find_path(fl.entry_node, fl.exit_node, up, edge_ok=on)
        c.decide(bool(up) and pth is None, con + "/updated", fl.entry.where, f"observations do not enter the statistics: {describe(pth)}")
        pth = find_path(fl.entry_node, up, edge_ok=off)
        c.decide(pth is None, con + "/frozen", fl.entry.where, f"statistics change although updating is switched off: {describe(pth)}")
        for n in up:
            twice = find_path(n, up)
            c.decide(twice is None, con + "/once", n.where, "one observation enters the statistics twice")
            a_ = n.d["args"][0]
            c.decide(is_obs(a_), con + "/raw", n.where, f"statistics are updated with {show(a_)}, not with the raw observation")
            early = [x for x in nm if find_path(x, n) is not None]
            c.decide(not early, con + "/order", n.where, "the observation is normalised before it enters the statistics")
        pth = find_path(fl.entry_node, fl.exit_node, nm, edge_ok=cut(lambda t: t is A("obs_rms"), True))
        c.decide(bool(nm) and pth is None, con + "/normalised", fl.entry.where, f"an observation is returned without normalisation: {describe(pth)}")
        for n in nm:
            c.decide(is_obs(n.d["args"][0]), con + "/norm arg", n.where, f"{show(n.d['args'][0])} is normalised (twice?) instead of the raw observation")
        for v in values(fl, fl.ret_value):
            if v.k != "tuple":
                c.und(con + "/result", show(v))
                continue
            ob = values(fl, v.a[0][0])
            c.decide(any(x in [n.d["term"] for n in nm] for x in ob), con + "/returned", fl.entry.where, f"the returned observation is {show(v.a[0][0])}")
            for i, x in enumerate(v.a[0][1:], 1):
                if x.k == "star":
                    y = x.a[0]
                    c.decide(y.k == "sub" and y.a[0] is raw and y.a[1].k == "slice" and y.a[1].a[0] is const(1) and y.a[1].a[1] is NONE, con + "/rest", fl.entry.where, f"rest is {show(y)}")
                else:
                    ok = (x.k == "item" and x.a[0] is raw and x.a[1] == i) or (x.k == "sub" and x.a[0] is raw and x.a[1] is const(i))
                    c.decide(ok, f"{con}/component {i}", fl.entry.where, f"component {i} of the result is {show(x)}")
        al = Alias(fl, [raw])
        ms = [x for x in al.mutations()]
        c.decide(not ms, con + "/untouched", ms[0][0].where if ms else "", f"the wrapped environment's data is modified: {ms[0][3] if ms else ''}")
    r = c.p.cls("RunningMeanStd")
    for m in ("norm", "update"):
        fl = c.flow(m, r)
        x = P(fl.entry.params()[1])
        ms = Alias(fl, [x]).mutations()
        c.decide(not ms, f"RunningMeanStd.{m}/untouched", ms[0][0].where if ms else "", f"{m} modifies its argument: {ms[0][3] if ms else ''}")
    for m in ("norm",):
        fl = c.flow(m, r)
        w = [n for n in nodes(fl, "setattr") if n.d["base"] is SELF]
        c.decide(not w, "RunningMeanStd.norm/pure", w[0].where if w else "", "normalising changes the statistics")



def alts(t):
    """Leaves of nested joins."""
    if t is None:
        return []
    return [v for x in t.a[0] for v in alts(x)] if t.k == "phi" else [t]


@rule("N03")
@rule("E06")
def normalised_value_formula(c):
    """norm returns (x - mean) / sqrt(var + eps), clipped symmetrically to the configured maximum."""
    r = c.p.cls("RunningMeanStd")
    fl = c.flow("norm", r)
    x = P(fl.entry.params()[1])

    def root_(t):
        """Radicand of a square root, or None."""
        if t.k == "call" and is_call(t, "sqrt") and len(t.a[1]) == 1:
            return t.a[1][0]
        if t.k == "bin" and t.a[0] == "**" and t.a[2].k == "const" and t.a[2].a[0] == 0.5:
            return t.a[1]
        return None

    def atom(t):
        if t is x:
            return "x"
        if t is A("mean"):
            return "m"
        if t is A("var"):
            return "v"
        if t is A("eps"):
            return "e"
        q = root_(t)
        if q is not None:
            return "sqrt(" + ",".join(sorted(map(str, rat(q, atom)[0].m.items()))) + ")"
        return None
    sv = Term("call", Term("global", "numpy.sqrt"), (Term("bin", "+", A("var"), A("eps")),), (), 0)
    s = Poly.x(atom(sv))
    want = (Poly.x("x") - Poly.x("m"), s)
    for v in alts(fl.ret_value):
        core_ = v
        while core_.k == "call" and is_call(core_, "clip", "clamp"):
            own = core_.a[0].k == "attr" and core_.a[0].a[0].k != "global"
            ops = ([core_.a[0].a[0]] if own else []) + list(core_.a[1])
            kw = dict(core_.a[2])
            lo = ops[1] if len(ops) > 1 else kw.get("a_min", kw.get("min"))
            hi = ops[2] if len(ops) > 2 else kw.get("a_max", kw.get("max"))
            ok = lo is not None and hi is A("clip_max") and lo.k == "un" and lo.a[0] == "-" and lo.a[1] is A("clip_max")
            plain = all(b is not None and b.k in ("const", "un", "attr") for b in (lo, hi))
            c.decide(ok or (False if plain else None), "norm/clip", fl.entry.where, f"the value is clipped to [{show(lo) if lo else None}, {show(hi) if hi else None}]")
            core_ = ops[0]
        for w in alts(core_):
            got = rat(w, atom)
            at = got[0].atoms() | got[1].atoms()
            extra = {a for a in at if a not in ("x", "m", "v", "e") and not str(a).startswith("sqrt(")}
            c.decide(None if extra else rat_eq(got, want), "norm/formula", fl.entry.where, f"{show(w)} is returned as the normalised value")


@rule("N03")
@rule("E06")
def running_statistics_formula(c):
    """One update combines old and new mean/variance/count exactly as pooling the two groups (identity of rational functions)."""
    r = c.p.cls("RunningMeanStd")
    fl = c.flow("update", r)
    x = P(fl.entry.params()[1])

    def axis(t):
        """The reduction runs over the batch axis."""
        own = t.a[1] and t.a[1][0] is x
        a = dict(t.a[2]).get("axis", t.a[1][1 if own else 0] if len(t.a[1]) > (1 if own else 0) else None)
        return a is not None and a is const(0)

    def moment(t, nm):
        return t.k == "call" and (is_call(t, nm) and t.a[1] and t.a[1][0] is x or t.a[0].k == "attr" and t.a[0].a[1] == nm and t.a[0].a[0] is x)

    def whole(t):
        return (moment(t, "mean") or moment(t, "var")) and not axis(t) or t is Term("attr", x, "size") or moment(t, "size")

    def atom(t):
        if t is A("mean"):
            return "m"
        if t is A("var"):
            return "v"
        if t is A("count"):
            return "N"
        if moment(t, "mean"):
            return "bm" if axis(t) else None
        if moment(t, "var"):
            return "bv" if axis(t) else None
        if is_call(t, "len") and t.a[1][0] is x or (t.k == "sub" and t.a[0] is Term("attr", x, "shape") and t.a[1] is const(0)):
            return "n"
        return None
    X, C = Poly.x, Poly.c
    m, v, N, bm, bv, n = (X(s) for s in ("m", "v", "N", "bm", "bv", "n"))
    one = C(1)
    T = N + n
    want = {"mean": (m * N + bm * n, T), "count": (T, one),
            # pooled second moment minus squared pooled mean, common denominator T^2
            "var": ((N * (v + m * m) + n * (bv + bm * bm)) * T - (m * N + bm * n) * (m * N + bm * n), T * T)}
    for a, w in want.items():
        ws = setattrs(fl, a, base=SELF)
        pth = find_path(fl.entry_node, fl.exit_node, ws)
        c.decide(bool(ws) and pth is None, f"update/{a}", fl.entry.where, f"{a} is not updated: {describe(pth)}")
        for s in ws:
            got = rat(s.d["value"], atom)
            extra = (got[0].atoms() | got[1].atoms()) - {"m", "v", "N", "bm", "bv", "n"}
            wrong = [t for t in subterms(s.d["value"]) if whole(t)]
            if wrong:
                c.bad(f"update/{a}/formula", s.where, f"{show(wrong[0])} is taken over all entries instead of per component over the batch axis")
                continue
            if extra:
                c.und(f"update/{a}/formula", f"{show(s.d['value'])}: {sorted(map(str, extra))}")
                continue
            c.decide(rat_eq(got, w), f"update/{a}/formula", s.where, f"{a} becomes {show(s.d['value'])}, which is not the pooled value of old and new data")


# ------------------------------------------------------------------------------- E07
@rule("E07")
def rows_follow_ids(c):
    """reset/step/attribute results are collected in the order of the requested ids, each from its own worker."""
    for k in venv_classes(c.p):
        for m in ("reset", "step", "get_env_attr", "set_env_attr"):
            fl = c.flow(m, k)
            con = f"{k.name}.{m}"
            idn = [x for x in fl.entry.params() if x in ("id", "env_id")]
            if not idn:
                raise AnalysisBroken(f"{con}: id parameter not found")
            idp = P(idn[0])
            reqs = [n for n in worker_calls(fl) if n.d["name"] != "wait"]
            for n in reqs:
                r = n.d["recv"]
                if r.k != "sub":
                    c.decide(False if r.k == "elem" else None, f"{con}/{n.d['name']}/which", n.where, f"{m} addresses {show(r)} regardless of the requested ids")
                    continue
                i = r.a[1]
                src = each_src(i)
                if src is None:
                    c.decide(False if i.k == "idx" or i.k == "const" else None, f"{con}/{n.d['name']}/which", n.where, f"worker {show(i)} is addressed instead of the requested id")
                    continue
                vs = values(fl, src)
                odd = [v for v in vs if not (v is idp or (v.k in ("list", "tuple") and v.a[0] and v.a[0][0] is idp) or (is_call(v, "list", "range", "arange") and "env_num" in skey(v)) or is_call(v, "wrap_id", "_wrap_id"))]
                if any(is_call(v, "sorted", "reversed", "set", "unique", "flip") or (v.k == "sub") for v in odd):
                    c.bad(f"{con}/{n.d['name']}/order", n.where, f"environments are addressed in the order {show(src)} instead of the requested one")
                else:
                    c.decide(True if not odd else None, f"{con}/{n.d['name']}/which", n.where, f"ids come from {show(src)}")
            if m == "set_env_attr":
                for n in reqs:
                    c.decide(arg(n, 0, "key") is P("key") and arg(n, 1, "value") is P("value"), con + "/args", n.where, f"{show(n.d['term'])}")
            if m == "get_env_attr":
                for n in reqs:
                    c.decide(arg(n, 0, "key") is P("key"), con + "/args", n.where, f"{show(n.d['term'])}")
        # synchronous step: action i to the worker of id i, before any result is read
        fl = c.flow("step", k)
        for n in worker_calls(fl):
            if n.d["name"] == "send" and any(g is A("is_async") and not pol for g, pol in guards(fl, n)):
                r, act = n.d["recv"], n.d["args"][0]
                lid = r.a[1].a[1] if r.k == "sub" and r.a[1].k == "elem" else None
                if act.k == "sub" and act.a[0] is P("action") and act.a[1].k in ("idx", "elem"):
                    c.decide(act.a[1].k == "idx" and act.a[1].a[1] == lid, f"{k.name}.step/action", n.where, f"environment {show(r.a[1])} is sent {show(act)} instead of the action at its own position")
                elif act.k == "elem":
                    c.decide(act.a[1] == lid and act.a[0] is P("action"), f"{k.name}.step/action", n.where, f"{show(r)} is sent {show(act)}")
                else:
                    c.und(f"{k.name}.step/action", show(act))
            if n.d["name"] == "recv":
                lab = [m for m in setsubs(fl) if m.d["index"] is const("env_id") and n.d["term"] in closure(fl, m.d["base"])]
                c.decide(bool(lab), f"{k.name}.step/label", n.where, "the step info does not name its environment")
                for m in lab:
                    c.decide(n.d["recv"].k == "sub" and m.d["value"] is n.d["recv"].a[1], f"{k.name}.step/label", m.where, f"the result of {show(n.d['recv'])} is labelled {show(m.d['value'])}")
                    inf = m.d["base"]
                    ok = inf.k == "sub" and inf.a[1] in (const(-1), const(4)) or inf.k == "item" and inf.a[1] in (4, -1)
                    c.decide(ok, f"{k.name}.step/label place", m.where, f"the label goes into {show(inf)} instead of the info")


def _comp_index(fl, t):
    """Which component of the worker results does a returned array hold? (int or None)"""
    for x in values(fl, t):
        y = x
        if is_call(y, "stack", "array", "asarray", "concatenate") and y.a[1]:
            y = y.a[1][0]
        if y.k == "comp":
            e = y.a[1]
            if e.k == "sub" and e.a[1].k == "const":
                return e.a[1].a[0]
            if e.k == "item":
                return e.a[1]
            return None
        if y.k == "item":
            return y.a[1]
        if y.k == "sub" and y.a[1].k == "const":
            return y.a[1].a[0]
    return None


def _mixed(fl, t):
    """Components of the answers that an elementwise combination draws on."""
    if t.k in ("bin", "un"):
        return set().union(*(_mixed(fl, z) for z in t.a[1:]))
    if is_call(t, "logical_and", "logical_or", "logical_not", "where"):
        return set().union(*(_mixed(fl, z) for z in t.a[1]))
    return {_comp_index(fl, t)} - {None}


@rule("E07")
def components_keep_their_place(c):
    """reset returns (obs, info); step returns (obs, reward, terminated, truncated, info), each from the like component of the workers' answers."""
    for k in venv_classes(c.p):
        for m, size in (("reset", 2), ("step", 5)):
            fl = c.flow(m, k)
            for v in values(fl, fl.ret_value):
                if v.k != "tuple" or len(v.a[0]) != size:
                    c.decide(False if v.k == "tuple" else None, f"{k.name}.{m}", fl.entry.where, f"{m} returns {show(v)}")
                    continue
                for i, x in enumerate(v.a[0]):
                    j = _comp_index(fl, x)
                    if isinstance(j, int) and j < 0:
                        j += size
                    c.decide(None if j is None else j == i, f"{k.name}.{m}/component {i}", fl.entry.where, f"component {i} of the result is built from component {j} of the answers")
                    for y in values(fl, x):
                        js = _mixed(fl, y)
                        if len(js) > 1:
                            c.bad(f"{k.name}.{m}/component {i}", fl.entry.where, f"component {i} of the result mixes components {sorted(map(str, js))} of the answers: {show(y)[:100]}")
                        srt = [t for t in closure(fl, y) if is_call(t, "sorted", "reversed", "flip", "unique", "argsort")]
                        c.decide(not srt, f"{k.name}.{m}/component {i}/order", fl.entry.where, f"rows are re-ordered by {show(srt[0]) if srt else ''}")


# ------------------------------------------------------------------------------- E08
@rule("E08")
def flags_pass_through(c):
    """Environment adapters return reward, terminated, truncated, info of the wrapped step in their places."""
    k = c.p.cls("TruncatedAsTerminated")
    fl = c.flow("step", k)
    st = [n for n in calls(fl, "step")]
    for v in values(fl, fl.ret_value):
        if v.k != "tuple" or len(v.a[0]) != 5 or not st:
            c.und("TruncatedAsTerminated.step", show(v))
            continue
        r = st[0].d["term"]
        comp = lambda t, i: t.k == "item" and t.a[0] is r and t.a[1] == i
        for i, x in enumerate(v.a[0]):
            if i == 2:
                vs = values(fl, x)
                used = {t.a[1] for t in closure(fl, x, conds=True) if t.k == "item" and t.a[0] is r}
                isand = any(t.k == "boolop" and t.a[0] == "and" for t in subterms(x)) or any(t.k == "bin" and t.a[0] == "&" for t in subterms(x))
                c.decide(used == {2, 3} and not isand, "TruncatedAsTerminated.step/terminated", fl.entry.where, f"terminated becomes {show(x)}, not terminated or truncated")
            else:
                c.decide(comp(x, i), f"TruncatedAsTerminated.step/{i}", fl.entry.where, f"component {i} is {show(x)}")
    k = c.p.cls("PettingZooEnv")
    fl = c.flow("step", k)
    last = calls(fl, "last")
    act = [n for n in calls(fl, "step") if n.d["recv"] is A("env")]
    c.decide(bool(act) and all(arg(n, 0, "action") is P("action") for n in act), "PettingZooEnv.step/action", fl.entry.where, "the action is not handed to the environment")
    for n in last:
        pth = find_path(fl.entry_node, n, act)
        c.decide(pth is None, "PettingZooEnv.step/order", n.where, "the result is read before the action is executed")
        for v in values(fl, fl.ret_value):
            if v.k != "tuple" or len(v.a[0]) != 5:
                c.und("PettingZooEnv.step/result", show(v))
                continue
            for i in (2, 3, 4):
                x = v.a[0][i]
                ok = (x.k == "item" and x.a[0] is n.d["term"] and x.a[1] == i)
                c.decide(ok or (None if x.k not in ("item", "const") else False), f"PettingZooEnv.step/{i}", fl.entry.where, f"component {i} of the result is {show(x)}")
            rew = v.a[0][1]
            own = rew is A("rewards")
            c.decide(not own, "PettingZooEnv.step/rewards own", fl.entry.where, "the returned reward list is the environment's own: it changes with the next step")
            c.decide("rewards" in skey(rew) or None, "PettingZooEnv.step/rewards", fl.entry.where, f"rewards are {show(rew)}")
    w = setsubs(fl, base=A("rewards"))
    for n in w:
        i, val = n.d["index"], n.d["value"]
        ok = i.k == "sub" and i.a[0] is A("agent_idx") and i.a[1].k in ("key", "elem") and ((val.k == "val" and val.a[1] == i.a[1].a[1]) or (val.k == "sub" and val.a[1] is i.a[1]))
        c.decide(ok or (None if i.k == "sub" else False), "PettingZooEnv.step/reward of agent", n.where, f"rewards[{show(i)}] = {show(val)}")
    for m in ("reset", "step"):
        fl = c.flow(m, k)
        for v in values(fl, fl.ret_value):
            if v.k != "tuple":
                continue
            for o in values(fl, v.a[0][0]):
                if o.k != "dict":
                    continue
                d = {kk.a[0]: vv for kk, vv in o.a[0] if kk is not None and kk.k == "const"}
                c.decide("agent_id" in d and "agent_selection" in skey(d["agent_id"]), f"PettingZooEnv.{m}/agent", fl.entry.where, f"the acting agent is reported as {show(d.get('agent_id', NONE))}")
                if "mask" in d:
                    c.decide("action_mask" in skey(d["mask"]) or ("True" in skey(d["mask"]) and "action_space" in skey(d["mask"])), f"PettingZooEnv.{m}/mask", fl.entry.where, f"the mask is {show(d['mask'])}")
    fi = c.flow("__init__", k)
    ws = [n for n in setsubs(fi) if n.d["value"].k in ("idx", "elem") and n.d["index"].k == "elem"]
    for n in ws:
        c.decide(n.d["value"].k == "idx" and n.d["value"].a[1] == n.d["index"].a[1], "PettingZooEnv/agent index", n.where, f"agent {show(n.d['index'])} gets index {show(n.d['value'])}")


@rule("E08")
def action_maps(c):
    """Discretised actions map to the grid of their own dimension; a flat index is decomposed by the matching mixed radix."""
    k = c.p.cls("ContinuousToDiscrete")
    fl = c.flow("__init__", k)
    for n in setattrs(fl, "mesh", base=SELF):
        for t in closure(fl, n.d["value"]):
            if is_call(t, "linspace"):
                a_ = [x for x in t.a[1]]
                names = [each_src(x) for x in a_[:3]]
                s = [skey(x) if x is not None else "" for x in names]
                c.decide(s[0].endswith(".low") and s[1].endswith(".high"), "ContinuousToDiscrete/bounds", n.where, f"the grid runs from {show(a_[0])} to {show(a_[1])}")
                lids = {x.a[1] for x in a_[:3] if x.k == "elem"}
                c.decide(len(lids) <= 1, "ContinuousToDiscrete/dimension", n.where, "grid bounds of different dimensions are combined")
                c.decide(len(a_) < 3 or "action_per_dim" in s[2] or None, "ContinuousToDiscrete/number", n.where, f"{show(t)}")
    fl = c.flow("action", k)
    for t in closure(fl, fl.ret_value):
        if t.k == "sub" and t.a[0].k == "sub" and t.a[0].a[0] is A("mesh"):
            d, i = t.a[0].a[1], t.a[1]
            if d.k in ("idx", "elem") and i.k in ("elem", "idx"):
                c.decide(d.k == "idx" and i.k == "elem" and d.a[1] == i.a[1], "ContinuousToDiscrete.action", fl.entry.where, f"dimension {show(d)} is looked up at {show(i)}")
    k = c.p.cls("MultiDiscreteToDiscrete")
    fl = c.flow("action", k)
    bs = [t for t in closure(fl, fl.ret_value) if t.k == "bin" and t.a[0] == "//"]
    for t in bs:
        b = t.a[2]
        c.decide(b.k == "elem" and is_call(b.a[0], "flip") or (b.k == "elem" and b.a[0].k == "sub") or None if b.k == "elem" and b.a[0] is not A("bases") else False,
                 "MultiDiscreteToDiscrete.action/order", fl.entry.where, f"digits are taken in the order {show(b)} (largest base first is required)")
        cur = t.a[1]
        if cur.k == "loopphi":
            nx = [x for x in fl.loops.get(cur, ()) if x.k == "bin"]
            c.decide(any(x.a[0] == "%" and x.a[1] is cur and x.a[2] is b for x in nx), "MultiDiscreteToDiscrete.action/rest", fl.entry.where, f"after a digit the rest becomes {[show(x) for x in nx]}")
        else:
            c.bad("MultiDiscreteToDiscrete.action/rest", fl.entry.where, "every digit is taken from the whole index")
    fl = c.flow("__init__", k)
    for n in setsubs(fl, base=lambda b: b is A("bases") or b in [x.d["value"] for x in setattrs(fl, "bases", base=SELF)]):
        v, i = n.d["value"], n.d["index"]
        if v.k == "bin" and v.a[0] == "*":
            prev = [x for x in v.a[1:] if x.k == "sub" and x.a[0] is n.d["base"]]
            nv = [x for x in v.a[1:] if x not in prev]
            at = lambda t: "i" if t is i else None
            ok1 = len(prev) == 1 and poly(prev[0].a[1], at) == Poly.x("i") - Poly.c(1)
            ok2 = len(nv) == 1 and nv[0].k == "sub" and (poly(nv[0].a[1], at) == -Poly.x("i"))
            c.decide(ok1 and (ok2 or (None if len(nv) == 1 and "len" in skey(nv[0]) else False)), "MultiDiscreteToDiscrete/bases", n.where, f"base {show(i)} is {show(v)}")
