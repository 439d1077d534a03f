"""Wrapper and multi-agent policies: what reaches the inner policies and what is put back."""
from __future__ import annotations

from ..alias import Alias
from ..core import rule
from ..flow import NONE, Term, canon_cond, const, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import arg, calls, closure, describe, find_path, nodes, setattrs, setsubs, strip, values
from .acting import CONV
from .policies import init_flow
from .returns import X, bare, callname, operands
from .util import A, P, SELF, assume, both, field, live, rat, rat_eq, resolve, returned

MAP, ICM = "MultiAgentPolicyManager", "ICMPolicy"
POLS = A("policies")
MARK = "is_within_training_step"
OPQ = ("nonzero", "where", "Batch", "cat", "to_numpy", "to_torch")


def inner(t):
    """The agent whose policy this is (None: not an inner policy of the manager)."""
    if t is None:
        return None
    if t.k == "val" and t.a[0] is POLS:
        return Term("key", POLS, t.a[1])
    if t.k == "sub" and t.a[0] is POLS:
        return t.a[1]
    if t.k == "call" and callname(t) == "get" and t.a[0].k == "attr" and t.a[0].a[0] is POLS:
        return t.a[1][0]
    # entries of a re-ordered or copied list of pairs
    if (t.k == "item" and t.a[1] == 1 or t.k == "sub" and t.a[1] is const(1)) and t.a[0].k == "elem":
        s = t.a[0].a[0]
        if any(x.k == "call" and callname(x) == "items" and operands(x)[0] is POLS or x is POLS for x in subterms(s)):
            return Term("item", t.a[0], 0) if t.k == "item" else Term("sub", t.a[0], const(0))
    if t.k == "elem" and any(x.k == "call" and callname(x) == "values" and operands(x)[0] is POLS for x in subterms(t.a[0])):
        return Term("key", POLS, t.a[1])
    return None


def loops(fl, who):
    """The loop heads that go through the agents."""
    lid = who.a[1] if who.k in ("key", "elem") else who.a[0].a[1] if who.k in ("item", "sub") and who.a[0].k == "elem" else None
    return [h for h in nodes(fl, "iter") if lid is not None and h.d.get("lid") == lid]


def rows(t, batch):
    """(agent, polarity) of an index selecting the rows of one agent."""
    while True:
        if t.k == "sub" and t.a[1] is const(0) or t.k == "item" and t.a[1] == 0:
            t = t.a[0]
        elif t.k == "call" and callname(t) in ("nonzero", "where", "flatnonzero", "argwhere", "ravel", "flatten", "squeeze", "asarray", "array", "to_numpy") and operands(t) and len(operands(t)) <= 2:
            t = operands(t)[0]
        else:
            break
    pol = True
    while t.k == "un" and t.a[0] in ("~", "not"):
        t, pol = t.a[1], not pol
    if t.k == "cmp" and t.a[0] in ("==", "!="):
        l, r = t.a[1], t.a[2]
        ids = [x for x in (l, r) if any(y.k == "attr" and y.a[1] == "agent_id" or y.k == "sub" and y.a[1] is const("agent_id") for y in subterms(x))]
        if len(ids) == 1:
            who = r if ids[0] is l else l
            if batch in set(subterms(ids[0])):
                return who, pol == (t.a[0] == "==")
    return None


def of_agent(t, whole, batch, agent):
    """Is t the rows of `whole` that belong to the agent? (None: cannot tell)"""
    if t is whole:
        return False
    if t.k == "sub" and t.a[0] is whole:
        r = rows(t.a[1], batch)
        if r is None:
            return False if t.a[1].k in ("slice", "key", "const") else None
        return r[1] and r[0] is agent
    return None


def sig(n, names):
    """Arguments of a call by the callee's parameter names."""
    return {x: n.d["args"][i] if i < len(n.d["args"]) else n.d["kw"].get(x) for i, x in enumerate(names)}


def inner_calls(fl, *names):
    """(node, agent) of calls into inner policies."""
    out = []
    for n in nodes(fl, "call"):
        if n.d["target"] is not None and n.d["inlined"]:
            continue
        who = inner(n.d["recv"]) if n.d["recv"] is not None and n.d["name"] in names else inner(n.d["fn"]) if n.d["fn"] is not None and "forward" in names else None
        if who is not None:
            out.append((n, who))
    return out


def pnames(fl):
    return [a.arg for a in fl.entry.node.args.args if a.arg != "self"]


SITES = {"process_fn": ("process_fn",), "forward": ("forward",), "learn": ("learn",), "exploration_noise": ("exploration_noise",)}


@rule("P07")
def each_agent_gets_its_own_rows(c):
    """The manager calls every inner policy with the rows of the batch (and indices, actions) whose agent id is that policy's agent."""
    for m, names in SITES.items():
        fl = c.flow(m, MAP, opaque=OPQ)
        con = f"{MAP}.{m}"
        cs = inner_calls(fl, *names)
        ps = pnames(fl)
        if not cs:
            c.decide(None if any(n.d["name"] == m or m == "forward" and n.d["fn"] is not None and n.d["fn"].k not in ("global", "attr", "builtin") for n in nodes(fl, "call")) else False, con, fl.entry.where, f"no inner policy's {m} is called")
            continue
        batch = P("batch")
        for n, who in cs:
            if m == "process_fn":
                s = sig(n, ("batch", "buffer", "indices"))
                want = {"batch": batch, "indices": P(ps[2])}
                c.decide(s["buffer"] is P(ps[1]), con + "/buffer", n.where, f"the inner policy is given {show(s['buffer']) if s['buffer'] else None} as the buffer")
            elif m == "forward":
                s = sig(n, ("batch", "state"))
                want = {"batch": batch}
            elif m == "exploration_noise":
                s = sig(n, ("act", "batch"))
                want = {"act": P("act"), "batch": batch}
            else:
                s = sig(n, ("batch",))
                d = s["batch"]
                ok = d is not None and (d.k in ("sub",) and d.a[0] is batch and d.a[1] is who or d.k == "val" and d.a[0] is batch and d.a[1] == who.a[1] or d.k == "call" and callname(d) == "get" and d.a[1] and d.a[1][0] is who)
                c.decide(True if ok else False if d is batch or d is not None and d.k == "sub" and d.a[0] is batch and d.a[1].k in ("key", "const", "idx") else None, con + "/batch", n.where, f"the policy of an agent learns from {show(d) if d else None}")
                continue
            for nm, whole in want.items():
                t = s[nm]
                if t is None:
                    c.bad(f"{con}/{nm}", n.where, f"the inner policy is called without its {nm}")
                    continue
                r = of_agent(t, whole, batch, who)
                if r is None and t.k == "sub" and t.a[0] is not whole and t.a[0].k == "param" and rows(t.a[1], batch):
                    r = False
                c.decide(r, f"{con}/{nm}", n.where, f"the policy of an agent is given {show(t)} as its {nm}: not the rows of that agent")
        # nobody is skipped: from the loop head, the call can only be missed when the agent has no rows
        heads = {id(h): h for n, who in cs for h in loops(fl, who)}
        for h in heads.values():
            if not h.d.get("comp"):
                p = find_path([s for s, l in h.succ if l == "next"], fl.exit_node, [h])
                c.decide(p is None, con + "/to the end", h.where, f"the remaining agents are skipped: {describe(p)}")
            p = find_path([s for s, l in h.succ if l == "next"], h, [n for n, _ in cs], edge_ok=assume(has_rows(fl)), loops_once=True)
            if p is None and any(s in [n for n, _ in cs] for s, l in h.succ if l == "next"):
                p = None
            c.decide(p is None or None, con + "/every agent", h.where, f"an agent with rows may be skipped: {describe(p)}")
            unknown = p is not None and not any(x.kind == "branch" for x in p)
            if unknown:
                c.bad(con + "/every agent", h.where, f"an agent with rows is skipped: {describe(p)}")
            it = h.d["it"]
            whole = it is POLS or it.k == "call" and callname(it) in ("items", "keys", "values", "list", "tuple", "enumerate") and any(x is POLS for x in subterms(it)) and not any(x.k == "slice" for x in subterms(it))
            c.decide(True if whole else False if not h.d.get("comp") and any(x.k == "slice" for x in subterms(it)) and any(x is POLS for x in subterms(it)) else None, con + "/all policies", h.where, f"only {show(it)} of the inner policies are served")


def has_rows(fl):
    """Valuation: the agent at hand has rows, and a learn batch has data."""
    def val(t):
        if t.k == "cmp" and t.a[0] in ("==", "<", "<=", ">", ">=") and const(0) in t.a[1:]:
            o = t.a[2] if t.a[1] is const(0) else t.a[1]
            if o.k == "call" and callname(o) == "len" or o.k == "attr" and o.a[1] == "size":
                if t.a[0] == "==":
                    return False
                if t.a[0] == "<":
                    return t.a[1] is const(0)
                if t.a[0] == ">":
                    return t.a[2] is const(0)
        if t.k == "call" and callname(t) in ("len", "any") or t.k == "attr" and t.a[1] == "size":
            return True
        return None
    return val


def about(t, *words):
    return any(x.k == "attr" and x.a[1] in words or x.k == "const" and x.a[0] in words for x in subterms(t))


def rew_val(t):
    """Valuation: rewards are present (an array)."""
    if t.k == "call" and is_call(t, "isinstance") and len(t.a[1]) == 2 and about(t.a[1][0], "rew"):
        return True if show(t.a[1][1]).endswith("ndarray") else None
    if t.k == "cmp" and t.a[0] == "in" and t.a[1] is const("rew"):
        return True
    if t.k == "call" and callname(t) == "hasattr" and const("rew") in t.a[1]:
        return True
    return None


def both_val(*vs):
    def val(t):
        for v in vs:
            r = v(t)
            if r is not None:
                return r
        return None
    return val


def column(v, agent):
    """Is v the agent's column of a reward array? (agent index of the environment)"""
    if v.k == "call" and callname(v) == "take" and len(operands(v)) >= 2:
        ix = operands(v)[1]
    elif v.k == "sub":
        ix = v.a[1]
        if ix.k == "tuple" and len(ix.a[0]) == 2:
            f = ix.a[0][0]
            if not (f.k == "slice" or f is const(...)):
                return False
            ix = ix.a[0][1]
        else:
            # rew[i] takes a row
            return False if ix.k == "sub" and ix.a[0] is A("agent_idx") else None
    else:
        return None
    if ix.k == "sub" and ix.a[0] is A("agent_idx") or ix.k == "call" and callname(ix) == "get" and A("agent_idx") in operands(ix):
        k = ix.a[1] if ix.k == "sub" else ix.a[1][0]
        return k is agent
    return False if ix.k == "const" or ix.k == "idx" else None


@rule("P07")
def each_agent_gets_its_own_reward(c):
    """With a reward vector, the inner policy sees the reward column of its agent, in its batch and, while it processes it, in the buffer."""
    for m in ("process_fn", "forward"):
        fl = c.flow(m, MAP, opaque=OPQ)
        con = f"{MAP}.{m}"
        val = both_val(rew_val, has_rows(fl))
        for n, who in inner_calls(fl, m):
            b = sig(n, ("batch",))["batch"]
            if b is None:
                continue
            st = [x for x in setattrs(fl, "rew") if x.d["base"] is b] + [x for x in setsubs(fl, b) if x.d["index"] is const("rew")]
            judge_rew(c, fl, con + "/batch", n, who, st, val, b)
            if m == "process_fn":
                st = [x for x in setattrs(fl, "rew") if x.d["base"].k == "attr" and x.d["base"].a[0] is P("buffer")]
                st = [x for x in st if any(y is who or y is A("agent_idx") or y.k in ("key", "idx", "elem") for y in subterms(x.d["value"]))]
                judge_rew(c, fl, con + "/buffer", n, who, st, val, P("buffer"))


def judge_rew(c, fl, con, n, who, st, val, base):
    if not st:
        c.bad(con, n.where, "the inner policy sees the rewards of all agents")
        return
    for x in st:
        v = x.d["value"]
        r = column(v, who)
        c.decide(r, con, x.where, f"the inner policy of an agent sees the reward {show(v)}, not the agent's column")
        src = v.a[0] if v.k == "sub" else operands(v)[0] if v.k == "call" and operands(v) else None
        if r and src is not None:
            own = any(a is Term("attr", base, "rew") or a is P("undef") or a.k == "undef" or a is Term("sub", Term("attr", P("batch"), "rew"), base.a[1] if base.k == "sub" else None) for a in values(fl, src))
            c.decide(own or None, con + "/source", x.where, f"the reward is taken from {show(src)}")
    heads = loops(fl, who)
    for h in heads:
        p = find_path([h], n, st, edge_ok=assume(val), loops_once=True)
        sure = p is not None and not any(x.kind == "branch" and about(x.d["cond"], "rew") and not decided(x, val) for x in p)
        c.decide(p is None or (False if sure else None), con + "/always", n.where, f"the inner policy may see the rewards of all agents: {describe(p)}")


def decided(n, val):
    from .util import truths
    x, _ = canon_cond(n.d["cond"])
    return None not in truths(x, val)


@rule("P07")
def the_buffer_is_put_back(c):
    """What the manager changes in the buffer while it serves an agent is the original again on every way out, exceptions included; the given batch, state and indices are left alone."""
    fl = c.flow("process_fn", MAP, opaque=OPQ)
    con = f"{MAP}.process_fn"
    ws = [x for x in setattrs(fl) if any(y is P("buffer") for y in subterms(x.d["base"]))]
    val = both_val(rew_val, has_rows(fl))
    for a in sorted({x.d["attr"] for x in ws}):
        orig = Term("attr", P("buffer"), a)
        back = [x for x in ws if x.d["attr"] == a and all(v is orig or v.k == "undef" or v is Term("attr", x.d["base"], a) for v in values(fl, x.d["value"]))]
        dirty = [x for x in ws if x.d["attr"] == a and x not in back]
        for x in dirty:
            for goal, how in ((fl.exit_node, "returning"), (fl.raise_exit, "failing")):
                p = find_path([x], goal, back, exc=True, edge_ok=both(assume(val), lambda n, m, l: not (n is x and l == "exc")))
                c.decide(p is None, f"{con}/{a} after {how}", x.where, f"buffer.{a} stays replaced after {how}: {describe(p)}")
    for m in ("process_fn", "forward", "learn"):
        fl = c.flow(m, MAP, opaque=OPQ)
        roots = {P(x) for x in pnames(fl) if x in ("batch", "state", "indice", "indices")}
        ms = Alias(fl, roots).mutations()
        c.decide(not ms, f"{MAP}.{m}/caller's data", ms[0][0].where if ms else "", f"the caller's data is changed: {ms[0][3] if ms else ''}")


@rule("P07")
def observations_are_unwrapped(c):
    """The observation handed on is the agent's own: the inner observation of a dictionary without mask, the same for the next observation; one with a mask is kept whole."""
    for m in ("process_fn", "forward"):
        fl = c.flow(m, MAP, opaque=OPQ)
        con = f"{MAP}.{m}"
        for n, who in inner_calls(fl, m):
            b = sig(n, ("batch",))["batch"]
            if b is None:
                continue
            for mask in (True, False):
                def val(t, mask=mask):
                    if t.k == "call" and callname(t) == "hasattr" and len(t.a[1]) == 2 and t.a[1][1].k == "const":
                        return {"mask": mask, "obs": True}.get(t.a[1][1].a[0])
                    if t.k == "cmp" and t.a[0] == "in" and t.a[1].k == "const":
                        return {"mask": mask, "obs": True}.get(t.a[1].a[0])
                    return has_rows(fl)(t)
                ok = live(fl, val)
                for a in ("obs", "obs_next"):
                    st = [x for x in setattrs(fl, a) if x.d["base"] is b]
                    ran = [x for x in st if x in ok]
                    if mask:
                        c.decide(not ran or None, f"{con}/{a} with mask", ran[0].where if ran else "", "")
                        continue
                    if not st:
                        c.decide(False, f"{con}/{a}", n.where, f"the inner policy is given the dictionary around {a}")
                        continue
                    for x in ran:
                        vs = values(fl, x.d["value"])
                        good = all(v.k == "attr" and v.a[1] == "obs" and v.a[0].k == "attr" and v.a[0].a[1] == a for v in vs)
                        wrong = not any(y.k == "attr" and y.a[1] == a for v in vs for y in subterms(v)) or any(v.k == "attr" and v.a[0].k == "attr" and v.a[0].a[1] in ("obs", "obs_next") and (v.a[0].a[1] != a or v.a[1] != "obs") for v in vs)
                        c.decide(True if good else False if wrong else None, f"{con}/{a}", x.where, f"{a} of the agent becomes {show(x.d['value'])}")
                    heads = loops(fl, who)
                    for h in heads:
                        p = find_path([h], n, st, edge_ok=assume(val), loops_once=True)
                        c.decide(p is None or None, f"{con}/{a}/always", n.where, "")


def append_parts(fl, t):
    """What entry `i` of the elements of a locally built list can be: [(append node, term)]."""
    i = None
    if t.k == "item":
        t, i = t.a[0], t.a[1]
    elif t.k == "sub" and t.a[1].k == "const" and isinstance(t.a[1].a[0], int):
        t, i = t.a[0], t.a[1].a[0]
    if t.k == "elem" and t.a[0].k == "list":
        out = []
        for n in nodes(fl, "call"):
            if n.d["name"] == "append" and n.d["recv"] is t.a[0] and n.d["args"]:
                x = n.d["args"][0]
                out.append((n, x.a[0][i] if i is not None and x.k == "tuple" and i < len(x.a[0]) else x))
        return out
    return []


def written(fl, t):
    """Alternatives of a value that may come out of a locally built list."""
    ps = append_parts(fl, t)
    return [x for _, x in ps] if ps else [t]


@rule("P07")
def states_and_actions_stay_with_their_agent(c):
    """Each inner policy gets the recurrent state stored under its agent; its new state, output and actions go under its agent and into its rows."""
    fl = c.flow("forward", MAP, opaque=OPQ)
    con = f"{MAP}.forward"
    none = Term("cmp", "is", P("state"), NONE)
    for n, who in inner_calls(fl, "forward"):
        s = sig(n, ("batch", "state"))["state"]
        if s is None:
            c.bad(con + "/state", n.where, "the inner policy never gets its recurrent state")
            continue
        for given in (True, False):
            t = resolve(s, lambda t, g=given: (not g) if t is none else g if t is P("state") else None)
            if not given:
                c.decide(t is NONE or None, con + "/no state", n.where, "")
                continue
            k = t.a[1] if t.k == "sub" and t.a[0] is P("state") else t.a[1][0] if t.k == "call" and callname(t) == "get" and t.a[1] and P("state") in operands(t) else t.a[1] if False else None
            if k is None and t.k == "call" and callname(t) == "getattr" and t.a[1][0] is P("state"):
                k = t.a[1][1]
            c.decide(True if k is who else False if t is P("state") or t is NONE or k is not None and k.k in ("key", "const", "idx") else None, con + "/state", n.where, f"the policy of an agent continues from the state {show(t)}")
        out = {n.d["term"], n.d["result"]}
        # where the results go
        for nm, attr_ in (("state", "state"), ("out", None)):
            st = [x for x in setsubs(fl) if x.d["index"].k == "key" and x.d["index"].a[0] is POLS and goes_to(fl, x.d["base"], nm)]
            if not st:
                c.und(f"{con}/{nm} out", "where the inner result goes is not in sight")
                continue
            for x in st:
                vs = [w for v in values(fl, x.d["value"]) for w in written(fl, v)]
                vs = [w for v in vs for w in values(fl, v)]
                good = any((w.k == "attr" and w.a[0] in out and w.a[1] == attr_) if attr_ else w in out for w in vs)
                c.decide(good or (False if all(w.k in ("param", "const") or w is P("state") for w in vs) else None), f"{con}/{nm} out", x.where, f"what is returned as the {nm} of an agent is {[show(w) for w in vs]}")
        ws = [x for x in setsubs(fl) if x.d["base"].k == "attr" and x.d["base"].a[1] == "act" or x.d["base"].k == "sub" and x.d["base"].a[1] is const("act")]
        if not ws:
            c.und(con + "/act", "where the actions go is not in sight")
        for x in ws:
            iv, vv = append_parts(fl, x.d["index"]) or [(None, x.d["index"])], append_parts(fl, x.d["value"]) or [(None, x.d["value"])]
            for (na, i), (nb, v) in zip(iv, vv, strict=False):
                if v not in {Term("attr", t, "act") for t in out} and not any(y in out for y in closure(fl, v)):
                    continue
                r = rows(i, P("batch"))
                c.decide((r[1] and r[0] is who) if r else None, con + "/act rows", x.where, f"the actions of an agent are written to the rows {show(i)}")
                w = v
                c.decide(w.k == "attr" and w.a[1] == "act" and w.a[0] in out or None, con + "/act", x.where, f"the actions of an agent become {show(w)}")
        # one result per agent, in the agents' order
        for h in loops(fl, who):
            if True:
                ap = [x for x in nodes(fl, "call") if x.d["name"] == "append" and x.d["recv"] is not None and x.d["recv"].k == "list"]
                used = [x for x in nodes(fl, "call") if x.d["name"] == "zip" and x.d["fn"].k == "global"]
                if ap and used:
                    p = find_path([s for s, l in h.succ if l == "next"], h, ap, loops_once=True)
                    c.decide(p is None or None, con + "/one result per agent", h.where, "")
    fl = c.flow("exploration_noise", MAP, opaque=OPQ)
    con = f"{MAP}.exploration_noise"
    for n, who in inner_calls(fl, "exploration_noise"):
        ws = [x for x in setsubs(fl) if x.d["value"] in (n.d["term"], n.d["result"])]
        if not ws:
            c.decide(None if any(n.d["term"] in set(subterms(x.d["value"])) for x in setsubs(fl)) else False, con + "/kept", n.where, "the explored actions of an agent are dropped")
        for x in ws:
            r = rows(x.d["index"], P("batch"))
            c.decide((r[1] and r[0] is who) if r else None, con + "/rows", x.where, f"the explored actions of an agent are written to the rows {show(x.d['index'])}")
            for rt in nodes(fl, "return"):
                if len(rt.stack) == 1:
                    c.decide(strip(rt.d["value"], *CONV) is x.d["base"] or any(y is x.d["base"] for y in closure(fl, rt.d["value"])) or None, con + "/returned", rt.where, "")
    fl = c.flow("process_fn", MAP, opaque=OPQ)
    con = f"{MAP}.process_fn"
    for n, who in inner_calls(fl, "process_fn"):
        ws = [x for x in setsubs(fl) if x.d["value"] in (n.d["term"], n.d["result"])]
        c.decide(bool(ws) or None, con + "/kept", n.where, "")
        for x in ws:
            c.decide(x.d["index"] is who or (False if x.d["index"].k in ("key", "const", "idx") else None), con + "/agent", x.where, f"the processed batch of an agent goes under {show(x.d['index'])}")
    fl = c.flow("learn", MAP, opaque=OPQ)
    con = f"{MAP}.learn"
    for n, who in inner_calls(fl, "learn"):
        ws = [x for x in setsubs(fl) if x.d["value"] in (n.d["term"], n.d["result"])]
        for x in ws:
            c.decide(x.d["index"] is who or (False if x.d["index"].k in ("key", "const", "idx") else None), con + "/statistics", x.where, f"the statistics of an agent go under {show(x.d['index'])}")


def goes_to(fl, base, name):
    """Does this local dictionary become entry `name` of the result?"""
    for x in setsubs(fl):
        if x.d["index"] is const(name) and x.d["value"] is base:
            return True
    for x in setattrs(fl, name):
        if x.d["value"] is base:
            return True
    for n in nodes(fl, "return"):
        if len(n.stack) == 1 and field(fl, n.d["value"], name) is base:
            return True
    return False


def wrappers(c):
    return [(MAP, inner_calls), (ICM, icm_calls)]


def icm_calls(fl, *names):
    W = A("policy")
    return [(n, W) for n in nodes(fl, "call") if not n.d["inlined"] and (n.d["recv"] is W and n.d["name"] in names or n.d["fn"] is W and "forward" in names)]


@rule("P07")
def inner_policies_know_the_mode(c):
    """While a wrapper acts, processes or learns, the inner policy is within a training step exactly when the wrapper is; afterwards it is as it was, also when the call fails."""
    tot = 0
    for k, find in wrappers(c):
        for m in ("forward", "process_fn", "learn"):
            fl = c.flow(m, k, opaque=OPQ)
            con = f"{k}.{m}"
            for n, who in find(fl, m):
                pol = n.d["fn"] if n.d["name"] in ("?",) or n.d["recv"] is None else n.d["recv"]
                if inner(pol) is None and pol is not A("policy"):
                    pol = n.d["recv"]
                st = [x for x in setattrs(fl, MARK) if x.d["base"] is pol or inner(x.d["base"]) is not None and inner(x.d["base"]) is inner(pol)]
                on = [x for x in st if x.d["value"] is A(MARK)]
                back = [x for x in st if x.d["value"] is Term("attr", pol, MARK) or x.d["value"] is Term("attr", x.d["base"], MARK)]
                other = [x for x in st if x not in on and x not in back]
                tot += 1
                heads = (loops(fl, inner(pol)) if inner(pol) is not None else []) or [fl.entry_node]
                p = find_path(heads, n, on, loops_once=True)
                c.decide(p is None or (None if other else False), con + "/told", n.where, f"the inner policy does not know whether it is within a training step: {describe(p)}")
                for x in on:
                    p = find_path([x], n, [y for y in st if y is not x])
                    c.decide(p is not None, con + "/while", n.where, "the inner policy is reset before it is called")
                    for goal, how in ((fl.exit_node, "returning"), (fl.raise_exit, "failing")):
                        p = find_path([n], goal, back, exc=True, loops_once=True)
                        c.decide(p is None or (None if other else False), f"{con}/put back after {how}", x.where, f"the inner policy stays marked after {how}: {describe(p)}")
                for x in other:
                    c.decide(False if x.d["value"].k == "const" and find_path([x], n, on + back) is not None else None, con + "/told", x.where, f"the inner policy is told {show(x.d['value'])}")
    if tot < 4:
        raise AnalysisBroken("the wrappers' calls into inner policies were not found")


@rule("P07")
def mode_switches_reach_everyone(c):
    """train() sets the wrapper's own mode and that of every inner policy (and model)."""
    for k, parts in ((MAP, None), (ICM, (A("policy"), A("model")))):
        cls = c.p.cls(k)
        f = cls.find("train")
        if f is None or f.cls is not cls:
            c.decide(False if k == MAP else None, f"{k}.train", f"{cls.module.rel}:{cls.node.lineno}", "policies kept in a plain dictionary are not reached by the inherited train")
            continue
        fl = c.flow("train", k)
        con = f"{k}.train"
        mode = P(pnames(fl)[0])
        sup = [n for n in nodes(fl, "call") if n.d["name"] == "train" and n.d["is_super"] and n.d["args"] and n.d["args"][0] is mode]
        own = [x for x in setattrs(fl, "training", base=SELF)]
        p = find_path([fl.entry_node], [fl.exit_node], [x for x in own if x.d["value"] is mode] + sup)
        c.decide(p is None, con + "/own mode", fl.entry.where, "the wrapper does not remember its own mode")
        if parts is None:
            tr = [n for n in nodes(fl, "call") if n.d["name"] in ("train", "eval") and inner(n.d["recv"]) is not None]
            good = [n for n in tr if n.d["name"] == "train" and (arg(n, 0, "mode") is mode)]
            if not tr:
                c.decide(None if any(n.d["name"] in ("apply", "map") for n in nodes(fl, "call")) else False, con + "/inner", fl.entry.where, "the inner policies do not learn of the mode")
                continue
            c.decide(bool(good) or (False if all(arg(n, 0, "mode") is None or arg(n, 0, "mode").k == "const" for n in tr) else None), con + "/inner", tr[0].where, f"the inner policies are switched to {show(arg(tr[0], 0, 'mode')) if arg(tr[0], 0, 'mode') else 'training'}")
            for n in good:
                who = inner(n.d["recv"])
                for h in loops(fl, who):
                    p = find_path([fl.entry_node], [fl.exit_node], [h])
                    c.decide(p is None or None, con + "/always", h.where, "")
                    p = find_path([s for s, l in h.succ if l == "next"], h, good, loops_once=True) if not any(s in good for s, l in h.succ if l == "next") else None
                    c.decide(p is None, con + "/all", h.where, f"some inner policies are left out: {describe(p)}")
        else:
            for part in parts:
                tr = [n for n in nodes(fl, "call") if n.d["name"] == "train" and n.d["recv"] is part and arg(n, 0, "mode") is mode]
                p = find_path([fl.entry_node], [fl.exit_node], tr + sup)
                wrong = [n for n in nodes(fl, "call") if n.d["name"] in ("train", "eval") and n.d["recv"] is part and n not in tr]
                c.decide(p is None, f"{con}/{part.a[1]}", wrong[0].where if wrong else fl.entry.where, f"{part.a[1]} does not learn of the mode")
        for n in nodes(fl, "return"):
            if len(n.stack) == 1:
                c.decide(n.d["value"] is SELF or bool(sup) or None, con + "/chain", n.where, "")


@rule("P07")
def curiosity_delegates(c):
    """The curiosity policy acts, explores, processes and learns through the wrapped policy with the arguments it was given."""
    for m, names in (("forward", ("batch", "state")), ("exploration_noise", ("act", "batch")), ("process_fn", ("batch", "buffer", "indices")), ("post_process_fn", ("batch", "buffer", "indices")), ("learn", ("batch",)), ("set_eps", ("eps",))):
        if c.p.cls(ICM).find(m) is None or c.p.cls(ICM).find(m).cls.name != ICM:
            c.decide(None if m == "set_eps" else False, f"{ICM}.{m}", f"{c.p.cls(ICM).module.rel}:{c.p.cls(ICM).node.lineno}", f"{m} does not reach the wrapped policy")
            continue
        fl = c.flow(m, ICM, opaque=OPQ)
        con = f"{ICM}.{m}"
        ps = pnames(fl)
        cs = icm_calls(fl, m)
        if not cs:
            c.bad(con, fl.entry.where, f"{m} does not reach the wrapped policy")
            continue
        val = lambda t: True if t.k == "call" and callname(t) == "hasattr" else None
        p = find_path([fl.entry_node], [fl.exit_node], [n for n, _ in cs], edge_ok=assume(val))
        c.decide(p is None, con + "/always", fl.entry.where, f"{m} may not reach the wrapped policy: {describe(p)}")
        for n, _ in cs:
            s = sig(n, names)
            for i, x in enumerate(names):
                want = P(ps[i]) if i < len(ps) else None
                t = s[x]
                c.decide(t is want or (False if t is None or t.k in ("param", "const") else None), f"{con}/{x}", n.where, f"the wrapped policy is given {show(t) if t else None} as {x}")
            if m in ("forward", "exploration_noise", "process_fn"):
                for rt in nodes(fl, "return"):
                    if len(rt.stack) == 1:
                        v = rt.d["value"]
                        c.decide(True if v in (n.d["term"], n.d["result"]) else None if any(y is n.d["term"] for y in closure(fl, v)) or m == "process_fn" and v is P(ps[0]) else False, con + "/returned", rt.where, f"{m} returns {show(v)}, not what the wrapped policy computed")


@rule("P07")
def curiosity_rewards_are_added_and_taken_back(c):
    """While the wrapped policy processes and learns, the reward is the original plus the scaled prediction error; afterwards the original is back, unchanged."""
    fl = c.flow("process_fn", ICM, opaque=OPQ)
    con = f"{ICM}.process_fn"
    B = P(pnames(fl)[0])
    REW = Term("attr", B, "rew")
    models = [n.d["term"] for n in nodes(fl, "call") if n.d["fn"] is A("model") or n.d["recv"] is A("model") and n.d["name"] == "forward"]
    st = [x for x in setattrs(fl, "rew", base=B)]
    cs = [n for n, _ in icm_calls(fl, "process_fn")]

    def leaf(t):
        t = strip(t, *CONV)
        if t is REW:
            return X("rew")
        if t is A("reward_scale"):
            return X("scale")
        if t.k in ("sub", "item") and t.a[0] in models:
            i = t.a[1] if t.k == "item" else t.a[1].a[0] if t.a[1].k == "const" else None
            return X("err") if i == 0 else X("pred")
        if t.k == "call" and callname(t) == "to_numpy":
            return None
        if t.k in ("call",) and callname(t) in CONV and operands(t):
            r = rat(operands(t)[0], leaf)
            return r[0] if r[1] == rat(const(1), leaf)[1] else None
        return None

    def conv(t):
        """Polynomial of a reward expression, looking through conversions."""
        if isinstance(t, Term) and t.k in ("bin", "ibin"):
            return Term("bin", t.a[0], conv(t.a[1]), conv(t.a[2]))
        if t.k == "call" and callname(t) in CONV and t is not strip(t, *CONV):
            return conv(strip(t, *CONV))
        return t
    for x in st:
        r = rat(conv(x.d["value"]), leaf)
        want = rat(const(1), leaf)
        n = X("rew") + X("err") * X("scale")
        ats = r[0].atoms() | r[1].atoms()
        c.decide(True if rat_eq(r, (n, want[1])) else False if ats <= {"rew", "err", "scale", "pred"} else None, con + "/reward", x.where, f"the reward becomes ({r[0]}) / ({r[1]})")
    if not st:
        c.bad(con + "/reward", fl.entry.where, "the prediction error is not added to the reward")
    for n in cs:
        p = find_path([fl.entry_node], n, st)
        c.decide(p is None or not st, con + "/before", n.where, "the wrapped policy processes the batch before the prediction error is added")
    # the original reward is remembered, untouched
    saved = None
    names = [k for x in setattrs(fl, base=B) if x.d["attr"] != "rew" for k in ("orig_rew", "rew", "save_rew", "reward") if field(fl, x.d["value"], k) is REW]
    al = Alias(fl, {REW}).mutations()
    c.decide(not al, con + "/original", al[0][0].where if al else "", f"the original reward is changed in place: {al[0][3] if al else ''}")
    for x in setattrs(fl, base=B):
        if x.d["attr"] == "rew":
            continue
        v = x.d["value"]
        if v is REW:
            saved = Term("attr", B, x.d["attr"])
        ks = [k for k, t in v.a[2]] if v.k == "call" else []
        for k in ks:
            if field(fl, v, k) is REW:
                saved = Term("attr", Term("attr", B, x.d["attr"]), k)
            elif field(fl, v, k) is not None and strip(field(fl, v, k), *CONV) is REW:
                saved = Term("attr", Term("attr", B, x.d["attr"]), k)
    fl2 = c.flow("post_process_fn", ICM, opaque=OPQ)
    B2 = P(pnames(fl2)[0])
    bk = [x for x in setattrs(fl2, "rew", base=B2)]
    con = f"{ICM}.post_process_fn"
    p = find_path([fl2.entry_node], [fl2.exit_node], bk)
    c.decide(p is None, con + "/restored", fl2.entry.where, f"the original reward is not put back: {describe(p)}")
    for x in bk:
        v = strip(x.d["value"], *CONV)
        c.decide((v is saved) if saved is not None else None, con + "/original", x.where, f"the reward is put back to {show(x.d['value'])}, but the original is {show(saved) if saved else 'not remembered'}")
    if saved is None:
        later = [x for x in setattrs(fl, base=B) if x.d["attr"] != "rew"]
        c.decide(False if later and all(x.d["value"].k == "call" for x in later) and all("rew" in str([k for k, _ in x.d["value"].a[2]]) for x in later) else None, f"{ICM}.process_fn/remembered", fl.entry.where, "the original reward is not remembered before it is changed")
    lf = c.flow("learn", ICM, opaque=OPQ)
    con = f"{ICM}.learn"
    FW = A("forward_loss_weight")

    def lleaf(t):
        t = strip(t, "mean", "sum", *CONV)
        if t is FW:
            return X("w")
        if t is A("lr_scale"):
            return X("lr")
        if t.k == "call" and callname(t) == "cross_entropy":
            return X("inv")
        if t.k == "attr" and t.a[1] == "mse_loss":
            return X("fwd")
        return None
    for n in nodes(lf, "call"):
        if n.d["name"] == "backward" and len(n.stack) == 1:
            r = rat(n.d["recv"], lleaf)
            one = rat(const(1), lleaf)[1]
            want = ((one - X("w")) * X("inv") + X("w") * X("fwd")) * X("lr")
            ats = r[0].atoms() | r[1].atoms()
            c.decide(True if rat_eq(r, (want, one)) else False if ats <= {"w", "lr", "inv", "fwd"} else None, con + "/loss", n.where, f"the curiosity model is trained on ({r[0]}) / ({r[1]})")


@rule("P07")
def agents_and_columns_agree(c):
    """Policies are assigned to the environment's agents in order, and the reward column of an agent is the position the environment gives it."""
    k = c.p.cls(MAP)
    fl = init_flow(c, k)
    con = f"{MAP}.__init__"
    AG = Term("attr", P("env"), "agents")
    for x in setattrs(fl, "agent_idx", base=SELF):
        c.decide(x.d["value"] is Term("attr", P("env"), "agent_idx") or None, con + "/agent_idx", x.where, "")
    st = setattrs(fl, "policies", base=SELF)
    for x in st:
        v = strip(x.d["value"], "dict")
        if v.k == "call" and callname(v) == "zip":
            a = [strip(y, "list", "tuple") for y in v.a[1]]
            ok = len(a) == 2 and a[0] is AG and a[1] is P("policies")
            c.decide(ok or (False if len(a) == 2 and (a[0].k == "call" or a[1].k == "call" or a[0] is P("policies")) else None), con + "/policies", x.where, f"policies are assigned by {show(v)}")
        else:
            c.und(con + "/policies", "the assignment is built another way")
    if not st:
        c.bad(con + "/policies", fl.entry.where, "the policies are not kept")
    for n in calls(fl, "set_agent_id"):
        a = arg(n, 0, "agent_id")
        r = n.d["recv"]
        ok = a is not None and a.k == "sub" and a.a[0] is AG and a.a[1].k == "idx" and r.k == "elem" and r.a[0] is P("policies") and a.a[1].a[1] == r.a[1] or a is not None and a.k == "elem" and a.a[0] is AG and r.k == "elem" and r.a[1] == a.a[1]
        c.decide(True if ok else False if a is not None and a.k in ("idx", "const") or a is not None and a.k == "sub" and a.a[0] is AG and a.a[1].k in ("bin", "const", "un") else None, con + "/agent ids", n.where, f"policy {show(r)} is told that it plays {show(a) if a else None}")
    env = c.p.cls("PettingZooEnv")
    fl = c.flow("__init__", env, opaque=("reset",))
    con = "PettingZooEnv"
    AGS = A("agents")
    ags = {v for x in setattrs(fl, "agents", base=SELF) for v in values(fl, x.d["value"])} | {AGS}
    idx = [x for x in setsubs(fl) if any(y.d["value"] is x.d["base"] for y in setattrs(fl, "agent_idx", base=SELF)) or x.d["base"] is A("agent_idx")]
    for x in idx:
        i, v = x.d["index"], x.d["value"]
        ok = i.k == "elem" and v.k == "idx" and i.a[1] == v.a[1] and strip(i.a[0], "list", "tuple") in ags
        c.decide(True if ok else False if v.k in ("bin", "const", "un") or i.k == "elem" and i.a[0].k == "call" and callname(i.a[0]) in ("reversed", "sorted") else None, con + ".__init__/agent_idx", x.where, f"agent {show(i)} gets column {show(v)}")
    if not idx:
        c.und(con + ".__init__/agent_idx", "the columns are assigned another way")
    fl = c.flow("step", env)
    ws = [x for x in setsubs(fl, A("rewards"))]
    RW = Term("attr", A("env"), "rewards")
    for x in ws:
        i, v = x.d["index"], x.d["value"]
        ag = i.a[1] if i.k == "sub" and i.a[0] is A("agent_idx") else None
        ok = ag is not None and (ag.k == "key" and v.k == "val" and ag.a[1] == v.a[1] and v.a[0] is RW or v.k == "sub" and v.a[0] is RW and v.a[1] is ag)
        bad = i.k == "idx" or ag is not None and (v.k == "item" or v.k == "const" or ag.k == "attr" and v.k in ("val", "item"))
        c.decide(True if ok else False if bad else None, con + ".step/rewards", x.where, f"reward {show(v)} goes to column {show(i)}")
    p = find_path([fl.entry_node], [fl.exit_node], [h for x in ws for h in nodes(fl, "iter") if x.d["index"].k == "sub" and x.d["index"].a[1].k in ("key", "elem") and h.d.get("lid") == x.d["index"].a[1].a[1]])
    c.decide((p is None) if ws else None, con + ".step/rewards/always", fl.entry.where, f"the rewards are not updated: {describe(p)}")
    last = [n for n in nodes(fl, "call") if n.d["name"] == "last"]
    stp = [n for n in nodes(fl, "call") if n.d["name"] == "step" and n.d["recv"] is A("env")]
    for n in [*last, *[h for h in nodes(fl, "iter") if not h.d.get("comp")]]:
        p = find_path([fl.entry_node], n, stp)
        c.decide(p is None, con + ".step/order", n.where, f"results are read before the step: {describe(p)}")
    for n in nodes(fl, "return"):
        if len(n.stack) != 1 or n.d["value"].k != "tuple" or len(n.d["value"].a[0]) != 5:
            continue
        o, r, te, tr, inf = n.d["value"].a[0]
        src = [x.d["term"] for x in last]
        part = lambda t, i: t.k == "item" and t.a[0] in src and t.a[1] == i or t.k == "sub" and t.a[0] in src and t.a[1] is const(i)
        anyp = lambda t: t.k in ("item", "sub") and t.a[0] in src
        for nm, t, i in (("terminated", te, 2), ("truncated", tr, 3), ("info", inf, 4)):
            c.decide(True if part(t, i) else False if anyp(t) else None, f"{con}.step/{nm}", n.where, f"{nm} is {show(t)}")
        rr = strip(r, "list", "copy", "array", "tuple", "deepcopy")
        c.decide(True if rr is A("rewards") and r is not rr else False if r is A("rewards") else None, con + ".step/rewards returned", n.where, "the live list of rewards is handed out: later steps change rewards already returned")
        for v in values(fl, o):
            ag = field(fl, v, "agent_id")
            if ag is not None:
                c.decide(ag is Term("attr", A("env"), "agent_selection") or None, con + ".step/agent id", n.where, "")
