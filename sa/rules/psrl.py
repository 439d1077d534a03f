"""P12: the posterior of the tabular model-based learner and the policy solved from it."""
from __future__ import annotations

from ..alias import Alias
from ..canon import parse
from ..core import rule
from ..flow import NONE, Term, canon_cond, const, is_call, show, subterms
from ..query import Poly, arg, calls, closure, describe, find_path, guards, nodes, setattrs, setsubs, skey, strip, values
from .util import A, P, SELF, cut, edge_succ, loop_of, rat, rat_eq

MODEL, POLICY = "PSRLModel", "PSRLPolicy"
# attribute -> value after observing, in terms of the attributes before and the four arguments
OBSERVED = {
    "trans_count": "self.trans_count + trans_count",
    "rew_count": "self.rew_count + rew_count",
    "rew_square_sum": "self.rew_square_sum + rew_square_sum",
    "rew_mean": "(self.rew_mean * self.rew_count + rew_sum) / (self.rew_count + rew_count)",
}
VARIANCE = """
n = self.rew_count + rew_count
mean = (self.rew_mean * self.rew_count + rew_sum) / n
raw = (self.rew_square_sum + rew_square_sum) / n - mean * mean
want = 1 / (n / (raw + EPS) + 1 / (self.rew_std_prior * self.rew_std_prior))
"""
KNOWN = {"trans_count", "rew_count", "rew_square_sum", "rew_mean", "rew_std_prior", "rew_std"}


def atom(t):
    """Attributes and parameters are atoms; any other attribute of self in arithmetic is the small constant against division by zero."""
    t = strip(t, "copy", "array", "asarray", "float")
    if t.k == "attr" and t.a[0] is SELF:
        return t.a[1] if t.a[1] in KNOWN else "EPS"
    if t.k == "param":
        return "EPS" if t.a[0] == "EPS" else "p:" + t.a[0]
    if t.k in ("bin", "ibin") and t.a[0] in "+-*/" or t.k == "const":
        return None
    if t.k in ("bin", "ibin") and t.a[0] == "**" and t.a[2].k == "const":
        return None
    if is_call(t, "add", "subtract", "multiply", "divide", "true_divide", "square"):
        return None
    return "?" + skey(t)


def square(t):
    """Square of a value written as a root: the radicand, as a rational function."""
    if is_call(t, "sqrt") and len(t.a[1]) == 1:
        return rat(t.a[1][0], atom)
    if t.k == "bin" and t.a[0] == "**" and t.a[2] is const(0.5):
        return rat(t.a[1], atom)
    if t.k == "bin" and t.a[0] == "/":
        a, b = square(t.a[1]) if t.a[1].k != "const" else (Poly.c(t.a[1].a[0] ** 2), Poly.c(1)), square(t.a[2])
        return (a[0] * b[1], a[1] * b[0])
    n, d = rat(t, atom)
    return n * n, d * d


def known(r):
    return not any("?" in str(k) for p in r for k in p.m)


@rule("P12")
def observations_update_the_posterior(c):
    """Observing adds counts, reward sums and squares, makes the mean that of all observations, and the deviation the posterior one."""
    k = c.p.cls(MODEL)
    fl = c.flow("observe", k)
    for a, text in OBSERVED.items():
        t = fl.end_heap.get((SELF, a))
        ws = setattrs(fl, a, base=SELF)
        where = ws[-1].where if ws else fl.entry.where
        if t is None:
            c.decide(None if ws else False, f"observe/{a}", where, f"{a} does not take up the observations")
            continue
        got, want = rat(t, atom), rat(parse("want = " + text, {"self": SELF})["want"], atom)
        c.decide(True if rat_eq(got, want) else False if known(got) or A(a) not in set(subterms(t)) else None, f"observe/{a}", where, f"{a} becomes {show(t)[:160]} instead of {text}")
    t = fl.end_heap.get((SELF, "rew_std"))
    ws = setattrs(fl, "rew_std", base=SELF)
    if t is None:
        c.decide(None if ws else False, "observe/rew_std", fl.entry.where, "the deviation of the rewards does not take up the observations")
    else:
        got, want = square(t), rat(parse(VARIANCE, {"self": SELF})["want"], atom)
        c.decide(True if rat_eq(got, want) else False if known(got) else None, "observe/rew_std", ws[-1].where if ws else fl.entry.where, f"the deviation becomes {show(t)[:160]}")


@rule("P12")
def new_observations_need_a_new_solution(c):
    """After observing, the policy is solved again before the next action; it is solved once, not for every action."""
    k = c.p.cls(MODEL)
    fl = c.flow("observe", k)
    t = fl.end_heap.get((SELF, "updated"))
    vs = values(fl, t) if t is not None else []
    ws = [n for n in setattrs(fl, "updated", base=SELF) if n.d["value"] is const(False)]
    pth = find_path(fl.entry_node, fl.exit_node, ws)
    c.decide(bool(vs) and all(v is const(False) for v in vs) and pth is None, "observe/outdated", fl.entry.where, f"the old policy is kept although the model has changed: {describe(pth)}")
    fl = c.flow("__call__", k, opaque=("solve_policy",))
    ss = calls(fl, "solve_policy")
    stale = cut(lambda x: x is A("updated"), False)
    pth = find_path(fl.entry_node, fl.exit_node, ss, edge_ok=stale)
    c.decide(bool(ss) and pth is None, "act/solved first", fl.entry.where, f"an action is chosen from an outdated policy: {describe(pth)}")
    for n in ss:
        c.decide(any(g is A("updated") and not pol for g, pol in guards(fl, n)) or (None if any(A("updated") in set(subterms(g)) for g, _ in guards(fl, n)) else False), "act/only when outdated", n.where, "the model is solved again for every action")
    fl = c.flow("__call__", k)
    for v in values(fl, fl.ret_value):
        ok = v.k == "sub" and v.a[1] is P("obs")
        c.decide(ok or (False if v.k == "sub" else None), "act/of the observation", fl.entry.where, f"the action is {show(v)[:120]}, not the policy's at the observation")
    fl = c.flow("solve_policy", k)
    ws = [n for n in setattrs(fl, "updated", base=SELF) if n.d["value"] is const(True)]
    pth = find_path(fl.entry_node, fl.exit_node, ws)
    c.decide(pth is None or None, "solve/marked", fl.entry.where, "a solved policy is not marked as current")


@rule("P12")
def policy_is_solved_for_a_sample_of_the_posterior(c):
    """Solving draws transition probabilities and rewards from the posterior, iterates the Bellman equation until it converges, and takes the maximising actions."""
    k = c.p.cls(MODEL)
    fl = c.flow("solve_policy", k, opaque=("value_iteration",))
    vi = calls(fl, "value_iteration")
    if not vi:
        c.und("solve", "value iteration not found")
    g = c.flow("value_iteration", k)
    for n in vi:
        tp, rw = arg(n, 0, "trans_prob"), arg(n, 1, "rew")
        df, ep, v0 = arg(n, 2, "discount_factor"), arg(n, 3, "eps"), arg(n, 4, "value")
        inside = lambda t, a: t is not None and A(a) in closure(fl, t)
        c.decide(inside(tp, "trans_count") and any(is_call(x, "Dirichlet") for x in closure(fl, tp)) or (None if inside(tp, "trans_count") and any(is_call(x, "sample", "rsample", "dirichlet", "gamma", "standard_gamma") for x in closure(fl, tp)) else False), "solve/transitions", n.where,
                 f"transition probabilities are {show(tp or NONE)[:120]}, not drawn from the counted transitions")
        nr = [x for x in closure(fl, rw) if is_call(x, "normal", "Normal")] if rw is not None else []
        if nr:
            a = list(nr[0].a[1]) + [v for _, v in nr[0].a[2]]
            c.decide(len(a) >= 2 and strip(a[0], "from_numpy", "as_tensor") is A("rew_mean") and strip(a[1], "from_numpy", "as_tensor") is A("rew_std"), "solve/rewards", n.where, f"rewards are drawn by {show(nr[0])[:120]}")
        else:
            c.decide(None if inside(rw, "rew_mean") and inside(rw, "rew_std") else False, "solve/rewards", n.where, f"rewards are {show(rw or NONE)[:120]}, not drawn from their posterior")
        c.decide(df is A("discount_factor") or (None if df is None else False), "solve/discount", n.where, f"discounted by {show(df or NONE)}")
        c.decide(ep is A("eps") or None, "solve/precision", n.where, "solved with another precision")
        for a, i in (("policy", 0), ("value", 1)):
            t = fl.end_heap.get((SELF, a))
            c.decide(None if t is None else t is Term("item", n.d["result"], i), f"solve/{a}", n.where, f"{a} becomes {show(t or NONE)[:100]}")
    fl = g
    tp, rw, df, v0 = P("trans_prob"), P("rew"), P("discount_factor"), P("value")

    def back(t, v):
        """Is t the backup rew + discount * trans_prob . v of the value v?"""
        rest = []
        todo = [t]
        while todo:
            x = todo.pop()
            if x.k in ("bin", "ibin") and x.a[0] == "+":
                todo += x.a[1:3]
            else:
                rest.append(x)
        if len(rest) != 2 or rw not in rest:
            return False if rw not in set(subterms(t)) or df not in set(subterms(t)) else None
        y = rest[0] if rest[1] is rw else rest[1]
        if y.k not in ("bin", "ibin") or y.a[0] != "*":
            return False
        f = [y.a[1], y.a[2]]
        if df not in f:
            return None
        z = f[0] if f[1] is df else f[1]
        if is_call(z, "dot", "matmul"):
            ops = ([z.a[0].a[0]] if z.a[0].k == "attr" and z.a[0].a[0].k != "global" else []) + list(z.a[1])
        elif z.k == "bin" and z.a[0] == "@":
            ops = list(z.a[1:3])
        else:
            return None
        return ops == [tp, v]

    def greedy(t):
        """Operand whose maximum over actions t is (None if t is no such maximum), and whether the axis is that of the actions."""
        if not is_call(t, "max", "amax"):
            return None, None
        op = t.a[0].a[0] if t.a[0].k == "attr" and t.a[0].a[0].k != "global" else t.a[1][0] if t.a[1] else None
        ax = dict(t.a[2]).get("axis", t.a[1][-1] if t.a[1] and t.a[1][-1].k == "const" else None)
        return op, ax in (const(1), const(-1))

    n = 0
    for lp, vs in fl.loops.items():
        qs = [(lp, v) for v in vs]
        for _, v in qs:
            q, ax = greedy(v)
            if q is None or q.k == "loopphi":
                continue
            n += 1
            cand = [v0] + [x for x in fl.loops if x is lp] + [x for x in fl.loops if v0 in fl.loops[x]]
            rs = [back(q, v0 if v is vs[0] and len(vs) > 1 else lp)]
            others = [x for x in cand if x is not lp and v is not vs[0] and back(q, x) is True]
            r = True if True in rs else False if others else None if None in rs else False
            c.decide(r, "iterate/backup", fl.entry.where, f"values are backed up as {show(q)[:160]} instead of reward plus discounted expected value")
            c.decide(ax, "iterate/over actions", fl.entry.where, f"the maximum {show(v)[:120]} is not taken over the actions")
    if not n:
        c.und("iterate/backup", "no maximum of a backup")
    brs = [b for b in nodes(fl, "branch") if find_path(b, b, skip_start=True) is not None and is_call(canon_cond(b.d["cond"])[0], "allclose", "all", "any", "isclose") or b.kind == "branch" and "eps" in skey(b.d["cond"])]
    for b in brs:
        x, pol = canon_cond(b.d["cond"])
        if is_call(x, "allclose"):
            again = find_path(edge_succ(b, "F" if pol else "T"), b, skip_start=False)
            done = find_path(edge_succ(b, "T" if pol else "F"), b, skip_start=False)
            c.decide(again is not None and done is None, "iterate/until converged", b.where, "iteration stops before the values have converged, or goes on afterwards")
            a = list(x.a[1][:2])
            c.decide(len(a) == 2 and a[0] is not a[1], "iterate/compared", b.where, f"convergence is judged by comparing {show(x)[:120]}")
        else:
            c.und("iterate/until converged", show(x)[:120])
    for v in values(fl, fl.ret_value):
        if v.k != "tuple" or len(v.a[0]) != 2:
            c.und("iterate/result", show(v)[:100])
            continue
        pi, val = v.a[0]
        if is_call(pi, "argmax"):
            ax = dict(pi.a[2]).get("axis", pi.a[1][-1] if pi.a[1] and pi.a[1][-1].k == "const" else None)
            c.decide(ax in (const(1), const(-1)), "iterate/policy axis", fl.entry.where, f"the policy is {show(pi)[:120]}")
            op = pi.a[0].a[0] if pi.a[0].k == "attr" and pi.a[0].a[0].k != "global" else pi.a[1][0]
            heads = [x for x in subterms(op) if x.k == "loopphi"] or [op]
            c.decide(any(back(w, y) is True for h in heads for w in fl.loops.get(h, (h,)) for y in [v0, *fl.loops]) or None, "iterate/policy", fl.entry.where, f"the policy maximises {show(op)[:120]}")
            mult = [x for x in subterms(op) if x.k in ("bin", "ibin") and x.a[0] == "+" and any(is_call(y, "randn", "normal", "rand", "standard_normal") for y in subterms(x))]
            for x in mult:
                c.decide(any(P("eps") in set(subterms(y)) for y in x.a[1:3]) or False, "iterate/tie noise", fl.entry.where, f"ties are broken by noise that is not scaled down: {show(x)[:120]}")
        else:
            c.decide(False if is_call(pi, "argmin") else None, "iterate/policy", fl.entry.where, f"the policy is {show(pi)[:120]}")


@rule("P12")
def every_transition_is_counted_once(c):
    """Learning counts each transition of the batch at its own state, action and next state, and hands all sums to the model."""
    k = c.p.cls(POLICY)
    fl = c.flow("learn", k, opaque=("split", "observe"))
    ob = [n for n in calls(fl, "observe") if n.d["recv"] is A("model")]
    if not ob:
        c.bad("learn/observed", fl.entry.where, "what was learned never reaches the model")
        return
    pth = find_path(fl.entry_node, fl.exit_node, ob)
    c.decide(pth is None, "learn/observed", fl.entry.where, f"what was learned does not reach the model: {describe(pth)}")
    o = ob[0]
    acc = {"trans_count": arg(o, 0, "trans_count"), "rew_sum": arg(o, 1, "rew_sum"), "rew_square_sum": arg(o, 2, "rew_square_sum"), "rew_count": arg(o, 3, "rew_count")}
    wants = {"trans_count": (("obs", "act", "obs_next"), None), "rew_sum": (("obs", "act"), "rew"), "rew_square_sum": (("obs", "act"), "rew2"), "rew_count": (("obs", "act"), None)}
    loops = set()
    for nm, (idx, val) in wants.items():
        con = f"learn/{nm}"
        t = acc[nm]
        if t is None or not is_call(t, "zeros", "zeros_like"):
            c.decide(None if t is None or t.k != "const" else False, con, o.where, f"the model is given {show(t or NONE)[:80]} as {nm}")
            continue
        ws = [n for n in setsubs(fl) if n.d["base"] is t]
        adds = [n for n in nodes(fl, "call") if n.d["name"] == "at" and n.d["args"] and n.d["args"][0] is t]
        if adds and not ws:
            c.und(con, "accumulated by numpy.add.at")
            continue
        main = []
        for n in ws:
            i = n.d["index"]
            es = i.a[0] if i.k == "tuple" else (i,)
            if any(e.k == "slice" for e in es):
                continue
            names = tuple(strip(e, "int", "item").a[1] if strip(e, "int", "item").k == "attr" else strip(e, "int", "item").a[0].a[1] if e.k == "sub" and e.a[0].k == "attr" else "?" for e in es)
            bases = {strip(e, "int", "item").a[0] if strip(e, "int", "item").k == "attr" else None for e in es}
            if bases == {P("batch")} and n.d["aug"]:
                c.bad(con + "/each", n.where, "all transitions are counted by one indexed addition, in which repeated transitions count only once")
                continue
            c.decide(names == idx or (None if "?" in names else False), con + "/place", n.where, f"counted at {names} instead of {idx}")
            r = n.d["rhs"]
            if not n.d["aug"] or n.d["op"] != "+":
                c.decide(False if n.d["aug"] or n.d["value"].k == "const" else None, con + "/added", n.where, "transitions are not added up")
                continue
            if val is None:
                good = r is const(1) or r is const(1.0) or (None if r is None or r.k != "const" else False)
            else:
                isrew = lambda x: strip(x, "int", "float", "item").k == "attr" and strip(x, "int", "float", "item").a[1] == "rew"
                if val == "rew":
                    good = isrew(r) or (None if r.k not in ("attr", "bin", "const") else False)
                else:
                    good = (r.k == "bin" and (r.a[0] == "**" and r.a[2] is const(2) and isrew(r.a[1]) or r.a[0] == "*" and isrew(r.a[1]) and isrew(r.a[2]))) or (is_call(r, "square") and isrew(r.a[1][0])) or (False if r.k == "attr" or r.k == "bin" else None)
            c.decide(good, con + "/amount", n.where, f"each transition adds {show(r)[:100]}")
            main.append(n)
            lp = next((loop_of(fl, x) for e in es for x in subterms(e) if x.k in ("elem", "idx") and loop_of(fl, x) is not None), None)
            if lp is not None:
                loops.add(lp)
                pth = find_path(edge_succ(lp, "next"), [lp], [n], skip_start=False)
                c.decide(pth is None, con + "/every transition", n.where, f"a transition is not counted: {describe(pth)}")
                pth = find_path(n, [n], [lp])
                c.decide(pth is None, con + "/once", n.where, "a transition is counted twice")
                pth = find_path(lp, o, [n])
        if not main:
            c.decide(False if all(n.d["index"].k == "tuple" and any(e.k == "slice" for e in n.d["index"].a[0]) for n in ws) else None, con, o.where, f"{nm} is handed to the model without having been counted")
    for lp in loops:
        s = lp.d["it"]
        if is_call(s, "split"):
            z = [a for a in s.a[1]] + [v for kk, v in s.a[2] if kk == "size"]
            c.decide(bool(z) and z[0] is const(1) or (None if not z or z[0].k != "const" else False), "learn/one by one", lp.where, f"the batch is cut into pieces of {show(z[0]) if z else '?'}: repeated transitions in a piece count once")
            c.decide(s.a[0].a[0] is P("batch") or None, "learn/whole batch", lp.where, f"learns from {show(s)[:100]}")
        pth = find_path(edge_succ(lp, "next"), ob, [lp], skip_start=False)
        c.decide(pth is None, "learn/all before observing", lp.where, f"the model is updated before every transition was counted: {describe(pth)}")
    # the optional self-loop of terminal states
    loopcuts = [n for n in setsubs(fl) if n.d["index"].k == "tuple" and any(e.k == "slice" for e in n.d["index"].a[0]) and n.d["base"] in acc.values()]
    for n in loopcuts:
        g = guards(fl, n)
        c.decide(any(x is A("_add_done_loop") and pol for x, pol in g) or None if any(x is A("_add_done_loop") for x, _ in g) or any("add_done" in skey(x) for x, _ in g) else False, "learn/self-loop asked for", n.where, "terminal states get a self-loop although it was not asked for")
        c.decide(any(pol and x.k == "attr" and x.a[1] in ("done", "terminated") for x, pol in g) or None if any("done" in skey(x).replace("_add_done_loop", "") or "terminated" in skey(x) for x, _ in g) else False, "learn/self-loop at the end", n.where, "states that do not end an episode get a self-loop")
        at = {strip(e, "int", "item").a[1] for e in n.d["index"].a[0] if strip(e, "int", "item").k == "attr"}
        c.decide(at == {"obs_next"} or None if at <= {"obs_next"} else False, "learn/self-loop place", n.where, f"the self-loop is put at {sorted(at)}")


@rule("P12")
def prior_is_taken_as_given(c):
    """The model starts from the given prior and never writes into the caller's arrays."""
    k = c.p.cls(MODEL)
    fl = c.flow("__init__", k)
    end = fl.end_heap
    for a, p in (("trans_count", "trans_count_prior"), ("rew_mean", "rew_mean_prior"), ("rew_std", "rew_std_prior"), ("rew_std_prior", "rew_std_prior"), ("discount_factor", "discount_factor"), ("eps", "epsilon")):
        t = end.get((SELF, a))
        if t is None:
            c.und(f"prior/{a}", "not set")
            continue
        u = strip(t, "copy", "deepcopy", "array", "astype", "float")
        c.decide(u is P(p) or (False if u.k == "param" or u.k == "const" else None), f"prior/{a}", fl.entry.where, f"{a} starts as {show(t)[:80]} instead of {p}")
    t = end.get((SELF, "rew_square_sum"))
    c.decide(None if t is None else is_call(t, "zeros", "zeros_like") or None, "prior/rew_square_sum", fl.entry.where, "squares of rewards start at a value other than zero")
    t = end.get((SELF, "rew_count"))
    if t is not None and is_call(t, "full", "full_like"):
        v = t.a[1][1] if len(t.a[1]) > 1 else dict(t.a[2]).get("fill_value")
        c.decide(v is P("epsilon"), "prior/rew_count", fl.entry.where, f"the prior mean counts {show(v or NONE)} observations")
    else:
        c.decide(None if t is None or not is_call(t, "ones", "ones_like") else False, "prior/rew_count", fl.entry.where, f"counts start at {show(t or NONE)[:80]}")
    t = end.get((SELF, "updated"))
    c.decide(None if t is None else t is const(False), "prior/unsolved", fl.entry.where, "a new model counts as solved although it has no policy")
    held = {a: strip(end.get((SELF, a)), "astype") for a in ("trans_count", "rew_mean", "rew_std", "rew_std_prior") if end.get((SELF, a)) is not None}
    for m in ("observe", "solve_policy", "__call__"):
        fl = c.flow(m, k)
        for a, t in held.items():
            if t.k != "param":
                c.ok(f"prior/{m}/{a} own copy", fl.entry.where)
                continue
            ms = Alias(fl, {A(a)}).mutations()
            n = (ms[0][0] if isinstance(ms[0], tuple) else ms[0]) if ms else None
            c.decide(not ms, f"prior/{m}/{a} untouched", n.where if n is not None else fl.entry.where, f"writes into the caller's {t.a[0]}, which another model may start from")
