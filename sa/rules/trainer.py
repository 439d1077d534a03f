"""Trainers, loggers, moving averages."""
from __future__ import annotations

import ast

from ..alias import Alias
from ..core import rule
from ..flow import FALSE, NONE, TRUE, Term, canon_cond, const, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import Poly, arg, calls, closure, describe, find_path, guards, nodes, poly, setattrs, setsubs, skey, strip, values
from .util import A, P, SELF, both, cut, edge_succ, find_branch, iter_heads, loop_of, rat, rat_eq

BASE = "tianshou.trainer.base.BaseTrainer"
MARK = "is_within_training_step"
OPQ = ("collect", "update", "log_train_data", "log_test_data", "log_update_data", "log_info_data", "save_data", "gather_info", "reset_buffer", "hasnull", "from_sequence",
       "set_numerical_fields_to_precision", "_update_moving_avg_stats_and_log_update_data", "restore_data")
TRAIN, TEST = A("train_collector"), A("test_collector")
POLICY = A("policy")
BEST = ("best_score", "best_reward", "best_reward_std", "best_epoch")


def trainers(c):
    out = [k for k in c.p.subclasses(BASE) if k.qual != BASE and not abstract(k)]
    if not out:
        raise AnalysisBroken("no concrete trainer class found")
    return sorted(out, key=lambda k: k.qual)


def abstract(k):
    f = k.find("policy_update_fn")
    return f is None or any("abstractmethod" in ast.unparse(d) for d in f.node.decorator_list)


def reaching(n, stores, exc=True):
    """Stores of the given set that may be the last one executed before node n (None = function entry)."""
    ids = {s.id for s in stores}
    out, seen, st = [], {n.id}, [n]
    while st:
        x = st.pop()
        if x.kind == "entry":
            out.append(None)
        for q, l in x.pred:
            if q.id in seen:
                continue
            seen.add(q.id)
            if q.id in ids:
                # the raising edge of a store: the store itself cannot raise
                if not (q.kind == "setattr" and l == "exc"):
                    out.append(q)
                continue
            st.append(q)
    return out


def alts(t):
    """Alternatives of a merged value."""
    if t.k == "phi":
        return [v for x in t.a[0] for v in alts(x)]
    return [t]


def collects(fl, recv):
    return [n for n in calls(fl, "collect") if n.d["recv"] is recv or (n.d["recv"] is not None and recv in alts(n.d["recv"]))]


def updates(fl):
    return [n for n in calls(fl, "update") if n.d["recv"] is POLICY]


def marks(fl, base=None):
    return setattrs(fl, MARK, base=base)


def exits(fl):
    live = {n.id for n in nodes(fl)}
    return [n for n in (fl.exit_node, fl.raise_exit) if n.id in live]


# ------------------------------------------------------------------ T01
@rule("T01")
def marker_is_set_while_collecting_and_updating(c):
    """In every trainer the policy's marker is on at each collection of training data and each update, off at each test collection."""
    for k in trainers(c):
        for m in ("__next__", "training_step", "test_step", "reset"):
            fl = c.flow(m, k, opaque=OPQ)
            st = marks(fl, POLICY)
            ent = Term("attr", POLICY, MARK)
            for n in collects(fl, TRAIN) + updates(fl):
                rs = reaching(n, st)
                vs = [v for r in rs if r is not None for v in alts(r.d["value"])]
                what = "training data are collected" if n.d["name"] == "collect" else "the policy is updated"
                bad = (None in rs) or any(v is FALSE or v is ent for v in vs)
                c.decide(False if bad else (all(v is TRUE for v in vs) or None), f"{k.name}.{m}/{n.d['name']}", n.where, f"{what} without the training-step marker being set")
            for n in collects(fl, TEST):
                rs = reaching(n, st)
                vs = [v for r in rs if r is not None for v in alts(r.d["value"])]
                c.decide(False if any(v is TRUE for v in vs) else (all(v is FALSE or v is ent for v in vs) or None), f"{k.name}.{m}/test", n.where,
                         "test episodes are collected while the training-step marker is set")


@rule("T01")
def marker_is_restored(c):
    """Whoever changes the marker puts the earlier value back on every way out, errors included."""
    for f in sorted(c.p.funcs.values(), key=lambda f: f.qual):
        if f.name in ("__init__", "__setstate__") or not any(isinstance(x, ast.Attribute) and x.attr == MARK and isinstance(x.ctx, ast.Store) or
                                                            isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, "id", None) or getattr(x, "attr", None)) == "policy_within_training_step" for x in ast.walk(f.node)):
            continue
        fl = c.flow(f, opaque=("learn", "process_fn", "post_process_fn", "forward", "exploration_noise", "collect", "update", "policy_update_fn", "test_episode", "from_sequence"))
        check_restored(c, fl, f.qual.split("tianshou.")[-1])
    for k in trainers(c):
        for m in ("__next__", "reset", "run", "test_step"):
            check_restored(c, c.flow(m, k, opaque=OPQ), f"{k.name}.{m}")


def check_restored(c, fl, con):
    st = marks(fl)
    for b in {skey(n.d["base"]): n.d["base"] for n in st}.values():
        mine = [n for n in st if skey(n.d["base"]) == skey(b)]
        for x in exits(fl):
            rs = [r for r in reaching(x, mine) if r is not None]
            vs = [v for r in rs for v in alts(r.d["value"])]
            back = lambda v: v.k == "attr" and v.a[1] == MARK and skey(v.a[0]) == skey(b)
            bad = [r for r in rs if any(not back(v) for v in alts(r.d["value"]))]
            firm = [r for r in bad if any(v.k in ("const", "param", "un") or v.k == "attr" and not back(v) for v in alts(r.d["value"]))]
            c.decide(False if firm else (True if not bad else None), f"{con}/{'errors' if x is fl.raise_exit else 'exit'}", firm[0].where if firm else "",
                     f"{show(b)}.{MARK} = {show(firm[0].d['value']) if firm else '?'} is not undone when {'an exception leaves' if x is fl.raise_exit else 'leaving'} {con}")
    # a context manager hands over control exactly between change and restore
    for y in nodes(fl, "yield"):
        if len(y.stack) != 1 or not st:
            continue
        rs = reaching(y, st)
        c.decide(None not in rs and all(P("enabled") in alts(r.d["value"]) or r.d["value"].k == "const" for r in rs) if rs else None, con + "/yield", y.where, "control is handed over before the marker is set as requested")


@rule("T01")
def update_outside_training_step_is_refused(c):
    """Every policy's update raises when the marker is off, before touching data or weights."""
    base = c.p.cls("BasePolicy")
    work = ("sample", "process_fn", "learn", "post_process_fn")
    seen = set()
    for k in [base] + sorted(c.p.subclasses(base.qual), key=lambda k: k.qual):
        f = k.find("update")
        if f is None or f.qual in seen:
            continue
        seen.add(f.qual)
        fl = c.flow(f, k, opaque=work)
        off = cut(lambda x: x is A(MARK), False)
        ws = [n for n in calls(fl, *work)]
        if not ws:
            continue
        pth = find_path(fl.entry_node, ws, edge_ok=off)
        c.decide(pth is None, f"{k.name}.update/works", ws[0].where, f"a policy outside a training step is updated: {describe(pth)}")
        pth = find_path(fl.entry_node, fl.exit_node, edge_ok=off)
        c.decide(pth is None, f"{k.name}.update/refuses", fl.entry.where, "update() outside a training step returns instead of raising")
        on = cut(lambda x: x is A(MARK), True)
        c.decide(find_path(fl.entry_node, ws, edge_ok=on) is not None, f"{k.name}.update/allowed", fl.entry.where, "update() never reaches its work although the marker is set")


@rule("T01")
def marker_starts_off(c):
    """A policy is born, and unpickled from older files, with the marker off."""
    base = c.p.cls("BasePolicy")
    fl = c.flow("__init__", base)
    st = setattrs(fl, MARK, base=SELF)
    c.decide(bool(st) and all(n.d["value"] is FALSE for n in st) and find_path(fl.entry_node, fl.exit_node, st) is None, "BasePolicy.__init__", fl.entry.where, "a new policy is not outside of training steps")
    if base.find("__setstate__"):
        fl = c.flow("__setstate__", base)
        ss = [n for n in setsubs(fl) if n.d["index"] is const(MARK)]
        for n in ss:
            c.decide(n.d["value"] is FALSE, "BasePolicy.__setstate__", n.where, "unpickled policies start inside a training step")


# ------------------------------------------------------------------ T02
def test_flows(c):
    for k in trainers(c):
        for m in ("__next__", "test_step", "reset"):
            yield k, m, c.flow(m, k, opaque=OPQ)


@rule("T02")
def each_test_starts_fresh(c):
    """Before every test collection the test collector is reset and the user's test hook is called, since the previous one."""
    n_ = 0
    for k, m, fl in test_flows(c):
        tcs = collects(fl, TEST)
        for tc in tcs:
            n_ += 1
            con = f"{k.name}.{m}"
            starts = [fl.entry_node] + tcs
            rs = [n for n in calls(fl, "reset") if n.d["recv"] is TEST]
            pth = find_path(starts, tc, rs)
            c.decide(pth is None, con + "/reset", tc.where, f"test episodes continue on a test collector that was not reset: {describe(pth)}")
            for n in rs:
                e = n.d["kw"].get("reset_env")
                if e is FALSE:
                    c.bad(con + "/reset", n.where, "the environments of the test collector are not reset")
            hook = A("test_fn")
            hs = [n for n in nodes(fl, "call") if n.d["fn"] is hook]
            pth = find_path(starts, tc, hs, edge_ok=cut(lambda x: x is hook, True))
            c.decide(pth is None, con + "/test_fn", tc.where, f"test episodes run without calling test_fn first: {describe(pth)}")
            for h in hs:
                a0, a1 = arg(h, 0), arg(h, 1)
                if a0 is None or a1 is None:
                    c.bad(con + "/test_fn args", h.where, "test_fn is not given the epoch and the environment step")
                    continue
                c.decide(epochish(a0) , con + "/test_fn epoch", h.where, f"test_fn is called with {show(a0)[:60]} for the epoch")
                c.decide(stepish(fl, a1), con + "/test_fn step", h.where, f"test_fn is called with {show(a1)[:60]} for the environment step")
            ne = arg(tc, 1, "n_episode")
            ns = arg(tc, 0, "n_step")
            rnd = arg(tc, 2, "random")
            c.decide(ne is A("episode_per_test") if ne is None or ne.k in ("const", "attr") else None, con + "/episodes", tc.where, f"a test collects n_episode={show(ne) if ne else None} instead of the configured number")
            c.decide(ns in (None, NONE), con + "/steps", tc.where, "a test collects a number of steps instead of whole episodes")
            c.decide(rnd in (None, FALSE), con + "/random", tc.where, "a test runs random actions instead of the policy")
    if not n_:
        raise AnalysisBroken("no trainer collects test episodes")


def epochish(t):
    for v in alts(t):
        u = v
        if u.k == "bin" and u.a[0] == "+" and u.a[2].k == "const":
            u = u.a[1]
        if u.k == "attr" and u.a[1] in ("epoch", "start_epoch"):
            continue
        if u.k in ("item", "sub") and is_restore(u.a[0]):
            i = u.a[1]
            i = i.a[0] if isinstance(i, Term) and i.k == "const" else i
            if i == 0:
                continue
            return False
        if u.k in ("attr", "const"):
            return False
        sb = list(subterms(u))
        if any(x.k == "attr" and x.a[1] in ("env_step", "n_collected_steps", "_gradient_step", "env_episode") for x in sb) and not any(x.k == "attr" and x.a[1] in ("epoch", "start_epoch") for x in sb):
            return False
        return None
    return True


def is_restore(t):
    return is_call(t, "restore_data")


def stepish(fl, t):
    """Environment-step value: built from env_step / collected steps / gradient steps x batch / second restored number."""
    for v in alts(t):
        if v.k == "const" and v.a[0] == 0:
            continue
        if v.k == "loopphi":
            continue
        cl = list(subterms(v))
        if v.k == "attr" and v.a[1] in ("epoch", "start_epoch", "_gradient_step", "env_episode"):
            return False
        if v.k in ("item", "sub") and is_restore(v.a[0]):
            i = v.a[1]
            i = i.a[0] if isinstance(i, Term) and i.k == "const" else i
            if i != 1:
                return False
            continue
        if any(x.k == "attr" and x.a[1] in ("env_step", "_gradient_step", "n_collected_steps") for x in cl):
            continue
        return None
    return True


@rule("T02")
def tests_leave_training_alone(c):
    """A test phase calls nothing on the train collector or the training buffer and does not update the policy."""
    for k in trainers(c):
        fl = c.flow("test_step", k, opaque=OPQ)
        bad = [n for n in nodes(fl, "call") if n.d["recv"] is not None and not n.d["inlined"] and (n.d["recv"] in (TRAIN, A("buffer"), A("buffer", TRAIN)))]
        bad = [n for n in bad if n.d["name"] in ("collect", "reset", "reset_env", "reset_buffer", "reset_stat", "add", "update", "set_batch", "_reset_env_with_ids", "close")]
        bad += [n for n in nodes(fl, "call") if n.d["recv"] is POLICY and n.d["name"] in ("update", "learn", "process_fn", "post_process_fn", "load_state_dict", "train")]
        bad += [n for n in setattrs(fl) if n.d["base"] in (TRAIN, A("buffer"), POLICY) and n.d["attr"] != MARK]
        bad += [n for n in setattrs(fl, "env_step", "env_episode", "_gradient_step", "epoch", base=SELF)]
        c.decide(not bad, f"{k.name}.test_step", bad[0].where if bad else "", f"a test phase touches what is being trained: {bad[0] if bad else ''}"[:200])
    fl = c.flow("tianshou.trainer.utils.test_episode", opaque=OPQ)
    bad = [n for n in nodes(fl, "call") if n.d["name"] in ("update", "learn")]
    c.decide(not bad, "test_episode", bad[0].where if bad else "", "test episodes update the policy")


@rule("T02")
def collection_runs_in_evaluation_mode_and_restores_it(c):
    """Collectors switch the policy to evaluation mode before stepping it and restore the mode found, errors included."""
    base = c.p.cls("BaseCollector")
    for k in [base] + sorted(c.p.subclasses(base.qual), key=lambda k: k.qual):
        fl = c.flow("collect", k, opaque=("_collect", "reset", "hasnull", "isnull"))
        tr = [n for n in calls(fl, "train", "eval") if n.d["recv"] is POLICY]
        work = calls(fl, "_collect")
        ent = Term("attr", POLICY, "training")

        def modeof(n):
            if n.d["name"] == "eval":
                return FALSE
            return arg(n, 0, "mode") or TRUE
        for w in work:
            rs = reaching(w, tr)
            c.decide(None not in rs and all(modeof(r) is FALSE for r in rs), f"{k.name}.collect/eval", w.where, "data are collected with the policy's networks in training mode")
        for x in exits(fl):
            if find_path(work, x, exc=True) is None:
                continue
            rs = [r for r in reaching(x, tr) if r is not None]
            bad = [r for r in rs if modeof(r) is not ent and find_path(work, x, tr, exc=True) is not None or modeof(r).k == "const" and find_path(r, work) is None and find_path(work, r, exc=True)]
            c.decide(not bad, f"{k.name}.collect/restore", bad[0].where if bad else "", "the networks' mode found before collection is not restored afterwards")
    fl = c.flow("tianshou.utils.torch_utils.torch_train_mode")
    ms = calls(fl, "train", "eval")
    ys = [y for y in nodes(fl, "yield")]
    for y in ys:
        rs = reaching(y, ms)
        c.decide(None not in rs and all(r.d["name"] == "train" and arg(r, 0, "mode") is P("enabled") for r in rs), "torch_train_mode/enter", y.where, "the requested mode is not set before the block runs")
    for x in exits(fl):
        rs = reaching(x, ms)
        want = Term("attr", P("module"), "training")
        bad = [r for r in rs if r is not None and (r.d["name"] != "train" or arg(r, 0, "mode") is not want) and find_path(ys, x, [q for q in ms if q is not r], exc=True)]
        c.decide(not bad, "torch_train_mode/leave", bad[0].where if bad else "", f"the earlier mode is not restored {'on errors' if x is fl.raise_exit else 'afterwards'}")


# ------------------------------------------------------------------ T03
def truthy(name):
    return cut(lambda x: x is A(name) or (x.k == "cmp" and x.a[0] in ("is", "==") and NONE in x.a and A(name) in x.a), True)


def hook_on(name):
    """Only paths on which the hook `name` is set."""
    def ok(n, m, l):
        if n.kind != "branch" or l not in ("T", "F"):
            return True
        x, pol = canon_cond(n.d["cond"])
        if x is A(name):
            return (l == "T") == pol
        if x.k == "cmp" and A(name) in x.a and NONE in x.a:
            return (l == "T") != pol
        return True
    return ok


def hook_calls(fl, name):
    return [n for n in nodes(fl, "call") if n.d["fn"] is A(name)]


@rule("T03")
def best_values_move_together(c):
    """Score, reward, deviation and epoch of the best policy are replaced together, and the save hook runs with the policy each time."""
    tot = 0
    for k in trainers(c):
        for m in ("test_step", "training_step", "reset"):
            fl = c.flow(m, k, opaque=OPQ)
            con = f"{k.name}.{m}"
            tcs = collects(fl, TEST)
            by = {a: setattrs(fl, a, base=SELF) for a in BEST}
            saves = hook_calls(fl, "save_best_fn")
            if not tcs:
                continue
            for a in BEST:
                for s in by[a]:
                    tot += 1
                    for b in BEST:
                        if b == a:
                            continue
                        pre = find_path([fl.entry_node] + tcs, s, by[b])
                        post = find_path(s, fl.exit_node, by[b] + tcs)
                        c.decide(pre is None or post is None, f"{con}/{a}+{b}", s.where, f"{a} is replaced without replacing {b}: {describe(post)}")
                    on = hook_on("save_best_fn")
                    pre = find_path([fl.entry_node] + tcs, s, saves, edge_ok=on)
                    post = find_path(s, fl.exit_node, saves, edge_ok=on)
                    c.decide(pre is None or post is None, f"{con}/{a}+save", s.where, f"{a} is replaced without calling save_best_fn: {describe(post)}")
            for s in saves:
                c.decide(arg(s, 0) is POLICY, con + "/saved", s.where, "save_best_fn is not given the trained policy")
                if m != "reset":
                    pre = find_path([fl.entry_node] + tcs, s, by["best_score"])
                    post = find_path(s, fl.exit_node, by["best_score"])
                    c.decide(pre is None or post is None, con + "/save only best", s.where, "save_best_fn is called for a policy that is not the best")
        fl = c.flow("reset", k, opaque=OPQ)
        pth = find_path(fl.entry_node, fl.exit_node, hook_calls(fl, "save_best_fn"), edge_ok=hook_on("save_best_fn"))
        c.decide(pth is None, f"{k.name}.reset/initial", fl.entry.where, f"the initial policy is not handed to save_best_fn: {describe(pth)}")
    if not tot:
        raise AnalysisBroken("no trainer keeps a best score")


def last_tests(fl, n):
    return [r for r in reaching(n, collects(fl, TEST)) if r is not None]


def from_result(fl, t, results, what):
    """Is t the statistic `what` of one of the test results (True), of something else (False), or unclear (None)?"""
    out = True
    rts = {r.d["term"] for r in results}
    for v in values(fl, t):
        v = strip(v, "float", "item", "float64")
        for v in alts(v):
            if v.k != "attr":
                return False if v.k in ("const", "bin", "ibin", "un") or is_call(v, "max") or is_call(v, "min") or is_call(v, "abs") or is_call(v, "round") else None
            if v.a[1] != what:
                return False
            cl = closure(fl, v)
            if not (cl & rts) or any(is_call(x, "collect") and x not in rts for x in cl):
                return False
    return out


@rule("T03")
def best_values_come_from_the_test_result(c):
    """Mean and deviation of the latest test result, its score and the current epoch are what is stored."""
    for k in trainers(c):
        for m in ("test_step", "training_step", "reset"):
            fl = c.flow(m, k, opaque=OPQ)
            con = f"{k.name}.{m}"
            for a, what in (("best_reward", "mean"), ("best_reward_std", "std")):
                for s in setattrs(fl, a, base=SELF):
                    c.decide(from_result(fl, s.d["value"], last_tests(fl, s), what), f"{con}/{a}", s.where, f"{a} = {show(s.d['value'])[:100]} is not the {what} of the test result")
            for s in setattrs(fl, "best_score", base=SELF):
                rts = {r.d["term"] for r in last_tests(fl, s)}
                vs = values(fl, s.d["value"])
                c.decide(all(v.k == "call" and v.a[0] is A("compute_score_fn") and v.a[1] and v.a[1][0] in rts for v in vs), con + "/best_score", s.where,
                         f"best_score = {show(s.d['value'])[:100]} is not the score of the test result")
            for s in setattrs(fl, "best_epoch", base=SELF):
                c.decide(epochish(s.d["value"]), con + "/best_epoch", s.where, f"best_epoch = {show(s.d['value'])[:60]} is not the current epoch")


@rule("T03")
def best_is_replaced_exactly_when_beaten(c):
    """In a test step the best values are replaced if and only if the new score is higher."""
    for k in trainers(c):
        fl = c.flow("test_step", k, opaque=OPQ)
        con = f"{k.name}.test_step"
        st = setattrs(fl, "best_score", base=SELF)
        isscore = lambda t: t.k == "call" and t.a[0] is A("compute_score_fn")
        isbest = lambda t: A("best_score") in alts(t)
        cmpb = lambda x: x.k == "cmp" and x.a[0] == "<" and (isbest(x.a[1]) and isscore(x.a[2]) or isbest(x.a[2]) and isscore(x.a[1]))
        bs = find_branch(fl, cmpb)
        if not bs:
            oth = [b for b in find_branch(fl, lambda x: x.k == "cmp" and x.a[0] == "<" and any(isscore(y) for y in x.a[1:]) and any(y.k == "attr" and y.a[0] is SELF for z in x.a[1:] for y in alts(z)))
                   if find_path(b, st) is not None]
            if oth:
                c.bad(con + "/better", oth[0].where, f"the new score is compared with something else than the best score: {show(oth[0].d['cond'])[:120]}")
                continue
            c.und(con, "no comparison of the new score with the best one found")
            continue

        def sel(better):
            # paths on which new > best is `better`; when new == best, "new < best" is False and "best < new" is False
            def ok(n, m, l):
                if n.kind != "branch" or l not in ("T", "F"):
                    return True
                x, pol = canon_cond(n.d["cond"])
                if x.k == "cmp" and x.a[0] == "<" and A("best_epoch") in alts(x.a[1]) and x.a[2] is const(0):
                    return (l == "T") != pol
                if not cmpb(x):
                    return True
                val = (isbest(x.a[1])) if better == "gt" else (isbest(x.a[2])) if better == "lt" else False
                return (l == "T") == (val == pol)
            return ok
        p = find_path(fl.entry_node, fl.exit_node, st, edge_ok=sel("gt"))
        c.decide(p is None, con + "/better", bs[0].where, f"a better test result does not replace the best one: {describe(p)}")
        for how in ("lt", "eq"):
            p = find_path(fl.entry_node, st, edge_ok=sel(how))
            c.decide(p is None, con + "/" + how, bs[0].where, f"a test result that is {'worse than' if how == 'lt' else 'only as good as'} the best one replaces it")
        # the comparison happens against the best value before it is replaced
        for b in bs:
            p = find_path(st, b)
            c.decide(p is None, con + "/order", b.where, "the best score is replaced before it is compared")


@rule("T03")
def reward_metric_applies_to_all_results(c):
    """With a reward metric every use of a result's returns sees the transformed returns and their statistics."""
    tot = 0
    for k in trainers(c):
        for m in ("test_step", "training_step", "reset"):
            fl = c.flow(m, k, opaque=OPQ)
            on = hook_on("reward_metric")
            for rc in collects(fl, TEST) + collects(fl, TRAIN):
                r = rc.d["term"]
                con = f"{k.name}.{m}/{rc.d['recv'].a[1]}"
                rs = [n for n in setattrs(fl, "returns_stat") if n.d["base"] is r]
                uses = [n for n in nodes(fl, "call") if n.d["fn"] in (A("compute_score_fn"), A("stop_fn")) or n.d["name"] in ("log_test_data", "log_train_data")]
                uses = [u for u in uses if any(r in closure(fl, t) for t in list(u.d["args"]) + [v for _, v in u.d["kwt"]])]
                uses += [n for n in setattrs(fl, *BEST, base=SELF) if r in closure(fl, n.d["value"])]
                coll_pos = cut(lambda x: x.k == "cmp" and x.a[0] == "<" and x.a[1] is const(0) and x.a[2].k == "attr" and x.a[2].a[1] == "n_collected_episodes" and x.a[2].a[0] is r, True)
                for u in uses:
                    tot += 1
                    p = find_path(rc, u, rs, edge_ok=both(on, coll_pos))
                    c.decide(p is None, con, u.where, f"a result is used before the reward metric has been applied: {describe(p)}")
                for n in rs:
                    cl = closure(fl, n.d["value"])
                    ok = any(x.k == "call" and x.a[0] is A("reward_metric") and x.a[1] and x.a[1][0].k == "attr" and x.a[1][0].a[1] == "returns" and x.a[1][0].a[0] is r for x in cl)
                    c.decide(ok, con + "/stat", n.where, f"returns_stat = {show(n.d['value'])[:80]} is not computed from the metric of this result's returns")
                    oth = [q for q in setattrs(fl, "returns") if q.d["base"] is r]
                    p1, p2 = find_path(rc, n, oth), find_path(n, fl.exit_node, oth)
                    c.decide(p1 is None or p2 is None, con + "/returns", n.where, "returns_stat is replaced but the returns themselves are not")
    if not tot:
        raise AnalysisBroken("no use of a collection result found")


# ------------------------------------------------------------------ T04
def upd_arg(n, i, name):
    return arg(n, i, name)


@rule("T04")
def updates_follow_the_regime(c):
    """On-policy: one update over the whole buffer, repeated, then discarded; off-policy: updates in proportion; offline: one update."""
    kinds = {"OnpolicyTrainer": "on", "OffpolicyTrainer": "off", "OfflineTrainer": "offline"}
    for name, kind in kinds.items():
        k = c.p.cls(name)
        fl = c.flow("policy_update_fn", k, opaque=OPQ)
        con = f"{name}.policy_update_fn"
        us = updates(fl)
        if not us:
            raise AnalysisBroken(f"{con} updates no policy")
        buf = A("buffer") if kind == "offline" else A("buffer", TRAIN)
        for u in us:
            c.decide(upd_arg(u, 1, "buffer") is buf, con + "/buffer", u.where, f"the policy is updated from {show(upd_arg(u, 1, 'buffer') or NONE)}")
            ss = upd_arg(u, 0, "sample_size")
            c.decide((ss is const(0)) if kind == "on" else (ss is A("batch_size")), con + "/sample size", u.where, f"sample_size={show(ss) if ss else None}")
        if kind == "on":
            for u in us:
                bs, rp = u.d["kw"].get("batch_size"), u.d["kw"].get("repeat")
                c.decide(bs is A("batch_size"), con + "/batch size", u.where, f"the collected data are learned with batch_size={show(bs) if bs else None}")
                c.decide(rp is A("repeat_per_collect"), con + "/repeat", u.where, f"the collected data are used repeat={show(rp) if rp else None} times")
            rs = [n for n in calls(fl, "reset_buffer", "reset") if n.d["recv"] in (TRAIN, A("buffer", TRAIN))]
            for u in us:
                p = find_path(u, fl.exit_node, rs)
                c.decide(p is None, con + "/discard", u.where, f"data that were learned from stay in the buffer: {describe(p)}")
                p = find_path(fl.entry_node, u, avoid=None, edge_ok=None)
                p = find_path(rs, u) if rs else None
                c.decide(p is None, con + "/discard order", u.where, "the buffer is emptied before the update")
            for r in rs:
                if r.d["name"] == "reset_buffer":
                    ks = arg(r, 0, "keep_statistics")
                    c.decide(ks is TRUE, con + "/keep statistics", r.where, "running episode statistics of unfinished episodes are lost when the buffer is emptied")
        if kind in ("on", "offline"):
            c.decide(find_path(fl.entry_node, fl.exit_node, us) is None, con + "/once", fl.entry.where, "a call performs no update")
            c.decide(find_path(us, us) is None, con + "/twice", us[0].where, "a call performs more than one update")
        else:
            proportional(c, fl, con, us)


def proportional(c, fl, con, us):
    heads = [h for h in iter_heads(fl) if any(find_path(edge_succ(h, l), u, [h], skip_start=False) is not None for l in {l for _, l in h.succ} if l not in ("done", "exc") for u in us)]
    if not heads:
        c.und(con + "/proportion", "updates are not performed in a recognisable loop")
        return
    for h in heads:
        labels = {l for _, l in h.succ} - {"done", "exc"}
        src = h.d.get("source") or h.d.get("iter") or h.d.get("it")
        rg = [x for x in closure(fl, src) if is_call(x, "range")] if src is not None else []
        if len(rg) != 1 or len(rg[0].a[1]) != 1:
            c.und(con + "/proportion", "loop bound not recognised")
        else:
            n = strip(rg[0].a[1][0], "int")
            rnd = [x for x in subterms(n) if is_call(x, "round") or is_call(x, "rint")]
            if n.k in ("bin", "ibin") and len(rnd) == 1:
                c.bad(con + "/proportion", h.where, f"{show(n)} updates are performed for the collected steps")
            elif is_call(n, "round") or is_call(n, "rint"):
                def atom(t):
                    if t is A("update_per_step"):
                        return "u"
                    if t.k == "attr" and t.a[1] == "n_collected_steps":
                        return "n"
                    return None
                from ..query import Poly
                got = rat(n.a[1][0], atom)
                want = (Poly.x("u") * Poly.x("n"), Poly.c(1))
                c.decide(rat_eq(got, want), con + "/proportion", h.where, f"{show(n)} updates are performed for the collected steps")
            else:
                cl = closure(fl, n)
                no = not any(x is A("update_per_step") for x in cl) or not any(x.k == "attr" and x.a[1] == "n_collected_steps" for x in cl)
                c.decide(False if no else None, con + "/proportion", h.where, f"{show(n)} updates are performed, not in proportion to the collected steps")
        for l in labels:
            st = edge_succ(h, l)
            p = find_path(st, [h, fl.exit_node], us, skip_start=False)
            c.decide(p is None, con + "/each", h.where, f"an iteration performs no update: {describe(p)}")
            p = find_path(us, us, [h])
            c.decide(p is None, con + "/each twice", h.where, f"an iteration performs several updates: {describe(p)}")


@rule("T04")
def counters_count_what_happened(c):
    """Environment steps and episodes grow by the collected numbers once per collection; gradient steps once per update."""
    for k in trainers(c):
        fl = c.flow("training_step", k, opaque=OPQ)
        con = f"{k.name}.training_step"
        for rc in collects(fl, TRAIN):
            r = rc.d["term"]
            for a, src in (("env_step", "n_collected_steps"), ("env_episode", "n_collected_episodes")):
                st = setattrs(fl, a, base=SELF)
                if not st and k.name == "OfflineTrainer":
                    continue
                p = find_path(rc, fl.exit_node, st)
                c.decide(p is None, f"{con}/{a}", rc.where, f"collected data are not counted in {a}: {describe(p)}")
                c.decide(find_path(st, st) is None, f"{con}/{a} twice", st[0].where if st else "", f"{a} is advanced twice for one collection")
                for s in st:
                    from ..query import Poly, poly
                    got = poly(s.d["value"], lambda t: a if t is A(a) else "n" if t.k == "attr" and t.a[1] == src and t.a[0] is r else None)
                    c.decide(got == Poly.x(a) + Poly.x("n"), f"{con}/{a} value", s.where, f"{a} = {show(s.d['value'])[:100]}")
            ns, ne = arg(rc, 0, "n_step"), arg(rc, 1, "n_episode")
            c.decide(ns is A("step_per_collect"), con + "/n_step", rc.where, f"n_step={show(ns) if ns else None}")
            c.decide(ne is A("episode_per_collect"), con + "/n_episode", rc.where, f"n_episode={show(ne) if ne else None}")
            hs = hook_calls(fl, "train_fn")
            p = find_path(fl.entry_node, rc, hs, edge_ok=hook_on("train_fn"))
            c.decide(p is None, con + "/train_fn", rc.where, f"training data are collected without calling train_fn: {describe(p)}")
            for h in hs:
                a0, a1 = arg(h, 0), arg(h, 1)
                c.decide(a0 is not None and epochish(a0), con + "/train_fn epoch", h.where, "train_fn is not given the epoch first")
                c.decide(a1 is not None and stepish(fl, a1), con + "/train_fn step", h.where, "train_fn is not given the environment step second")
        us = updates(fl)
        st = setattrs(fl, "_gradient_step", base=SELF)
        for u in us:
            p1, p2 = find_path(fl.entry_node, u, st), find_path(u, fl.exit_node, st)
            heads = iter_heads(fl)
            p3 = find_path(heads, u, st) if heads else None
            p4 = find_path(u, heads, st) if heads else None
            c.decide((p1 is None and p3 is None) or (p2 is None and p4 is None), con + "/gradient", u.where, "an update is not counted as a gradient step")
            # the update works on what has just been collected
            if k.name != "OfflineTrainer":
                rcs = collects(fl, TRAIN)
                nocol = cut(lambda x: x.k == "cmp" and TRAIN in x.a and NONE in x.a, False)
                p = find_path(fl.entry_node, u, rcs, edge_ok=nocol)
                c.decide(p is None, con + "/collect first", u.where, f"the policy is updated without new data having been collected: {describe(p)}")
        if k.name != "OnpolicyTrainer":
            for s in st:
                from ..query import Poly, poly
                got = poly(s.d["value"], lambda t: "g" if t is A("_gradient_step") or t.k == "loopphi" else None)
                c.decide(got == Poly.x("g") + Poly.c(1), con + "/gradient value", s.where, f"_gradient_step = {show(s.d['value'])[:80]} for one update")
                p = find_path(s, st, us + iter_heads(fl))
                c.decide(p is None, con + "/gradient twice", s.where, "the gradient counter is advanced twice for one update")
    k = c.p.cls("OfflineTrainer")
    fl = c.flow("training_step", k, opaque=OPQ)
    nocol = cut(lambda x: x.k == "cmp" and TRAIN in x.a and NONE in x.a, True)
    notr = cut(lambda x: x is TRAIN, False)
    cs = calls(fl, "collect")
    p = find_path(fl.entry_node, [n for n in cs if n.d["recv"] is TRAIN], edge_ok=both(nocol, notr))
    c.decide(p is None, "OfflineTrainer/no collection", fl.entry.where, f"data are collected without a train collector: {describe(p)}")


@rule("T04")
def restart_starts_from_zero(c):
    """reset() zeroes the counters (unless resumed), the stop flag and the iteration number, and starts at the start epoch."""
    zero = {"env_step": (0,), "env_episode": (0,), "_gradient_step": (0,), "policy_update_time": (0, 0.0), "iter_num": (0,), "stop_fn_flag": (False,)}
    for k in trainers(c):
        fl = c.flow("reset", k, opaque=OPQ)
        for a, want in zero.items():
            st = setattrs(fl, a, base=SELF)
            res = {"env_step": 1, "_gradient_step": 2}.get(a)
            for x in (fl.exit_node,):
                rs = reaching(x, st)
                c.decide(None not in rs, f"{k.name}.reset/{a}", fl.entry.where, f"a restarted trainer keeps its old {a}")
                for r in rs:
                    if r is None:
                        continue
                    for v in alts(r.d["value"]):
                        if v.k == "const":
                            c.decide(v.a[0] in want and isinstance(v.a[0], bool) == isinstance(want[0], bool), f"{k.name}.reset/{a} value", r.where, f"a restarted trainer starts with {a} = {show(v)}")
                        elif res is not None and v.k in ("item", "sub") and is_restore(v.a[0]):
                            i = v.a[1]
                            i = i.a[0] if isinstance(i, Term) and i.k == "const" else i
                            c.decide(i == res, f"{k.name}.reset/{a} resumed", r.where, f"{a} is resumed from entry {i} of the restored data")
                        else:
                            c.decide(False if v.k == "attr" and v.a[0] is SELF else None, f"{k.name}.reset/{a} value", r.where, f"a restarted trainer starts with {a} = {show(v)}")
        st = setattrs(fl, "epoch", base=SELF)
        rs = reaching(fl.exit_node, st)
        c.decide(None not in rs and all(epochish(v) and not (v.k == "attr" and v.a[1] == "epoch") for r in rs if r for v in alts(r.d["value"])), f"{k.name}.reset/epoch", fl.entry.where, "a restarted trainer does not start at its start epoch")


# ------------------------------------------------------------------ T05
def stop_cond(fl):
    vals = {skey(n.d["value"]) for n in setattrs(fl, "stop_fn_flag", base=SELF)}

    def is_stop(x):
        if x is A("stop_fn_flag") or skey(x) in vals:
            return True
        return x.k == "phi" and all(v in (TRUE, FALSE) or v is A("stop_fn_flag") or v.k == "loopphi" or any(y.k == "call" and y.a[0] is A("stop_fn") for y in subterms(v)) for v in alts(x))
    return is_stop


@rule("T05")
def every_epoch_saves_current_counters(c):
    """Each finished epoch hands epoch, environment step, gradient step and the user's hook to the logger, in this order."""
    for k in trainers(c):
        fl = c.flow("__next__", k, opaque=OPQ)
        con = f"{k.name}.__next__"
        sv = calls(fl, "save_data", recv=A("logger"))
        if not sv:
            raise AnalysisBroken(con + " saves no data")
        p = find_path(fl.entry_node, fl.exit_node, sv, edge_ok=cut(stop_cond(fl), False))
        c.decide(p is None, con + "/saved", sv[0].where, f"an epoch ends without saving its data: {describe(p)}")
        for s in sv:
            e, es, gs, fn = arg(s, 0, "epoch"), arg(s, 1, "env_step"), arg(s, 2, "gradient_step"), arg(s, 3, "save_checkpoint_fn")
            c.decide(e is not None and epochish(e), con + "/epoch", s.where, f"saved epoch is {show(e or NONE)[:60]}")
            c.decide(es is not None and stepish(fl, es), con + "/env_step", s.where, f"saved env_step is {show(es or NONE)[:60]}")
            g = gs is not None and all(("_gradient_step" in show(v)) or v.k == "loopphi" for v in alts(gs)) and not any(v.k == "attr" and v.a[1] != "_gradient_step" for v in alts(gs))
            c.decide(g, con + "/gradient_step", s.where, f"saved gradient_step is {show(gs or NONE)[:60]}")
            c.decide(fn is A("save_checkpoint_fn"), con + "/hook", s.where, "the user's checkpoint hook is not handed over")
            cs = collects(fl, TRAIN) + updates(fl)
            p = find_path(s, cs)
            c.decide(p is None, con + "/after training", s.where, "data are saved before the epoch's training is finished")


@rule("T05")
def resumed_training_continues_where_saved(c):
    """With resume_from_log the restored epoch, environment step and gradient step replace the zeroed counters and a fresh test gives the baseline."""
    for k in trainers(c):
        fl = c.flow("reset", k, opaque=OPQ)
        con = f"{k.name}.reset"
        on = cut(lambda x: x is A("resume_from_log"), True)
        rd = calls(fl, "restore_data")
        p = find_path(fl.entry_node, fl.exit_node, rd, edge_ok=on)
        c.decide(bool(rd) and p is None, con + "/restore", fl.entry.where, f"a resumed training restores nothing: {describe(p)}")
        for i, a in enumerate(("start_epoch", "env_step", "_gradient_step")):
            st = setattrs(fl, a, base=SELF)
            got = []
            for s in st:
                for v in alts(s.d["value"]):
                    if v.k in ("item", "sub") and is_restore(v.a[0]):
                        j = v.a[1]
                        got.append((s, j.a[0] if isinstance(j, Term) and j.k == "const" else j))
            c.decide(bool(got), f"{con}/{a}", fl.entry.where, f"a resumed training does not restore {a}")
            for s, j in got:
                c.decide(j == i, f"{con}/{a} position", s.where, f"{a} is restored from entry {j}, saved as entry {i}")
                over = [q for q in st if q not in [g for g, _ in got]]
                p = find_path(s, over, edge_ok=on)
                c.decide(p is None, f"{con}/{a} kept", s.where, f"the restored {a} is overwritten afterwards")
        tcs = collects(fl, TEST)
        for r in rd:
            p = find_path(r, fl.exit_node, tcs, edge_ok=both(on, cut(lambda x: x.k == "cmp" and TEST in x.a and NONE in x.a, False), cut(lambda x: x is TEST, True)))
            c.decide(p is None, con + "/baseline", r.where, f"a resumed training starts without testing the resumed policy: {describe(p)}")
            p = find_path(tcs, r)
            c.decide(p is None, con + "/baseline order", r.where, "the baseline test runs before the counters are restored")


def loggers(c):
    base = c.p.cls("BaseLogger")
    return base, sorted(c.p.subclasses(base.qual), key=lambda k: k.qual)


NAMES = ("epoch", "env_step", "gradient_step")


def saved_keys(fl):
    """key -> value written when data are saved (scalars written by write(); entries of an artifact's metadata)."""
    out = {}
    for n in nodes(fl, "call"):
        if n.d["name"] == "write" and len(n.d["args"]) >= 2 and n.d["args"][0].k == "const":
            out[n.d["args"][0].a[0]] = (n.d["args"][1], n)
        md = n.d["kw"].get("metadata")
        if md is not None and md.k == "dict":
            for k, v in md.a[0]:
                if k is not None and k.k == "const":
                    out[k.a[0]] = (v, n)
    return out


@rule("T05")
def loggers_read_back_what_they_write(c):
    """The keys and values written by save_data are those restore_data reads, newest entry first, returned as (epoch, env_step, gradient_step)."""
    base, ks = loggers(c)
    done = 0
    for k in ks:
        f = k.find("save_data")
        if f is None or not f.qual.startswith(k.qual + "."):
            continue
        fl = c.flow("save_data", k, opaque=("write",))
        keys = saved_keys(fl)
        if not keys:
            continue
        done += 1
        con = k.name
        for key, (v, n) in sorted(keys.items()):
            nm = key.split("/")[-1]
            if nm not in NAMES:
                continue
            c.decide(v is P(nm) if v.k in ("param", "const", "bin") else None, f"{con}.save_data/{key}", n.where, f"{key} is saved as {show(v)}")
        fr = c.flow("restore_data", k)
        rv = fr.ret_value
        comps = rv.a[0] if rv is not None and rv.k == "tuple" else None
        if comps is None or len(comps) != 3:
            c.und(con + ".restore_data", "returned value is not a literal triple")
            continue
        for nm, t in zip(NAMES, comps, strict=True):
            read = set()
            for v in alts(t):
                for x in subterms(v):
                    if x.k == "const" and isinstance(x.a[0], str) and "/" in x.a[0]:
                        read.add(x.a[0])
            c.decide(read == {f"save/{nm}"} if len(read) == 1 else (False if not read else None), f"{con}.restore_data/{nm}", fr.entry.where, f"{nm} is restored from {sorted(read)}")
            c.decide(read <= set(keys), f"{con}/{nm} saved", fr.entry.where, f"{sorted(read)} is read but never saved (saved: {sorted(keys)})")
            for v in alts(t):
                if v.k == "attr" and v.a[0].k == "sub":
                    c.decide(v.a[0].a[1] is const(-1) or None if v.a[0].a[1].k == "un" else v.a[0].a[1] is const(-1), f"{con}.restore_data/{nm} newest", fr.entry.where, "not the newest saved entry is restored")
                    if v.a[1] == "value":
                        c.und(f"{con}.restore_data/{nm} exact", "restored from a float value")
    if done < 2:
        raise AnalysisBroken("loggers that save data not found")


@rule("T05")
def checkpoints_are_saved_at_their_interval(c):
    """save_data calls the hook with the current counters exactly when the interval has passed, and remembers when."""
    base, ks = loggers(c)
    for k in ks:
        f = k.find("save_data")
        if f is None or not f.qual.startswith(k.qual + "."):
            continue
        fl = c.flow("save_data", k, opaque=("write",))
        hs = [n for n in nodes(fl, "call") if n.d["fn"] is P("save_checkpoint_fn")]
        if not hs:
            continue
        con = k.name + ".save_data"
        iv, last = A("save_interval"), A("last_save_step")

        def cond(due):
            def ok(n, m, l):
                if n.kind != "branch" or l not in ("T", "F"):
                    return True
                x, pol = canon_cond(n.d["cond"])
                if x is P("save_checkpoint_fn"):
                    return (l == "T") == pol
                if x.k == "cmp" and P("save_checkpoint_fn") in x.a and NONE in x.a:
                    return (l == "T") != pol
                v = interval_truth(x, P("epoch"), last, iv)
                if v is None:
                    return True
                val = v[0] if due else v[1]
                return val is None or (l == "T") == (val == pol)
            return ok
        has = [n for n in nodes(fl, "branch") if interval_truth(canon_cond(n.d["cond"])[0], P("epoch"), last, iv)]
        if not has:
            cl = [n for n in nodes(fl, "branch") if iv in set(subterms(n.d["cond"]))]
            c.decide(None if cl else False, con + "/interval", fl.entry.where, "the configured save interval is not consulted")
            continue
        p = find_path(fl.entry_node, fl.exit_node, hs, edge_ok=cond(True))
        c.decide(p is None, con + "/due", has[0].where, f"no checkpoint is saved although the interval has passed: {describe(p)}")
        p = find_path(fl.entry_node, hs, edge_ok=cond(False))
        c.decide(p is None, con + "/not due", has[0].where, "a checkpoint is saved before the interval has passed")
        for h in hs:
            c.decide([arg(h, i) for i in range(3)] == [P(x) for x in NAMES], con + "/arguments", h.where, f"the checkpoint hook is called with {[show(x) for x in h.d['args']]}")
            st = setattrs(fl, "last_save_step", base=SELF)
            p1, p2 = find_path(fl.entry_node, h, st), find_path(h, fl.exit_node, st)
            c.decide(bool(st) and (p1 is None or p2 is None) and all(s.d["value"] is P("epoch") for s in st), con + "/remembered", h.where, "the epoch of the last checkpoint is not remembered")
            for key in saved_keys(fl).values():
                p1, p2 = find_path(fl.entry_node, h, [key[1]]), find_path(h, fl.exit_node, [key[1]])
                c.decide(p1 is None or p2 is None, con + "/metadata", key[1].where, "a checkpoint is saved without its counters")


def interval_truth(x, step, last, iv):
    """For a comparison of step - last with interval: (truth when due, truth when not due); None if x is something else.

    'due' means step - last == interval + some; checked at the boundary as well: step - last >= interval is due.
    """
    if x.k != "cmp" or x.a[0] not in ("<",):
        return None
    from ..query import Poly, poly
    at = lambda t: "s" if t is step else "l" if t is last else "i" if t is iv else None
    l, r = poly(x.a[1], at), poly(x.a[2], at)
    d = l - r
    s, la, i = Poly.x("s"), Poly.x("l"), Poly.x("i")
    if d == s - la - i:  # step - last < interval
        return (False, True)
    if d == la + i - s:  # interval < step - last : not true at the boundary -> "due" is not equivalent
        return ("strict", False)
    if d.atoms() >= {"s", "l", "i"}:
        return ("other", "other")
    return None


# ------------------------------------------------------------------ T06
@rule("T06")
def iteration_ends_by_epoch_or_stop_rule(c):
    """StopIteration is raised exactly when a finished epoch was the last one or the stop flag is set."""
    for k in trainers(c):
        fl = c.flow("__next__", k, opaque=OPQ)
        con = f"{k.name}.__next__"
        stops = [n for n in nodes(fl, "raise") if n.d.get("exc") is not None and "StopIteration" in show(n.d["exc"])] or [n for n in nodes(fl, "raise") if "StopIteration" in repr(n)]
        work = [n for n in calls(fl, "training_step")]
        if not stops or not work:
            raise AnalysisBroken(con + ": no StopIteration or no training step")
        over = lambda x: x.k == "cmp" and x.a[0] == "<" and any(y is A("max_epoch") for t in (x.a[1], x.a[2]) for y in subterms(t)) and any(y is A("epoch") for t in (x.a[1], x.a[2]) for y in subterms(t))
        obs = find_branch(fl, over)
        for b in obs:
            x, pol = canon_cond(b.d["cond"])
            from ..query import Poly, poly
            e0 = [n for n in setattrs(fl, "epoch", base=SELF) if find_path(n, b) is not None]
            at = lambda t: "e" if t is A("epoch") else "m" if t is A("max_epoch") else None
            d = poly(x.a[1], at) - poly(x.a[2], at)
            # the epoch about to start is e+1: it must not start if e + 1 > m, i.e. m - e - 1 < 0  (m < e+1)
            e, m = Poly.x("e"), Poly.x("m")
            good = (d == m - e - Poly.c(1), d == e - m)  # (m < e+1) true = over ; (e < m) true = not over
            c.decide(any(good) or (None if not (d.atoms() <= {"e", "m"}) else False), con + "/last epoch", b.where, f"training ends when {show(x)} with epoch = number of finished epochs")
            isover = good[0]
            firstit = cut(lambda y: y.k == "cmp" and any(z is A("iter_num") for z in subterms(y)), None)

            def go(over_, stop_):
                sc = stop_cond(fl)

                def ok(n, mm, l):
                    if n.kind != "branch" or l not in ("T", "F"):
                        return True
                    y, pl = canon_cond(n.d["cond"])
                    if over(y):
                        return (l == "T") == ((over_ == isover) == pl)
                    if y is A("stop_fn_flag"):
                        return (l == "T") == (stop_ == pl)
                    if y.k == "cmp" and any(z is A("iter_num") for z in subterms(y)):
                        return l == ("T" if first_truth(y) == pl else "F")
                    return True
                return ok

            def first_truth(y):
                # truth of the comparison for a later iteration (iter_num large)
                return y.a[0] == "<" and any(z is A("iter_num") for z in subterms(y.a[2]))
            ad = find_path(fl.entry_node, work + [fl.exit_node], edge_ok=go(True, False))
            c.decide(ad is None, con + "/ends", b.where, f"training continues after the configured number of epochs: {describe(ad)}")
            ad = find_path(fl.entry_node, work + [fl.exit_node], edge_ok=go(False, True))
            c.decide(ad is None, con + "/stops", b.where, f"training continues although the stop rule held: {describe(ad)}")
            ad = find_path(fl.entry_node, stops, edge_ok=go(False, False))
            c.decide(ad is None, con + "/early", b.where, f"training ends although neither the epochs are over nor the stop rule held: {describe(ad)}")
        if not obs:
            c.und(con, "comparison with max_epoch not found")
        ep = setattrs(fl, "epoch", base=SELF)
        p = find_path(fl.entry_node, work, ep)
        c.decide(p is None and find_path(ep, ep) is None, con + "/counts", fl.entry.where, "an epoch is not counted exactly once")


@rule("T06")
def epochs_do_all_their_steps(c):
    """The inner loop of an epoch is left only when enough steps were made or training is to stop; steps made are the collected ones."""
    for k in trainers(c):
        fl = c.flow("__next__", k, opaque=OPQ)
        con = f"{k.name}.__next__"
        work = calls(fl, "training_step")
        spe = A("step_per_epoch")
        bs = [b for b in find_branch(fl, lambda x: x.k == "cmp" and x.a[0] == "<" and spe in (x.a[1], x.a[2])) if find_path(b, work) is not None and find_path(work, b) is not None]
        if not bs:
            c.und(con, "no comparison of the steps made with step_per_epoch")
            continue
        sc = stop_cond(fl)

        def loop_on(n, m, l):
            # enough steps were not made, no stop
            if n.kind != "branch" or l not in ("T", "F"):
                return True
            x, pol = canon_cond(n.d["cond"])
            if n in bs:
                lessok = x.a[2] is spe  # steps < spe  true
                return (l == "T") == (lessok == pol)
            if sc(x):
                return (l == "T") == (False == pol)
            return True
        p = find_path(work, fl.exit_node, work, edge_ok=loop_on)
        c.decide(p is None, con + "/all steps", bs[0].where, f"an epoch ends before its steps are made although nothing asks to stop: {describe(p)}")
        for b in bs:
            x, pol = canon_cond(b.d["cond"])
            cnt = x.a[1] if x.a[2] is spe else x.a[2]
            if x.a[1] is spe:
                c.decide(None, con + "/bound", b.where, "unusual comparison")
                continue
            vs = [v for t in (fl.loops.get(cnt, ()) if cnt.k == "loopphi" else (cnt,)) for v in alts(t)]
            for v in vs:
                if v.k in ("const", "loopphi"):
                    if v.k == "const":
                        c.decide(v.a[0] == 0, con + "/start", b.where, "an epoch does not start with zero steps")
                    continue
                if v.k in ("bin", "ibin") and v.a[0] == "+":
                    inc = v.a[2] if v.a[1] is cnt else v.a[1]
                    for i in alts(inc):
                        if i.k == "const":
                            # one step per training step: only without collector
                            c.decide(i.a[0] == 1 or None, con + "/offline step", b.where, "unusual step")
                        elif i.k == "attr":
                            c.decide(i.a[1] == "n_collected_steps", con + "/steps", b.where, f"steps made in the epoch grow by {i.a[1]}")
        # every training step is counted
        augs = [n for n in nodes(fl, "aug")] + [n for n in nodes(fl, "call") if False]
        p = None


@rule("T06")
def early_stop_needs_a_full_test(c):
    """Within an epoch training stops early only if the stop rule holds for the training result and then for a full test."""
    for k in trainers(c):
        fl = c.flow("training_step", k, opaque=OPQ)
        con = f"{k.name}.training_step"
        rv = fl.ret_value
        if rv is None or rv.k != "tuple" or len(rv.a[0]) != 3:
            c.und(con, "result is not a literal triple")
            continue
        flag = rv.a[0][2]
        stf = hook_calls(fl, "stop_fn")
        rts = {n.d["term"] for n in collects(fl, TEST)}
        conf = [s for s in stf if s.d["args"] and closure(fl, s.d["args"][0]) & rts]
        pre = [s for s in stf if s not in conf]
        nope = {s.d["term"] for s in conf}
        # the flag may be True only under the confirming stop_fn call
        t = possible(flag, lambda x: False if x in nope else None)
        c.decide(False if True in t else (t == {False}) or None, con + "/confirmed", fl.entry.where, "training stops early although the stop rule does not hold for a full test")
        c.decide((any_true(flag) or None), con + "/possible", fl.entry.where, "training never stops early")
        for s in conf:
            v = s.d["args"][0]
            r = from_result(fl, v, last_tests(fl, s), "mean")
            c.decide(r, con + "/test mean", s.where, f"the stop rule is asked about {show(v)[:80]}")
            p = find_path(fl.entry_node, s, pre)
            c.decide(p is None if pre else None, con + "/only after", s.where, "a full test runs in every training step")
        for s in pre:
            v = s.d["args"][0] if s.d["args"] else NONE
            vs = [w for w in values(fl, v)]
            c.decide(all(w.k == "attr" and w.a[1] == "mean" for w in vs) or None if all(w.k in ("attr", "call") for w in vs) else None, con + "/train mean", s.where, f"the stop rule is asked about {show(v)[:80]}")
            off = cut(lambda x: x is A("test_in_train"), False)
            p = find_path(fl.entry_node, collects(fl, TEST), edge_ok=off)
            c.decide(p is None, con + "/test_in_train", s.where, "tests run within training although test_in_train is off")
            # asked whenever allowed
        # no update once training is to stop, update otherwise
        us = updates(fl)
        asks = [b for b in nodes(fl, "branch") if flag in set(subterms(b.d["cond"]))]
        if us and asks and flag.k != "const":
            for want in (True, False):
                def ok(n, m, l, want=want):
                    if n.kind == "branch" and l in ("T", "F"):
                        r = possible(n.d["cond"], lambda x: want if x is flag else None)
                        if len(r) == 1 and None not in r:
                            return (l == "T") == next(iter(r))
                    return True
                if want:
                    p = find_path(asks, us, edge_ok=ok)
                    c.decide(p is None, con + "/no update after stop", us[0].where, f"the policy is still updated although training is to stop: {describe(p)}")
                else:
                    p = find_path(asks, fl.exit_node, us, edge_ok=ok, loops_once=True)
                    c.decide(p is None, con + "/update", us[0].where, f"no update is made although training goes on: {describe(p)}")
        else:
            c.und(con + "/no update after stop", "the flag is not asked about")


def possible(t, val):
    """Truth values a flag may have given val(atom); None for an atom that is not known."""
    if t is TRUE or t is FALSE:
        return {t is TRUE}
    v = val(t)
    if v is not None:
        return {v}
    if t.k == "cmp" and t.a[0] in ("is", "==") and NONE in t.a[1:]:
        v = val(t.a[1] if t.a[2] is NONE else t.a[2])
        if v is not None:
            return {not v}
    if t.k == "call" and is_call(t, "bool") and t.a[1]:
        return possible(t.a[1][0], val)
    if t.k == "un" and t.a[0] == "not":
        return {None if r is None else not r for r in possible(t.a[1], val)}
    if t.k == "boolop":
        rs = [possible(x, val) for x in t.a[1]]
        dom = t.a[0] == "or"
        out = set()
        if any(dom in r for r in rs):
            out.add(dom)
        if any(r == {dom} for r in rs):
            return {dom}
        if all((not dom) in r for r in rs):
            out.add(not dom)
        if any(None in r for r in rs):
            out.add(None)
        return out
    if t.k == "phi":
        sel = t.a[0]
        if t.a[1] is not None and len(sel) == 2:
            x, pol = canon_cond(t.a[1])
            r = possible(x, val)
            if r == {True}:
                sel = [sel[0] if pol else sel[1]]
            elif r == {False}:
                sel = [sel[1] if pol else sel[0]]
        return {r for x in sel for r in possible(x, val)}
    return {None}


def flag_truth(t, val):
    r = possible(t, val)
    return next(iter(r)) if len(r) == 1 else None


def any_true(t):
    return any(v is TRUE or v.k in ("call", "boolop") for v in alts(t))


@rule("T06")
def stop_flag_follows_the_stop_rule(c):
    """A test step asks to stop exactly if the user's stop rule holds for the best reward; without a rule it never does."""
    for k in trainers(c):
        fl = c.flow("test_step", k, opaque=OPQ)
        con = f"{k.name}.test_step"
        rv = fl.ret_value
        if rv is None or rv.k != "tuple" or len(rv.a[0]) != 2:
            c.und(con, "result is not a literal pair")
            continue
        flag = rv.a[0][1]
        stf = hook_calls(fl, "stop_fn")
        terms = {s.d["term"] for s in stf}
        hook = A("stop_fn")
        f0 = flag_truth(flag, lambda x: False if x in terms else True if x is hook else None)
        c.decide(None if f0 is None else f0 is False, con + "/false", fl.entry.where, "training stops although the stop rule does not hold")
        f1 = flag_truth(flag, lambda x: True if x in terms or x is hook else None)
        c.decide(None if f1 is None else f1 is True, con + "/true", fl.entry.where, "training continues although the stop rule holds")
        f2 = flag_truth(flag, lambda x: False if x is hook else None)
        c.decide(None if f2 is None else f2 is False, con + "/none", fl.entry.where, "training stops without a stop rule")
        for s in stf:
            v = arg(s, 0)
            vs = values(fl, v) if v is not None else []
            ok = vs and all(w is A("best_reward") or from_result(fl, w, last_tests(fl, s), "mean") for w in vs)
            c.decide(bool(ok) or (None if vs and all(w.k == "call" for w in vs) else False), con + "/argument", s.where, f"the stop rule is asked about {show(v or NONE)[:80]} instead of the reward")
        nx = c.flow("__next__", k, opaque=OPQ)
        st = setattrs(nx, "stop_fn_flag", base=SELF)
        ts = calls(nx, "test_step") + calls(nx, "training_step")
        for t in ts:
            p = find_path(t, nx.exit_node, st)
            c.decide(p is None, f"{k.name}.__next__/{t.d['name']}", t.where, f"the answer of {t.d['name']} about stopping is not kept: {describe(p)}")


@rule("T06")
def every_epoch_is_tested(c):
    """Each finished epoch without a stop request runs a test step when there is a test collector."""
    for k in trainers(c):
        fl = c.flow("__next__", k, opaque=OPQ)
        ts = calls(fl, "test_step")
        p = find_path(fl.entry_node, fl.exit_node, ts, edge_ok=both(cut(stop_cond(fl), False), cut(lambda x: x.k == "cmp" and TEST in x.a and NONE in x.a, False), cut(lambda x: x is TEST, True)))
        c.decide(bool(ts) and p is None, f"{k.name}.__next__", fl.entry.where, f"an epoch ends without a test: {describe(p)}")


# ------------------------------------------------------------------ L01
KINDS = ("train", "test", "update", "info")


@rule("L01")
def records_are_written_at_their_interval(c):
    """log_<kind>_data writes iff step - last step of that kind >= that kind's interval, and remembers the step."""
    base, ks = loggers(c)
    done = set()
    for k in [base] + ks:
        for kind in KINDS:
            f = k.find(f"log_{kind}_data")
            if f is None:
                raise AnalysisBroken(f"{k.name} has no log_{kind}_data")
            if f.qual in done:
                continue
            done.add(f.qual)
            fl = c.flow(f, k, opaque=("write", "prepare_dict_for_logging"))
            con = f"{k.name}.log_{kind}_data"
            step, last, iv = P("step"), A(f"last_log_{kind}_step"), A(f"{kind}_interval")
            ws = calls(fl, "write", recv=SELF)
            if not ws:
                c.bad(con, fl.entry.where, "nothing is written")
                continue

            def cond(due, step=step, last=last, iv=iv):
                def ok(n, m, l):
                    if n.kind != "branch" or l not in ("T", "F"):
                        return True
                    x, pol = canon_cond(n.d["cond"])
                    v = interval_truth(x, step, last, iv)
                    if v is None:
                        return True
                    val = v[0] if due else v[1]
                    if val in ("strict", "other"):
                        return True
                    return (l == "T") == (val == pol)
                return ok
            has = [n for n in nodes(fl, "branch") if interval_truth(canon_cond(n.d["cond"])[0], step, last, iv)]
            if not has:
                used = {x.a[1] for n in nodes(fl, "branch") for x in subterms(n.d["cond"]) if x.k == "attr" and x.a[0] is SELF}
                foreign = {u for u in used if (u.startswith("last_log_") or u.endswith("_interval")) and u not in (last.a[1], iv.a[1])}
                c.decide(None if {last.a[1], iv.a[1]} <= used and not foreign else False, con + "/interval", fl.entry.where, f"the decision to write consults {sorted(used)} instead of {iv.a[1]} and {last.a[1]}")
            else:
                p = find_path(fl.entry_node, fl.exit_node, ws, edge_ok=cond(True))
                c.decide(p is None, con + "/due", has[0].where, f"a record is dropped although the interval has passed: {describe(p)}")
                p = find_path(fl.entry_node, ws, edge_ok=cond(False))
                c.decide(p is None, con + "/not due", has[0].where, "a record is written before the interval has passed")
                st = setattrs(fl, last.a[1], base=SELF)
                p = find_path(fl.entry_node, st, edge_ok=cond(False))
                c.decide(p is None, con + "/kept", has[0].where, "a dropped record restarts the interval")
            for w in ws:
                st = setattrs(fl, last.a[1], base=SELF)
                p1, p2 = find_path(fl.entry_node, w, st), find_path(w, fl.exit_node, st)
                c.decide(bool(st) and (p1 is None or p2 is None) and all(s.d["value"] is step for s in st), con + "/remembered", w.where, "the step of the write is not remembered for this kind")
                c.decide(find_path(w, ws) is None, con + "/once", w.where, "a record is written twice")
                c.decide(arg(w, 1, "step") is step, con + "/step", w.where, f"written at step {show(arg(w, 1, 'step') or NONE)}")
                d = arg(w, 2, "data")
                src = [v for v in values(fl, d)] if d is not None else []
                c.decide(bool(src) and all(v is P("log_data") or is_call(v, "prepare_dict_for_logging") and v.a[1] and v.a[1][0] is P("log_data") for v in src), con + "/data", w.where, f"writes {show(d or NONE)[:80]}")
                sc = arg(w, 0, "step_type")
                txt = show_scope(c, sc)
                c.decide(None if txt is None else txt.startswith(kind), con + "/scope", w.where, f"{kind} data are written under {txt}")
            for s in setattrs(fl, base=SELF):
                if s.d["attr"].startswith("last_log_") and s.d["attr"] != last.a[1]:
                    c.bad(con + "/other", s.where, f"{s.d['attr']} is changed by a write of {kind} data")


def show_scope(c, t):
    """Leading text of a scope string (enum members resolved)."""
    if t is None:
        return None
    if t.k == "const" and isinstance(t.a[0], str):
        return t.a[0]
    for x in subterms(t):
        if x.k in ("attr", "global"):
            nm = x.a[1] if x.k == "attr" else x.a[0].rsplit(".", 1)[-1]
            full = x.a[0].a[0] + "." + nm if x.k == "attr" and x.a[0].k == "global" else x.a[0] if x.k == "global" else None
            if full and ".DataScope." in "." + full:
                try:
                    k = c.p.cls("DataScope")
                except AnalysisBroken:
                    return nm.lower()
                v = k.attrs.get(nm)
                if v and isinstance(v[0], ast.Constant):
                    return v[0].value
                for b in k.node.body:
                    if isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name) and b.targets[0].id == nm and isinstance(b.value, ast.Constant):
                        return b.value.value
                return nm.lower()
    return None


@rule("L01")
def intervals_are_those_configured(c):
    """Constructors keep each interval under its own name, in every logger class and in loggers built by loggers."""
    base, ks = loggers(c)
    for k in [base] + ks:
        f = k.find("__init__")
        fl = c.flow(f, k)
        ps = set(params_names(f))
        for kind in (*KINDS, "save"):
            p = f"{kind}_interval"
            if p not in ps:
                continue
            st = setattrs(fl, p, base=SELF)
            c.decide(bool(st) and all(s.d["value"] is P(p) for s in st), f"{k.name}.__init__/{p}", fl.entry.where, f"the configured {p} is not kept")
            l = f"last_log_{kind}_step" if kind != "save" else "last_save_step"
            ls = setattrs(fl, l, base=SELF)
            c.decide(bool(ls) and all(s.d["value"].k in ("const", "un") and neg(s.d["value"]) for s in ls), f"{k.name}.__init__/{l}", fl.entry.where, "the first record of a kind is not due at the earliest step")
    for k in ks:
        for m, f in sorted(k.methods.items()):
            if m == "__init__":
                continue
            fl = c.flow(f, k)
            for n in nodes(fl, "call"):
                t = n.d["target"] if n.d.get("target") else None
                name = n.d["name"]
                if name not in {x.name for x in ks} and not any(q.split(".")[-2:-1] and q.split(".")[-2] in {x.name for x in ks} and q.endswith("__init__") for q in n.d["quals"]):
                    continue
                tk = [x for x in ks if x.name == name or any(q == x.qual + ".__init__" or q == x.qual for q in n.d["quals"])]
                if not tk:
                    continue
                tf = tk[0].find("__init__")
                names = [x for x in params_names(tf) if x != "self"]
                bound = {**{names[i]: a for i, a in enumerate(n.d["args"]) if i < len(names)}, **n.d["kw"]}
                for kind in (*KINDS, "save"):
                    p = f"{kind}_interval"
                    if p in names:
                        c.decide(bound.get(p) is A(p), f"{k.name}.{m}/{p}", n.where, f"{p} of the wrapped logger is {show(bound[p]) if p in bound else 'not given'}")


def params_names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def neg(t):
    return t.k == "const" and isinstance(t.a[0], int | float) and t.a[0] < 0 or t.k == "un" and t.a[0] == "-"


@rule("L01")
def nested_statistics_are_flattened_without_loss(c):
    """Flattening visits every entry, keeps every loggable value under a name containing all its keys, and leaves the input unchanged."""
    k = c.p.cls("TensorboardLogger")
    f = k.find("prepare_dict_for_logging")
    con = "TensorboardLogger.prepare_dict_for_logging"
    inner = [x for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node]
    al = None
    fl = c.flow(f, k)
    al = Alias(fl, [P(x) for x in params_names(f) if x != "self"])
    ms = al.mutations()
    c.decide(not ms, con + "/input", ms[0][0].where if ms else "", "the caller's statistics are modified")
    stores = [n for n in setsubs(fl)]
    its = iter_heads(fl)
    # entries of the dictionary being visited: recursion through the nested function
    rec = [n for n in nodes(fl, "call") if not n.d["inlined"] and (n.d["fn"].k == "closure" or any(x.name == n.d["name"] for x in inner) or n.d["name"] == f.name)]
    for h in its:
        for l in {l for _, l in h.succ} - {"done", "exc"}:
            def skip_ok(n, m, lab):
                # leave out: arrays (when excluded) and values of unsupported types
                if n.kind == "branch" and lab in ("T", "F"):
                    x, pol = canon_cond(n.d["cond"])
                    if is_call(x, "isinstance"):
                        tys = show(x.a[1][1])
                        if "ndarray" in tys:
                            return (lab == "T") != pol
                        if "VALID_LOG_VALS" in tys:
                            return (lab == "T") == pol
                return True
            p = find_path(edge_succ(h, l), [h, fl.exit_node], stores + rec, skip_start=False, edge_ok=skip_ok)
            c.decide(p is None, con + "/every entry", h.where, f"a loggable entry is lost: {describe(p)}")
        p = find_path(fl.entry_node, fl.exit_node, [h])
        c.decide(True if p is None else None, con + "/visited", h.where, "entries may not be visited at all")
    for n in stores:
        cl = closure(fl, n.d["index"])
        key = any(x.k in ("key", "elem") for x in cl)
        c.decide(key, con + "/key", n.where, "an entry is stored under a name that does not contain its key")
        pre = any(x.k == "param" and x.a[0] in ("prefix", "parent_key") or x.k == "loopphi" for x in cl)
        c.decide(pre, con + "/prefix", n.where, "an entry is stored under a name that does not contain its parents' keys")
    for n in rec:
        a = [*n.d["args"], *n.d["kw"].values()]
        if len(a) == 2:
            cl = closure(fl, a[1])
            key = any(x.k in ("key", "elem") for x in cl)
            c.decide(key, con + "/nested key", n.where, "nested entries lose the key of their dictionary")
            c.decide(any(x.k == "param" and x.a[0] in ("prefix", "parent_key") for x in cl), con + "/nested prefix", n.where, "nested entries lose their parents' keys")


@rule("L01")
def every_value_reaches_the_writer(c):
    """TensorboardLogger.write passes each entry of the prepared record to the writer under its scope at the given step."""
    k = c.p.cls("TensorboardLogger")
    fl = c.flow("write", k)
    con = "TensorboardLogger.write"
    adds = [n for n in nodes(fl, "call") if n.d["name"].startswith("add_") and n.d["recv"] is A("writer")]
    for h in iter_heads(fl):
        for l in {l for _, l in h.succ} - {"done", "exc"}:
            p = find_path(edge_succ(h, l), [h, fl.exit_node], adds, skip_start=False)
            c.decide(p is None, con + "/every entry", h.where, f"an entry is not written: {describe(p)}")
    for n in adds:
        gs = n.d["kw"].get("global_step") or arg(n, 2)
        c.decide(gs is P("step") if gs is not None and gs.k in ("param", "const") else (False if gs is None else None), con + "/step", n.where, "an entry is written at another step")
        cl = closure(fl, n.d["args"][0]) if n.d["args"] else set()
        c.decide(P("step_type") in cl, con + "/scope", n.where, "an entry is written outside its scope")
    w = c.p.cls("WandbLogger")
    fw = c.flow("write", w, opaque=("write",))
    ws = [n for n in calls(fw, "write") if n.d["recv"] is A("tensorboard_logger")]
    p = find_path(fw.entry_node, fw.exit_node, ws)
    c.decide(bool(ws) and p is None and all(list(n.d["args"]) == [P("step_type"), P("step"), P("data")] for n in ws), "WandbLogger.write", fw.entry.where, "records are not passed on to the wrapped logger unchanged")


@rule("L01")
def trainers_log_with_the_right_step(c):
    """Training and test records are logged at the environment step, updates at the gradient step, info at the epoch."""
    for k in trainers(c):
        opq = tuple(x for x in OPQ if x != "_update_moving_avg_stats_and_log_update_data") + ("get_loss_stats_dict", "_update_moving_avg_stats_and_get_averaged_data")
        fl = c.flow("__next__", k, opaque=opq)
        con = f"{k.name}.__next__"
        for kind in ("train", "test"):
            for n in calls(fl, f"log_{kind}_data"):
                s = arg(n, 1, "step")
                c.decide(False if s is None else stepish(fl, s), f"{con}/{kind} step", n.where, f"{kind} data are logged at step {show(s or NONE)[:60]}")
        for n in calls(fl, "log_update_data"):
            s = arg(n, 1, "step")
            ok = s is not None and all(v.k == "loopphi" or any(x is A("_gradient_step") for x in subterms(v)) for v in alts(s))
            c.decide(ok or (None if s is not None and s.k not in ("attr", "const") else False), con + "/update step", n.where, f"updates are logged at step {show(s or NONE)[:60]}")
        for n in calls(fl, "log_info_data"):
            s = arg(n, 1, "step")
            c.decide(s is not None and epochish(s), con + "/info step", n.where, f"infos are logged at step {show(s or NONE)[:60]}")
        for u in updates(fl):
            lg = calls(fl, "log_update_data")
            p = find_path(u, fl.exit_node, lg)
            c.decide(p is None, con + "/update logged", u.where, f"an update is not handed to the logger: {describe(p)}")


# ------------------------------------------------------------------ N03
@rule("N03")
def moving_average_keeps_the_latest_finite_values(c):
    """MovAvg appends each finite value given, keeps the last `size` of them, and reports their mean and deviation."""
    k = c.p.cls("MovAvg")
    fl = c.flow("add", k)
    con = "MovAvg.add"
    cache = A("cache")
    isc = lambda t: t is cache or t.k == "phi" and cache in alts(t) or any(v is cache for v in values(fl, t))
    apps = [n for n in calls(fl, "append") if n.d["recv"] is not None and isc(n.d["recv"])]
    if not apps:
        bulk = [n for n in calls(fl, "extend") if n.d["recv"] is not None and isc(n.d["recv"])]
        if not bulk:
            raise AnalysisBroken("MovAvg.add stores nothing")
        c.und(con, "values are stored in bulk")
    fin = lambda x: is_call(x, "isfinite") or is_call(x, "isnan") or is_call(x, "isinf")
    for a in apps:
        v = a.d["args"][0]
        c.decide(v.k == "elem" or None, con + "/value", a.where, f"{show(v)} is stored instead of the given value")
        chk = [n for n in find_branch(fl, lambda x: is_call(x, "isfinite") and x.a[1] and x.a[1][0] is v)]
        g = [x for x, pol in guards(fl, a) if is_call(x, "isfinite") and pol and x.a[1][0] is v]
        c.decide(bool(g) or (None if find_branch(fl, fin) else False), con + "/finite only", a.where, "values that are not finite enter the average")
        h = loop_of(fl, v)
        if h is not None:
            for l in {l for _, l in h.succ} - {"done", "exc"}:
                p = find_path(edge_succ(h, l), [h, fl.exit_node], apps, skip_start=False, edge_ok=cut(lambda x: is_call(x, "isfinite"), True))
                c.decide(p is None, con + "/all", h.where, f"a finite value is not stored: {describe(p)}")
                p = find_path(apps, apps, [h])
                c.decide(p is None, con + "/once", h.where, "a value is stored twice")
            src = h_source(v)
            vs = [w for w in values(fl, src)]
            c.decide(all(P(fl.entry.params()[1]) in closure(fl, w) for w in vs) if vs else None, con + "/given", h.where, "not the given values are stored")
    for s in setattrs(fl, "cache", base=SELF):
        v = s.d["value"]
        for w in alts(v):
            if w.k in ("sub",) and w.a[1].k == "slice":
                lo, hi, st = (list(w.a[1].a) + [NONE, NONE])[:3]
                def at(t):
                    if t is A("size"):
                        return "s"
                    if is_call(t, "len") and t.a[1] and isc(t.a[1][0]):
                        return "n"
                    return None
                pl = poly(lo, at)
                S_, N_ = Poly.x("s"), Poly.x("n")
                ok = hi is NONE and (pl == -S_ or pl == N_ - S_)
                c.decide(ok or (None if pl.atoms() - {"s", "n"} and lo is not NONE else False), con + "/window", s.where, f"the window keeps {show(w)} instead of the last `size` values")
            elif not isc(w):
                c.und(con + "/window", show(w)[:80])
        gs = guards(fl, s)
        if not any(x.k == "cmp" and A("size") in x.a and const(0) in x.a for x, _ in gs):
            c.und(con + "/window guard", "size <= 0 means unlimited")
    for m, fn in (("get", "mean"), ("mean", "mean"), ("std", "std")):
        fl = c.flow(m, k)
        full = cut(lambda x: any(is_call(y, "len") for y in subterms(x)) or x is cache, None)
        for v in alts(fl.ret_value) if fl.ret_value is not None else []:
            w = strip(v, "float", "item")
            if w.k == "const":
                c.decide(w.a[0] == 0, f"MovAvg.{m}/empty", fl.entry.where, "an empty average is not 0")
                continue
            ok = w.k == "call" and is_call(w, fn) and (w.a[1] and w.a[1][0] is cache or w.a[0].k == "attr" and w.a[0].a[0] is cache)
            c.decide(ok or (None if w.k == "call" and not any(is_call(w, z) for z in ("mean", "std", "median", "max", "min", "var", "sum", "average", "nanmean")) or w.k != "call" else False), f"MovAvg.{m}/{fn}", fl.entry.where, f"reports {show(v)}")


def h_source(v):
    return v.a[0]


@rule("N03")
def sequence_summaries_are_what_they_say(c):
    """SequenceSummaryStats.from_sequence computes each field with the function of the same name over the given values."""
    k = c.p.cls("SequenceSummaryStats")
    fl = c.flow("from_sequence", k)
    seq = P([x for x in fl.entry.params() if x not in ("cls", "self")][0])
    tot = 0
    for v in alts(fl.ret_value):
        if v.k != "call":
            c.und("from_sequence", show(v)[:80])
            continue
        kw = dict(v.a[2])
        for f in ("mean", "std", "max", "min"):
            w = kw.get(f)
            if w is None:
                c.und("from_sequence/" + f, "not given by name")
                continue
            tot += 1
            w = strip(w, "float", "item")
            if w.k == "const":
                c.decide(w.a[0] == 0, "from_sequence/empty " + f, fl.entry.where, "an empty sequence is not summarised by zeros")
                continue
            ok = w.k == "call" and is_call(w, f, "a" + f) and (w.a[1] and w.a[1][0] is seq or w.a[0].k == "attr" and w.a[0].a[0] is seq)
            other = w.k == "call" and any(is_call(w, g) for g in ("mean", "std", "max", "min", "var", "sum", "median", "nanmean", "nanstd"))
            c.decide(ok or (False if other else None), "from_sequence/" + f, fl.entry.where, f"{f} is {show(w)}")
            if ok and any(n for n, _ in w.a[2] if n in ("ddof",)):
                c.bad("from_sequence/" + f, fl.entry.where, f"{f} is {show(w)}")
    if not tot:
        raise AnalysisBroken("from_sequence builds no summary")


@rule("N03")
def collect_statistics_are_those_of_the_episodes(c):
    """CollectStats summarises returns by returns and lengths by lengths, with their own counts."""
    k = c.p.cls("CollectStats")
    for m in ("refresh_return_stats", "refresh_len_stats", "refresh_all_sequence_stats", "with_autogenerated_stats"):
        f = k.find(m)
        if f is None:
            continue
        fl = c.flow(f, k, opaque=("from_sequence",))
        for a, src in (("returns_stat", "returns"), ("lens_stat", "lens")):
            for s in setattrs(fl, a):
                v = s.d["value"]
                for w in alts(v):
                    if w is NONE:
                        continue
                    cl = set(subterms(w))
                    names = {x.a[1] for x in cl if x.k == "attr" and x.a[1] in ("returns", "lens")} | {x.a[0] for x in cl if x.k == "param" and x.a[0] in ("returns", "lens")}
                    c.decide(names == {src} if names else None, f"CollectStats.{m}/{a}", s.where, f"{a} is computed from {sorted(names)}")
            for n in nodes(fl, "call"):
                v = n.d["kw"].get(a)
                if v is None or v is NONE:
                    continue
                cl = set(subterms(v))
                names = {x.a[1] for x in cl if x.k == "attr" and x.a[1] in ("returns", "lens")} | {x.a[0] for x in cl if x.k == "param" and x.a[0] in ("returns", "lens")}
                c.decide(names == {src} if names else None, f"CollectStats.{m}/{a}", n.where, f"{a} is computed from {sorted(names)}")
