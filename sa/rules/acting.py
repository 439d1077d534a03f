"""Acting: exploration versus evaluation, legal actions, action mapping, sources of randomness."""
from __future__ import annotations

import ast

from ..alias import Alias
from ..core import rule
from ..flow import FALSE, NONE, TRUE, Term, canon_cond, const, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import Poly, arg, calls, closure, describe, find_path, nodes, setattrs, setsubs, skey, strip, values
from .policies import init_flow, policies, self_attr
from .returns import ONE, X, bare, callname, ew, operands
from .util import A, P, SELF, assume, field, live, rat, rat_eq, resolve, returned

BASE = "BasePolicy"
DET, MARK = A("deterministic_eval"), A("is_within_training_step")
FWD_OPQ = ("to_torch", "to_torch_as", "to_numpy", "from_sequence", "split", "cat")
CONV = ("to_numpy", "to_torch", "to_torch_as", "cast", "copy", "deepcopy", "detach", "cpu", "numpy", "astype", "squeeze", "asarray", "array")
DRAW_FN = ("rand", "randn", "randint", "random", "normal", "uniform", "choice", "permutation", "shuffle", "multinomial", "bernoulli", "randperm", "rand_like", "randn_like", "randint_like",
           "standard_normal", "exponential", "poisson", "beta", "gamma", "sample", "random_sample", "ranf", "gumbel", "laplace", "binomial", "categorical", "random_integers", "randrange", "choices",
           "triangular", "gauss", "dirichlet", "lognormal")
DRAW_M = ("sample", "rsample", "sample_n", "rsample_n", "multinomial", "bernoulli", "bernoulli_", "normal_", "uniform_", "exponential_", "random_", "geometric_", "cauchy_", "log_normal_")


def val_of(**flags):
    """Valuation of self attributes."""
    tab = {A(k): v for k, v in flags.items()}
    return lambda t: tab.get(t)


def quals(n):
    f = n.d.get("fn")
    return f.a[0] if f is not None and f.k == "global" else ""


def is_draw(n):
    """Does this call node draw random numbers?"""
    if n.kind != "call":
        return False
    q = quals(n)
    if q.startswith(("numpy.random.", "random.")):
        return n.d["name"] not in ("seed", "set_state", "get_state", "getstate", "setstate", "default_rng", "RandomState")
    if q.startswith("torch."):
        return n.d["name"] in ("rand", "randn", "randint", "normal", "multinomial", "bernoulli", "randperm", "rand_like", "randn_like", "randint_like", "poisson")
    return n.d["name"] in DRAW_M and n.d["recv"] is not None and n.d["recv"].k != "global" and not n.d["inlined"]


def has_param(c, k, name):
    """Does the constructor chain of k accept the named parameter?"""
    f = k.find("__init__")
    a = f.node.args
    return name in [x.arg for x in a.args + a.kwonlyargs]


def acts_by_mode(c, k):
    """Does the class's forward consult deterministic_eval?"""
    return any(DET in set(subterms(n.d["cond"])) for n in nodes(c.flow("forward", k, opaque=FWD_OPQ), "branch"))


# ------------------------------------------------------------------ P04: deterministic evaluation
def det_policies(c):
    out = [k for k in policies(c.p) if k.name != BASE and (has_param(c, k, "deterministic_eval") or acts_by_mode(c, k))]
    if len(out) < 8:
        raise AnalysisBroken(f"only {len(out)} policies with deterministic_eval")
    return out


@rule("P04")
def evaluation_setting_is_kept(c):
    """The deterministic_eval argument is what the policy's deterministic_eval attribute holds."""
    for k in det_policies(c):
        fl = init_flow(c, k)
        st = setattrs(fl, "deterministic_eval", base=SELF)
        vs = [v for n in st for v in values(fl, n.d["value"])]
        if not vs:
            c.bad(f"{k.name}.__init__/deterministic_eval", fl.entry.where, "deterministic_eval is never stored")
            continue
        if not has_param(c, k, "deterministic_eval"):
            c.decide(all(v.k == "const" for v in vs) or None, f"{k.name}.__init__/deterministic_eval", st[0].where, "")
            continue
        c.decide(all(v is P("deterministic_eval") for v in vs), f"{k.name}.__init__/deterministic_eval", st[0].where, f"deterministic_eval is set to {[show(v) for v in vs]}")


@rule("P04")
def deterministic_evaluation_uses_the_mode(c):
    """Forward with deterministic_eval set, outside a training step: no random draw, the action is the distribution's mode; in every other mode the action is drawn from the distribution."""
    for k in det_policies(c):
        fl = c.flow("forward", k, opaque=FWD_OPQ)
        if not any(is_draw(n) for n in nodes(fl, "call")):
            # a wrapper handing over to another policy is judged elsewhere
            if any(n.d["name"] == "forward" or n.d["fn"] is SELF for n in nodes(fl, "call")):
                c.und(f"{k.name}.forward", "no distribution is drawn from in the policy itself")
                continue
        for det in (True, False):
            for tr in (True, False):
                val = val_of(deterministic_eval=det, is_within_training_step=tr)
                ns = live(fl, val)
                draws = [n for n in ns if is_draw(n)]
                con = f"{k.name}.forward/deterministic_eval={det},training step={tr}"
                acts = [resolve(a, val) for n in ns if n.kind == "return" and len(n.stack) == 1 for a in [field(fl, n.d["value"], "act")] if a is not None]
                if det and not tr:
                    used = any(x.k == "call" and x in {n.d["term"] for n in draws} for a in acts for x in closure(fl, a))
                    c.decide(not draws or (False if used or not acts else None), con + "/no draw", draws[0].where if draws else "", f"a random draw {show(draws[0].d['term']) if draws else ''} happens in deterministic evaluation")
                    for a in acts:
                        at = {x.a[1] for x in closure(fl, a) if x.k == "attr"}
                        rnd = any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in DRAW_M for x in closure(fl, a))
                        nm = {callname(x) for x in closure(fl, a) if x.k == "call"}
                        normal = any(x.k == "call" and callname(x) in ("Normal", "Independent") for x in closure(fl, a))
                        good = "mode" in at or normal and at & {"mean", "loc"} or not normal and "argmax" in nm
                        wrong = rnd or not good and at & {"mean", "logits", "probs", "stddev", "variance", "entropy", "base_dist"} and not nm & {"argmax", "max"}
                        c.decide(True if good and not rnd else False if wrong else None, con + "/mode", fl.entry.where, f"the deterministic action is {show(a)}")
                    if not acts:
                        c.und(con + "/mode", "the action is not built in sight")
                else:
                    ids = {n.id for n in draws}
                    p = find_path([fl.entry_node], [fl.exit_node], draws, edge_ok=assume(val))
                    c.decide(p is None, con + "/draw", fl.entry.where, f"the action is not drawn from the distribution: {describe(p)}")
                    terms = {n.d["term"] for n in draws}
                    for a in acts:
                        got = any(x.k == "call" and (x in terms or x.a[0].k == "attr" and x.a[0].a[1] in DRAW_M) for x in closure(fl, a))
                        c.decide(got, con + "/act", fl.entry.where, f"the action {show(a)} is not the drawn one")


@rule("P04")
def forward_adds_no_noise_of_its_own(c):
    """A policy without a stochastic actor computes its action without drawing random numbers: exploration is left to exploration_noise."""
    n = 0
    for k in policies(c.p):
        if k.name == BASE or has_param(c, k, "deterministic_eval") or acts_by_mode(c, k) or k.qual.startswith("tianshou.policy.random."):
            continue
        f = k.find("forward")
        if f is None or f.cls is None or f.cls.name == BASE:
            continue
        fl = c.flow("forward", k, opaque=FWD_OPQ)
        d = [x for x in nodes(fl, "call") if is_draw(x) and not x.ctx]
        n += 1
        c.decide(not d, f"{k.name}.forward", d[0].where if d else "", f"the policy's own forward draws {show(d[0].d['term']) if d else ''}")
        ex = [x for x in nodes(fl, "call") if x.d["name"] == "exploration_noise"]
        c.decide(not ex, f"{k.name}.forward/noise", ex[0].where if ex else "", "forward adds exploration noise in every mode")
    if n < 8:
        raise AnalysisBroken(f"only {n} policies without deterministic_eval")


def noise_shape(a):
    """Is this the shape of the whole action (False: certainly another one)?"""
    while a is not None and a.k == "call" and callname(a) in ("tuple", "list") and operands(a):
        a = operands(a)[0]
    if a is None:
        return None
    sh = lambda t: t.k == "attr" and t.a[1] == "shape" and bare(t.a[0]) is P("act") or t.k == "call" and callname(t) == "shape" and operands(t) and bare(operands(t)[0]) is P("act")
    if sh(a):
        return True
    if a.k == "sub" and sh(a.a[0]) or a.k == "const" or a.k == "tuple" and any(x.k == "const" for x in a.a[0]):
        return False
    return None


def own_noise(c):
    """(class, Func) of each exploration_noise implementation that does something on its own."""
    seen = set()
    for k in policies(c.p):
        f = k.find("exploration_noise")
        if f is None or f.cls is None or f.cls.name == BASE or f.qual in seen:
            continue
        seen.add(f.qual)
        yield k, f


def isnp(t):
    return t.k == "call" and is_call(t, "isinstance") and t.a[1] and t.a[1][0] is P("act")


@rule("P04")
def additive_noise_is_added_when_configured(c):
    """A policy with a noise object returns the action plus a fresh sample of the action's shape, and the action itself when no noise is configured."""
    NOISE = A("_exploration_noise")
    tot = 0
    for k, f in own_noise(c):
        fl = c.flow(f, k)
        nz = [n for n in nodes(fl, "call") if n.d["fn"] is not None and self_attr(n.d["fn"]) and n.d["target"] is None and "noise" in self_attr(n.d["fn"])]
        if not nz and not any(x.k == "attr" and x.a[0] is SELF and x.a[1].endswith("noise") for n in nodes(fl) if n.kind == "branch" for x in subterms(n.d["cond"])):
            continue
        tot += 1
        con = f"{k.name}.exploration_noise"
        at = nz[0].d["fn"] if nz else NOISE
        is_none = Term("cmp", "is", at, NONE)
        on = lambda t: False if t is is_none else True if t is at or isnp(t) else None
        off = lambda t: True if t is is_none else False if t is at else True if isnp(t) else None
        on_live = [n for n in live(fl, on) if n in nz]
        p = find_path([fl.entry_node], [fl.exit_node], nz, edge_ok=assume(on))
        c.decide(p is None, con + "/configured", fl.entry.where, f"no noise is drawn although it is configured: {describe(p)}")
        for v in returned(fl, on):
            n, d = rat(bare(v), lambda t: X("act") if bare(t) is P("act") else X("noise") if t.k == "call" and t.a[0] is at else None)
            ats = n.atoms() | d.atoms()
            inplace = bare(v) is P("act") and any(s.d["value"] is not None and any(x.k == "call" and x.a[0] is at for x in closure(fl, s.d["value"])) for s in [*setsubs(fl), *nodes(fl, "aug")])
            ok = n == (X("act") + X("noise")) * d
            c.decide(True if ok or inplace else False if ats <= {"act", "noise"} else None, con + "/sum", fl.entry.where, f"with noise configured the action becomes {show(v)}")
        for n in on_live:
            a = arg(n, 0, "size")
            c.decide(noise_shape(a), con + "/shape", n.where, f"noise of shape {show(a) if a else '?'} is added to the whole action")
        bad = [n for n in live(fl, off) if n in nz]
        c.decide(not bad, con + "/off", bad[0].where if bad else "", "noise is drawn although none is configured")
        for v in returned(fl, off):
            c.decide(strip(v, *CONV) is P("act") or (None if v.k == "phi" else False), con + "/off value", fl.entry.where, f"without noise the action becomes {show(v)}")
        # the attribute is configured by the constructor and the setter
        ifl = init_flow(c, k)
        st = setattrs(ifl, at.a[1], base=SELF)
        vs = [v for n in st for v in values(ifl, n.d["value"])]
        c.decide(any(v.k == "param" for v in vs) if vs else False, con + "/constructor", st[0].where if st else ifl.entry.where, f"the noise object is {[show(v) for v in vs]}, not the configured one")
        s = k.find("set_exp_noise")
        if s is not None:
            sfl = c.flow(s, k)
            ss = setattrs(sfl, at.a[1], base=SELF)
            pr = [x.arg for x in s.node.args.args][1:]
            c.decide(bool(ss) and all(n.d["value"].k == "param" and n.d["value"].a[0] in pr for n in ss), con + "/setter", sfl.entry.where, "set_exp_noise does not replace the noise that is added")
    if not tot:
        raise AnalysisBroken("no additive exploration noise found")


def eps_zero(t):
    """Polarity: +1 when the condition says that eps is zero."""
    return t.k == "call" and callname(t) in ("isclose",) and A("eps") in operands(t) or t.k == "cmp" and A("eps") in t.a[1:] and (const(0) in t.a[1:] or const(0.0) in t.a[1:])


def eps_val(zero):
    def val(t):
        if isnp(t):
            return True
        if t.k == "call" and callname(t) == "isclose" and A("eps") in operands(t):
            return zero
        if t.k == "cmp" and A("eps") in t.a[1:] and any(x.k == "const" and x.a[0] == 0 for x in t.a[1:]):
            if t.a[0] == "==":
                return zero
            if t.a[0] == "<":
                return (not zero) if t.a[2] is A("eps") else False
            if t.a[0] == ">":
                return (not zero) if t.a[1] is A("eps") else False
        if t is A("eps"):
            return not zero
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:]:
            return False
        return None
    return val


def row_mask(fl, t):
    """+1: rows where a uniform number is below eps; -1: the complement; None: something else."""
    pol = 1
    while t.k == "un" and t.a[0] in ("~", "not") or t.k == "call" and callname(t) in ("logical_not", "invert"):
        t = t.a[1] if t.k == "un" else operands(t)[0]
        pol = -pol
    if t.k == "call" and callname(t) in ("where", "nonzero", "flatnonzero", "array", "asarray") and len(operands(t)) == 1:
        return row_mask(fl, operands(t)[0]) and pol * row_mask(fl, operands(t)[0])
    if t.k == "sub" and t.a[1] is const(0) or t.k == "item":
        x = t.a[0]
        if x.k == "call" and callname(x) in ("where", "nonzero"):
            return row_mask(fl, x)
    if t.k == "cmp" and A("eps") in t.a[1:]:
        l, r = t.a[1], t.a[2]
        o = r if l is A("eps") else l
        if not (o.k == "call" and o.a[0].k == "global" and o.a[0].a[0].startswith("numpy.random.") and callname(o) in ("rand", "random", "random_sample", "uniform")):
            return None
        lt = t.a[0] in ("<", "<=") and r is A("eps") or t.a[0] in (">", ">=") and l is A("eps")
        return pol if lt else -pol if t.a[0] in ("<", "<=", ">", ">=") else None
    return None


def random_choice(fl, t):
    """Are these values drawn at random?"""
    return any(x.k == "call" and x.a[0].k == "global" and x.a[0].a[0].startswith(("numpy.random.", "torch.rand")) or x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "sample" for x in closure(fl, t))


@rule("P04")
def epsilon_greedy_replaces_the_drawn_rows(c):
    """Epsilon-greedy exploration replaces exactly the rows whose uniform draw is below eps by random actions and leaves the action unchanged when eps is zero."""
    tot = 0
    for k, f in own_noise(c):
        fl = c.flow(f, k)
        if not any(x is A("eps") for n in nodes(fl) for t in n.d.values() if isinstance(t, Term) for x in subterms(t)):
            continue
        tot += 1
        con = f"{k.name}.exploration_noise"
        on, off = eps_val(False), eps_val(True)
        sets = [n for n in setsubs(fl) if bare(n.d["base"]) is P("act")]
        for n in live(fl, off):
            if n in sets:
                m = row_mask(fl, n.d["index"])
                c.decide(m == 1 or (False if m == -1 else None), con + "/eps=0", n.where, "actions are replaced although eps is zero")
        good = []
        for n in live(fl, on):
            if n in sets:
                m = row_mask(fl, n.d["index"])
                v = n.d["value"]
                c.decide(None if m is None else m == 1, con + "/rows", n.where, f"the rows {show(n.d['index'])} are replaced: not those whose draw is below eps")
                c.decide(random_choice(fl, v), con + "/random", n.where, f"the rows are replaced by {show(v)}, which is not random")
                if v.k == "sub":
                    c.decide(v.a[1] is n.d["index"] or row_mask(fl, v.a[1]) == m or None, con + "/same rows", n.where, "the random actions are taken from other rows")
                good.append(n)
        for v in returned(fl, on):
            b = bare(v)
            if b.k == "call" and callname(b) == "where" and len(operands(b)) == 3:
                m, x, y = operands(b)
                pol = row_mask(fl, m)
                if pol == -1:
                    x, y, pol = y, x, 1
                if pol == 1:
                    c.decide(bare(y) is P("act") and random_choice(fl, x), con + "/rows", fl.entry.where, f"the explored action is {show(v)}")
                    good.append(v)
        if good:
            nd = [g for g in good if not isinstance(g, Term)]
            if nd:
                p = find_path([fl.entry_node], [fl.exit_node], nd, edge_ok=assume(on))
                c.decide(p is None, con + "/always", fl.entry.where, f"nothing is explored although eps is positive: {describe(p)}")
        else:
            c.decide(None if any(n.kind == "setsub" and n not in sets for n in nodes(fl)) else False, con + "/always", fl.entry.where, "nothing is explored although eps is positive")
        for v in returned(fl, off):
            c.decide(bare(v) is P("act") or (None if v.k in ("phi", "call") else False), con + "/eps=0 value", fl.entry.where, f"with eps zero the action becomes {show(v)}")
        s = k.find("set_eps")
        if s is not None:
            sfl = c.flow(s, k)
            ss = setattrs(sfl, "eps", base=SELF)
            c.decide(bool(ss) and all(n.d["value"].k == "param" for n in ss), f"{k.name}.set_eps", sfl.entry.where, "set_eps does not set the exploration rate")
    if not tot:
        raise AnalysisBroken("no epsilon-greedy exploration found")


@rule("P04")
def noise_processes_draw_what_they_are_configured_for(c):
    """The noise objects draw from the configured distribution, of the requested size."""
    g = c.p.cls("GaussianNoise")
    fl = c.flow("__call__", g)
    ifl = c.flow("__init__", g)
    conf = {n.d["attr"]: n.d["value"] for n in setattrs(ifl, base=SELF)}
    size = Term("param", [x.arg for x in fl.entry.node.args.args][1])

    def leaf(t):
        a = self_attr(t)
        if a in conf and conf[a].k == "param":
            return X(conf[a].a[0])
        if t.k == "call" and t.a[0].k == "global" and t.a[0].a[0].startswith("numpy.random."):
            kw = dict(t.a[2])
            nm = callname(t)
            if nm in ("standard_normal", "randn"):
                return X("z")
            if nm == "normal":
                ops = list(t.a[1])
                lo = kw.get("loc", ops[0] if ops else const(0.0))
                sc = kw.get("scale", ops[1] if len(ops) > 1 else const(1.0))
                (ln, ld), (sn, sd) = rat(lo, leaf), rat(sc, leaf)
                if ld == sd == ONE:
                    return ln + sn * X("z")
        return None
    r = rat(fl.ret_value, leaf)
    want = (X("mu") + X("sigma") * X("z"), ONE)
    known = (r[0].atoms() | r[1].atoms()) <= {"mu", "sigma", "z"}
    c.decide(True if rat_eq(r, want) else False if known else None, "GaussianNoise.__call__", fl.entry.where, f"the noise is {r[0]}, not mu + sigma*z")
    szs = [x for n in nodes(fl, "call") if is_draw(n) for x in [*n.d["args"], *n.d["kw"].values()] if x is size or any(y is size for y in subterms(x))]
    c.decide(bool(szs), "GaussianNoise.__call__/size", fl.entry.where, "the noise does not have the requested size")
    o = c.p.cls("OUNoise")
    fl = c.flow("__call__", o)
    ifl = c.flow("__init__", o, opaque=("reset",))
    conf = {n.d["attr"]: n.d["value"] for n in setattrs(ifl, base=SELF)}
    mu = P("mu")
    val = lambda t: (False if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and A("_x") in t.a[1:] else
                     True if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and mu in t.a[1:] else
                     False if t.k == "call" and is_call(t, "isinstance") else None)

    def leaf2(t):
        a = self_attr(t)
        if a == "_x":
            return X("x")
        if a in conf:
            return rat(conf[a], leaf3)[0]
        if t.k == "call" and t.a[0].k == "global" and t.a[0].a[0].startswith("numpy.random.") and callname(t) in ("normal", "standard_normal", "randn"):
            ops, kw = list(t.a[1]), dict(t.a[2])
            sc = kw.get("scale", ops[1] if len(ops) > 1 and callname(t) == "normal" else const(1.0))
            n, d = rat(sc, leaf2)
            return n * X("z") if d == ONE else None
        return None

    def leaf3(t):
        if t.k == "param":
            return X(t.a[0])
        if t.k == "call" and callname(t) == "sqrt" and operands(t) and operands(t)[0] is P("dt"):
            return X("sqrtdt")
        if t.k in ("bin",) and t.a[0] == "**" and t.a[1] is P("dt"):
            return X("sqrtdt")
        return None
    rs = returned(fl, val)
    for r0 in rs:
        r = rat(r0, leaf2)
        want = (X("x") + X("theta") * X("dt") * (X("mu") - X("x")) + X("sigma") * X("sqrtdt") * X("z"), ONE)
        known = (r[0].atoms() | r[1].atoms()) <= {"mu", "sigma", "z", "x", "theta", "dt", "sqrtdt"}
        c.decide(True if rat_eq(r, want) else False if known else None, "OUNoise.__call__", fl.entry.where, f"the process moves to {r[0]}")
    sx = [n for n in setattrs(fl, "_x", base=SELF)]
    c.decide(bool(sx) and find_path([fl.entry_node], [fl.exit_node], sx[-1:]) is None, "OUNoise.__call__/state", fl.entry.where, "the process does not keep its new position")
    rf = c.flow("reset", o)
    c.decide(any(n.d["value"] is A("_x0") or "x0" in show(n.d["value"]) for n in setattrs(rf, "_x", base=SELF)), "OUNoise.reset", rf.entry.where, "reset does not put the process back to its start")


@rule("P04")
def collector_explores_exactly_when_asked(c):
    """The collector applies the policy's exploration noise to the action it computes exactly when its exploration_noise is set; what is stored and what is stepped both come from the explored action."""
    k = c.p.cls("Collector")
    fl = c.flow("_compute_action_policy_hidden", k, opaque=("to_numpy", "to_torch", "_HACKY_create_info_batch"))
    con = "Collector._compute_action_policy_hidden"
    POL, FLAG = A("policy"), A("exploration_noise")
    ex = [n for n in calls(fl, "exploration_noise") if n.d["recv"] is POL]
    base = {P("random"): False}
    on = lambda t: True if t is FLAG else base.get(t)
    off = lambda t: False if t is FLAG else base.get(t)
    p = find_path([fl.entry_node], [fl.exit_node], ex, edge_ok=assume(on))
    c.decide(p is None, con + "/on", fl.entry.where, f"exploration is asked for but not applied: {describe(p)}")
    bad = [n for n in live(fl, off) if n in ex]
    c.decide(not bad, con + "/off", bad[0].where if bad else "", "exploration noise is added although it was not asked for")
    pol = [n.d["term"] for n in nodes(fl, "call") if n.d["fn"] is POL or n.d["name"] == "forward" and n.d["recv"] is POL]
    own = lambda t: any(strip(t, *CONV) is Term("attr", q, "act") for q in pol)
    for n in ex:
        a = arg(n, 0, "act")
        c.decide(a is not None and own(resolve(a, on)) or None, con + "/argument", n.where, "noise is added to something other than the policy's action")
        b = arg(n, 1, "batch")
        qs = [x.a[1][0] for x in pol if x.a[1]]
        c.decide(b is not None and (b in qs) or None, con + "/batch", n.where, "noise is computed for another observation")
    terms = {n.d["term"] for n in ex}
    for val, what in ((on, "on"), (off, "off")):
        for v in returned(fl, val):
            act = field(fl, v, "act")
            norm = field(fl, v, "act_normalized")
            if act is None or norm is None:
                c.und(con + f"/{what}", "the result is not built in sight")
                continue
            src = strip(norm, *CONV)
            mapped = src.a[1][0] if src.k == "call" and callname(src) == "map_action" and src.a[1] else dict(src.a[2]).get("act") if src.k == "call" and callname(src) == "map_action" else None
            for nm, t in (("stored", act), ("stepped", mapped)):
                if t is None:
                    c.decide(False if own(src) or src in terms else None, f"{con}/{what}/mapped", fl.entry.where, "the action is stepped without being mapped to the action space")
                    continue
                t = strip(t, *CONV)
                explored = t in terms or any(resolve(x, val) is t for x in terms)
                c.decide((explored if what == "on" else own(t)) or (False if (own(t) if what == "on" else explored) else None), f"{con}/{what}/{nm}", fl.entry.where,
                         f"the {nm} action is {show(t)} with exploration {what}")
    ifl = c.flow("__init__", k, opaque=("reset", "_validate_buffer", "reset_env"))
    st = setattrs(ifl, "exploration_noise", base=SELF)
    vs = [v for n in st for v in values(ifl, n.d["value"])]
    c.decide(bool(vs) and all(v is P("exploration_noise") for v in vs), "Collector.__init__/exploration_noise", ifl.entry.where, f"the collector explores by {[show(v) for v in vs]}, not as configured")
    for s in sorted(c.p.subclasses(k.qual), key=lambda s: s.qual):
        f = s.methods.get("__init__")
        if s is k or f is None or not has_param(c, s, "exploration_noise"):
            continue
        sf = c.flow(f, s, opaque=("reset", "_validate_buffer", "reset_env"))
        st = setattrs(sf, "exploration_noise", base=SELF)
        vs = [v for n in st for v in values(sf, n.d["value"])]
        c.decide(bool(vs) and all(v is P("exploration_noise") for v in vs), f"{s.name}.__init__/exploration_noise", sf.entry.where, f"the collector explores by {[show(v) for v in vs]}, not as configured")


def is_collector(n):
    t = n.d["fn"]
    while t is not None and t.k == "sub":
        t = t.a[0]
    return t is not None and t.k == "global" and t.a[0].rsplit(".", 1)[-1] in ("Collector", "AsyncCollector")


@rule("P04")
def experiments_explore_in_training_only(c):
    """The high-level interface creates its training collector with exploration and its test collector without."""
    fl = c.flow("create_train_test_collector", "AgentFactory")
    got = {"train": [], "test": []}
    for n in nodes(fl, "call"):
        if not is_collector(n):
            continue
        envs = [x for a in [*n.d["args"], *n.d["kw"].values()] for x in values(fl, a)]
        which = "test" if any(x.k == "attr" and x.a[1] == "test_envs" for x in envs) else "train" if any(x.k == "attr" and x.a[1] == "train_envs" for x in envs) else None
        if which:
            got[which].append(n)
    for w in got:
        for n in got[w]:
            v = n.d["kw"].get("exploration_noise", n.d["args"][3] if len(n.d["args"]) > 3 else FALSE)
            c.decide(v is (TRUE if w == "train" else FALSE) or (False if v.k == "const" else None), f"create_train_test_collector/{w}", n.where, f"the {w} collector is created with exploration_noise={show(v)}")
        if not got[w]:
            c.und(f"create_train_test_collector/{w}", "the collector is not created in sight")


# ------------------------------------------------------------------ P06: legal actions
def mask_poly(t, is_mask):
    """Element-wise polynomial of a mask expression in the 0/1 atom m (None: not one)."""
    n, d = ew(t, lambda x, idx: X("m") if is_mask(x) else None)
    return n if d == ONE and n.atoms() <= {"m"} else None


def legality(t, is_mask):
    """'illegal' / 'legal': the entries this index or condition selects."""
    n = mask_poly(t, is_mask)
    if n is None:
        return None
    return "illegal" if n == ONE - X("m") else "legal" if n == X("m") else None


def bottom(v, rand):
    """Is v below every score (rand: scores are drawn from [0, 1))?"""
    v = bare(v)
    if v.k == "const":
        return rand and v.a[0] < 0 or v.a[0] == float("-inf") if isinstance(v.a[0], int | float) else None
    if v.k == "un" and v.a[0] == "-":
        w = bare(v.a[1])
        if w.k == "global":
            return True if w.a[0].lower().endswith("inf") else None
        if w.k == "const" and isinstance(w.a[0], int | float):
            return bool(rand and w.a[0] > 0 or w.a[0] == float("inf"))
        if is_call(w, "float") and operands(w)[0].k == "const":
            return "inf" in str(operands(w)[0].a[0])
        if w.k == "attr" and w.a[1] == "inf":
            return True
        if w.k == "attr" and w.a[1] == "max" and w.a[0].k == "call" and callname(w.a[0]) == "finfo":
            return True
        return None
    if v.k == "call" and callname(v) == "float" and operands(v) and operands(v)[0].k == "const":
        return str(operands(v)[0].a[0]).strip().lower() in ("-inf", "-infinity")
    if v.k == "global" and v.a[0].upper().endswith(("NINF",)):
        return True
    if v.k == "attr" and v.a[1] == "min" and v.a[0].k == "call" and callname(v.a[0]) == "finfo":
        return True
    # x.min() - 1 and the like: a finite distance that is lost to rounding for large scores
    return False if any(x.k == "call" and callname(x) in ("min", "max", "amin", "amax", "abs") for x in subterms(v)) and v.k in ("bin", "ibin") and not rand else None


def uniform01(t):
    t = bare(t)
    return t.k == "call" and t.a[0].k == "global" and t.a[0].a[0].startswith(("numpy.random.", "torch.")) and (
        callname(t) in ("rand", "random", "random_sample", "ranf", "rand_like") or callname(t) == "uniform" and not t.a[1] and not ({k for k, _ in t.a[2]} - {"size"}))


def masked_scores(fl, t, is_mask, at=None):
    """(verdict, why): can the maximum of t only be a legal entry?"""
    t = bare(t)
    if t.k == "phi":
        rs = [masked_scores(fl, x, is_mask, at) for x in t.a[0]]
        if all(r[0] is True for r in rs):
            return rs[0]
        bad = [r for r in rs if r[0] is False]
        return (None, "merged") if not bad or len(bad) < len(rs) else bad[0]
    rand = uniform01(t)
    # entries written into the scores
    sets = [n for n in setsubs(fl) if bare(n.d["base"]) is t]
    if sets:
        ill = [n for n in sets if legality(n.d["index"], is_mask) == "illegal"]
        leg = [n for n in sets if legality(n.d["index"], is_mask) == "legal"]
        if leg and not ill:
            return False, f"the legal entries are overwritten: [{show(leg[0].d['index'])}]"
        if ill:
            b = bottom(ill[0].d["value"], rand)
            if b is False:
                return False, f"illegal entries become {show(ill[0].d['value'])}, which need not be below the legal ones"
            if b is True and at is not None and find_path([fl.entry_node], at, ill) is not None:
                return None, "only on some paths"
            return b, "" if b else "unknown fill value"
        return None, "unknown write"
    if t.k == "call" and callname(t) in ("masked_fill", "masked_fill_", "where"):
        ops = operands(t)
        f = t.a[0]
        if len(ops) == 3:
            if callname(t) == "where":
                m, x, y = (ops[1], ops[0], ops[2]) if f.k == "attr" and f.a[0].k != "global" and bare(f.a[0]) is ops[0] else ops
                lg = legality(m, is_mask)
                if lg is None:
                    return None, "unknown condition"
                fill, keep = (x, y) if lg == "illegal" else (y, x)
            else:
                keep, m, fill = ops
                lg = legality(m, is_mask)
                if lg is None:
                    return None, "unknown condition"
                if lg == "legal":
                    return False, "the legal entries are filled"
            if callname(t) == "where" and bottom(fill, False) is not True and bottom(keep, False) is True:
                return False, "the legal entries are filled"
            b = bottom(fill, uniform01(keep))
            return b, "" if b else f"illegal entries become {show(fill)}, which need not be below the legal ones"
        return None, "unknown fill"
    if t.k in ("bin", "ibin") or t.k == "call" and callname(t) in ("add", "sub", "mul"):
        n, d = ew(t, lambda x, idx: X("m") if is_mask(x) else X("r") if uniform01(x) else None)
        if d == ONE and n.atoms() <= {"m", "r"} and "r" in n.atoms():
            b, a = n.coeff("m"), n.coeff("r")
            if n == a * X("r") + b * X("m") + Poly.c(0) and not a.atoms() and not b.atoms():
                av, bv = a.const_value() if hasattr(a, "const_value") else cval(a), cval(b)
                if av is not None and bv is not None:
                    return (bv >= av > 0), f"scores {n} of legal entries (m=1) may be below those of illegal ones"
        if "m" in n.atoms():
            return False, f"illegal entries are only moved by a finite amount: {show(t)}"
        if any(is_mask(x) for x in subterms(t)):
            return None, "unknown use of the mask"
        return False, "the mask is not applied"
    if any(is_mask(x) for x in subterms(t)):
        return None, "unknown use of the mask"
    return False, "the mask is not applied"


def cval(p):
    """Value of a constant polynomial."""
    if p == Poly({}):
        return 0
    for v in (1, 2, 3, 10, 100, -1, 1.0, 2.0, 10.0, 0.5, 100.0, 1000, 1e6, 1e9):
        if p == Poly.c(v):
            return v
    d = getattr(p, "d", None) or getattr(p, "t", None) or getattr(p, "m", None)
    if isinstance(d, dict) and len(d) == 1 and not p.atoms():
        return next(iter(d.values()))
    return None


NOMASK = ("BranchingDQNPolicy", "DiscreteBCQPolicy")  # do not support masks: see DESIGN.md


def mask_policies(c):
    out = [k for k in policies(c.p) if (k.find("compute_q_value") is not None and k.name not in NOMASK)]
    if len(out) < 5:
        raise AnalysisBroken(f"only {len(out)} policies with compute_q_value")
    return out


@rule("P06")
def masked_scores_are_below_all_others(c):
    """compute_q_value with a mask: illegal entries get a score below every legal one, whatever the scores; without a mask they are left alone."""
    for k in mask_policies(c):
        f = k.find("compute_q_value")
        fl = c.flow(f, k, opaque=FWD_OPQ)
        ps = [a.arg for a in f.node.args.args if a.arg != "self"]
        if len(ps) < 2:
            c.und(f"{k.name}.compute_q_value", "parameters changed")
            continue
        M = P(ps[1])
        none = Term("cmp", "is", M, NONE)
        con = f"{k.name}.compute_q_value"
        on = lambda t: False if t is none else None
        for v in returned(fl, on):
            r, why = masked_scores(fl, v, lambda x: x is M, fl.exit_node)
            c.decide(r, con, fl.entry.where, why)
        off = lambda t: True if t is none else None
        for v in returned(fl, off):
            used = any(x is M for x in subterms(v))
            c.decide(not used or None, con + "/no mask", fl.entry.where, "")


@rule("P06")
def greedy_actions_maximise_masked_scores(c):
    """Forward takes the maximum of the masked scores, with the mask of the given observation."""
    for k in mask_policies(c):
        f = k.find("forward")
        fl = c.flow(f, k, opaque=(*FWD_OPQ, "compute_q_value"))
        con = f"{k.name}.forward"
        cq = {n.d["term"]: n for n in calls(fl, "compute_q_value")}
        acts = [a for n in nodes(fl, "return") if len(n.stack) == 1 for a in [field(fl, n.d["value"], "act")]]
        if not acts or None in acts:
            c.und(con, "the action is not built in sight")
            continue
        for a in acts:
            t = bare(a)
            idx = None
            if t.k == "sub" and t.a[1] is const(1) or t.k == "item" and t.a[1] == 1 or t.k == "attr" and t.a[1] == "indices":
                idx, t = t, t.a[0]
            elif (t.k == "sub" and t.a[1] is const(0) or t.k == "item" and t.a[1] == 0 or t.k == "attr" and t.a[1] == "values") and t.a[0].k == "call" and callname(t.a[0]) in ("max", "topk") and len(operands(t.a[0])) > 1:
                c.bad(con + "/argmax", fl.entry.where, f"the action {show(a)} is the maximal score, not the index of it")
                continue
            if not (t.k == "call" and callname(t) in ("argmax", "max", "topk", "argsort")):
                c.decide(None if any(x in cq for x in closure(fl, a)) else False, con + "/argmax", fl.entry.where, f"the action {show(a)} is not the maximum of the masked scores")
                continue
            src = bare(operands(t)[0])
            c.decide(src in cq or (None if any(x in cq for x in closure(fl, src)) else False), con + "/argmax", fl.entry.where, f"the action maximises {show(src)}, not the masked scores")
            kw = dict(t.a[2])
            dim = kw.get("dim", kw.get("axis", operands(t)[1] if len(operands(t)) > 1 else None))
            c.decide(dim is not None and dim.k == "const" and dim.a[0] in (1, -1) or (False if dim is None or dim.k == "const" else None), con + "/dim", fl.entry.where, f"the maximum runs over dimension {show(dim) if dim else None}")
        for t, n in cq.items():
            # unbound calls (DQNPolicy.compute_q_value(self, q, mask)) carry self first
            args = [x for x in n.d["args"] if x is not SELF]
            m = args[1] if len(args) > 1 else n.d["kw"].get("mask")
            if m is None:
                c.bad(con + "/mask", n.where, "no mask is given")
                continue
            ok = [v for v in values(fl, m) if v is not NONE]
            good = ok and all(named_mask(v) for v in ok)
            c.decide(True if good else False if not ok else None, con + "/mask", n.where, f"the scores are masked with {show(m)}, not with the observation's mask")
            if good:
                obs = {skey(v.a[0] if v.k in ("attr", "sub") else v.a[1][0] if v.a[0].k == "global" else v.a[0].a[0]) for v in ok}
                c.decide(all("batch" in o for o in obs), con + "/own mask", n.where, "the mask is not that of the given observation")


def named_mask(v):
    if v.k == "attr" and v.a[1] == "mask":
        return True
    if v.k == "sub" and v.a[1] is const("mask"):
        return True
    return v.k == "call" and callname(v) in ("getattr", "get", "pop") and const("mask") in v.a[1]


@rule("P06")
def random_exploration_is_legal(c):
    """Epsilon exploration chooses its random actions among the legal ones when the observation carries a mask."""
    seen = set()
    for k in mask_policies(c):
        f = k.find("exploration_noise")
        if f is None or f.cls.name == BASE or f.qual in seen:
            continue
        seen.add(f.qual)
        fl = c.flow(f, k)
        con = f"{f.cls.name}.exploration_noise"
        ev = eps_val(False)

        def val(t):
            if t.k == "call" and callname(t) == "hasattr" and const("mask") in t.a[1]:
                return True
            if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and any(named_mask(x) for x in t.a[1:]):
                return False
            if t.k == "cmp" and t.a[0] == "in" and t.a[1] is const("mask"):
                return True
            return ev(t)
        tot = 0
        for n in live(fl, val):
            if n.kind == "call" and n.d["name"] in ("argmax", "max"):
                ops = operands(n.d["term"])
                t = resolve(ops[0], val)
                tot += 1
                r, why = masked_scores(fl, t, named_mask, n)
                c.decide(r, con + "/random", n.where, why)
                kw = n.d["kw"]
                ax = kw.get("axis", kw.get("dim", ops[1] if len(ops) > 1 else None))
                c.decide(ax is not None and ax.k == "const" and ax.a[0] in (1, -1) or (False if ax is None or ax.k == "const" else None), con + "/axis", n.where, f"the maximum runs over axis {show(ax) if ax else None}")
        if not tot:
            w = [n for n in live(fl, val) if n.kind == "setsub" and bare(n.d["base"]) is P("act")]
            for n in w:
                us = any(named_mask(x) for x in closure(fl, resolve(n.d["value"], val)))
                c.decide(None if us else False, con + "/random", n.where, f"the random actions {show(n.d['value'])} ignore the mask")


@rule("P06")
def random_policies_choose_legal_actions(c):
    """The random policy of multi-agent training picks the maximum of random scores whose illegal entries are lowest."""
    k = c.p.cls("MARLRandomPolicy")
    fl = c.flow("forward", k)
    con = "MARLRandomPolicy.forward"
    tot = 0
    for n in nodes(fl, "return"):
        if len(n.stack) != 1:
            continue
        a = field(fl, n.d["value"], "act")
        if a is None:
            c.und(con, "the action is not built in sight")
            continue
        tot += 1
        t = bare(a)
        if t.k == "call" and callname(t) == "argmax":
            at = [m for m in nodes(fl, "call") if m.d["term"] is t]
            r, why = masked_scores(fl, operands(t)[0], named_mask, at[0] if at else n)
            c.decide(r, con, n.where, why)
            kw = dict(t.a[2])
            ax = kw.get("axis", operands(t)[1] if len(operands(t)) > 1 else None)
            c.decide(ax is not None and ax.k == "const" and ax.a[0] in (1, -1) or (False if ax is None or ax.k == "const" else None), con + "/axis", n.where, f"the maximum runs over axis {show(ax) if ax else None}")
        else:
            c.decide(None if any(named_mask(x) for x in closure(fl, a)) else False, con, n.where, f"the action {show(a)} ignores the mask")
    if not tot:
        c.und(con, "no action found")


# ------------------------------------------------------------------ P08: action mapping
LOW, HIGH, SPACE = A("low", A("action_space")), A("high", A("action_space")), A("action_space")
METHOD, SCALING = A("action_bound_method"), A("action_scaling")


def map_val(box, method, scaling):
    def val(t):
        if t.k == "call" and is_call(t, "isinstance") and len(t.a[1]) == 2:
            if t.a[1][0] is SPACE:
                ty = show(t.a[1][1])
                if ty.endswith("Box"):
                    return box
                if ty.endswith(("Discrete", "MultiBinary")):
                    return not box
                return None
            if bare(t.a[1][0]) is P("act"):
                return True if show(t.a[1][1]).endswith("ndarray") else None
        if t is Term("cmp", "==", A("action_type"), const("continuous")) or t is Term("cmp", "==", A("_action_type"), const("continuous")):
            return box
        if t is SCALING:
            return scaling
        if t is METHOD:
            return method is not None
        if t.k == "cmp" and METHOD in t.a[1:]:
            o = t.a[2] if t.a[1] is METHOD else t.a[1]
            if t.a[0] in ("==", "is") and o.k == "const":
                return o.a[0] == method
            if t.a[0] == "in" and o.k in ("tuple", "list", "set") and all(x.k == "const" for x in o.a[0]):
                return method in [x.a[0] for x in o.a[0]]
        return None
    return val


def num(t):
    """Numeric constant behind a term."""
    t = bare(t)
    if t.k == "un" and t.a[0] == "-":
        v = num(t.a[1])
        return None if v is None else -v
    return t.a[0] if t.k == "const" and isinstance(t.a[0], int | float) and not isinstance(t.a[0], bool) else None


def bounded(t):
    """'clip' / 'tanh' / 'clip?': how a term bounds the action."""
    if t.k != "call":
        return None
    ops = operands(t)
    nm = callname(t)
    kw = dict(t.a[2])
    if nm in ("clip", "clamp", "clamp_") and ops and bare(ops[0]) is P("act"):
        lo = ops[1] if len(ops) > 1 else kw.get("a_min", kw.get("min"))
        hi = ops[2] if len(ops) > 2 else kw.get("a_max", kw.get("max"))
        if lo is None or hi is None:
            return None
        lo, hi = num(lo), num(hi)
        return "clip" if (lo, hi) == (-1, 1) else "clip?" if lo is not None and hi is not None else None
    if nm == "tanh" and ops and bare(ops[0]) is P("act"):
        return "tanh"
    if nm in ("minimum", "maximum") and len(ops) == 2:
        inner = [o for o in ops if o.k == "call" and callname(o) in ("minimum", "maximum") and callname(o) != nm]
        c1 = [num(o) for o in ops if num(o) is not None]
        if inner and c1:
            i2 = operands(inner[0])
            c2 = [num(o) for o in i2 if num(o) is not None]
            if c2 and any(bare(o) is P("act") for o in i2):
                return "clip" if (c1[0] == 1 if nm == "minimum" else c1[0] == -1) and (c2[0] == -1 if nm == "minimum" else c2[0] == 1) else "clip?"
    return None


def rebounded(t, leaf):
    """Atom for a clip or tanh of something that is known but is not the action itself."""
    if t.k == "call" and callname(t) in ("clip", "clamp", "tanh") and operands(t):
        r = rat(bare(operands(t)[0]), leaf)
        if (r[0].atoms() | r[1].atoms()) <= KNOWN and r[0].atoms():
            return X("rebounded")
    return None


KNOWN = {"b", "clip", "tanh", "clip?", "unbounded", "low", "high", "rebounded", "a", "atanh", "lm", "log?"}


def space_leaf(t):
    if t is LOW or t is HIGH:
        return X("low" if t is LOW else "high")
    return None


MAPC = [(m, s) for m in ("clip", "tanh", None) for s in (True, False)]


def mappers(c, name):
    out, seen = [], set()
    for k in [c.p.cls(BASE), *policies(c.p)]:
        f = k.find(name)
        if f is None or f.qual in seen:
            continue
        seen.add(f.qual)
        out.append((k, f))
    return out


@rule("P08")
def bounding_then_scaling(c):
    """map_action: clip or tanh into [-1, 1] as configured, then the affine map of [-1, 1] onto the space when scaling; other spaces are left alone."""
    for k, f in mappers(c, "map_action"):
        fl = c.flow(f, k, opaque=("to_numpy",))
        for m, s in MAPC:
            val = map_val(True, m, s)

            def leaf(t, m=m):
                t0, t = t, bare(t)
                b = bounded(t)
                if b:
                    return X("b") if b == m else X(b)
                if t is P("act"):
                    return X("b") if m is None else X("unbounded")
                return space_leaf(t) or rebounded(t, leaf)
            want = (X("b"), ONE) if not s else (Poly.c(2) * X("low") + (X("high") - X("low")) * (X("b") + ONE), Poly.c(2))
            con = f"{k.name}.map_action/bound={m},scaling={s}"
            vs = returned(fl, val)
            for v in vs:
                r = rat(bare(v), leaf)
                known = (r[0].atoms() | r[1].atoms()) <= KNOWN
                c.decide(True if rat_eq(r, want) else False if known else None, con, fl.entry.where, f"the action becomes ({r[0]}) / ({r[1]}) where b is the bounded action")
            if not vs:
                c.und(con, "no value is returned")
        for m, s in MAPC:
            for v in returned(fl, map_val(False, m, s)):
                c.decide(bare(v) is P("act") or (None if v.k == "phi" else False), f"{k.name}.map_action/other spaces", fl.entry.where, f"actions of other spaces become {show(v)}")


@rule("P08")
def inverse_undoes_the_mapping(c):
    """map_action_inverse: unscale first, then undo tanh; the composition with the mapping is the identity."""
    for k, f in mappers(c, "map_action_inverse"):
        fl = c.flow(f, k, opaque=("to_numpy",))
        for m, s in MAPC:
            val = map_val(True, m, s)
            u = (X("a"), ONE) if not s else (Poly.c(2) * (X("a") - X("low")) - (X("high") - X("low")), X("high") - X("low"))

            def leaf(t):
                t = bare(t)
                if t is P("act"):
                    return X("a")
                if t.k == "call":
                    nm, ops = callname(t), operands(t)
                    if nm in ("maximum", "clip") and len(ops) >= 2 and any("finfo" in show(o) or num(o) is not None and 0 < num(o) < 1e-2 for o in ops):
                        o = [o for o in ops if not ("finfo" in show(o) or num(o) is not None)]
                        r = rat(o[0], leaf) if o else None
                        return r[0] if r and r[1] == ONE else None
                    if nm in ("arctanh", "atanh") and len(ops) == 1 and rat_eq(rat(ops[0], leaf), u):
                        return X("atanh")
                    if nm in ("log", "log1p") and len(ops) == 1:
                        n, d = rat(ops[0], leaf)
                        if nm == "log1p":
                            n = n + d
                        if rat_eq((n, d), (u[1] + u[0], u[1])):
                            return X("lm") + Poly.c(2) * X("atanh")
                        if rat_eq((n, d), (u[1] - u[0], u[1])):
                            return X("lm")
                        if rat_eq((n, d), (u[1] + u[0], u[1] - u[0])):
                            return Poly.c(2) * X("atanh")
                        return X("log?")
                return space_leaf(t) or rebounded(t, leaf)
            want = (X("atanh"), ONE) if m == "tanh" else u
            con = f"{k.name}.map_action_inverse/bound={m},scaling={s}"
            vs = returned(fl, val)
            for v in vs:
                r = rat(bare(v), leaf)
                known = (r[0].atoms() | r[1].atoms()) <= KNOWN
                c.decide(True if rat_eq(r, want) else False if known else None, con, fl.entry.where, f"the action becomes ({r[0]}) / ({r[1]})")
            if not vs:
                c.und(con, "no value is returned")
        for n in setsubs(fl):
            # the range of a dimension that cannot vary must not be a divisor
            ix, b = n.d["index"], n.d["base"]
            if ix.k == "cmp" and n.d.get("aug") and b in ix.a[1:] and any("eps" in show(x) or num(x) is not None for x in ix.a[1:]):
                small = ix.a[0] in ("<", "<=") and ix.a[1] is b or ix.a[0] in (">", ">=") and ix.a[2] is b
                c.decide(small, f"{k.name}.map_action_inverse/degenerate ranges", n.where, f"the ranges {show(ix)} are moved away from zero: not the ones that are zero")
        for m, s in MAPC:
            for v in returned(fl, map_val(False, m, s)):
                c.decide(bare(v) is P("act") or (None if v.k == "phi" else False), f"{k.name}.map_action_inverse/other spaces", fl.entry.where, f"actions of other spaces become {show(v)}")


@rule("P08")
def mapping_modifies_nothing(c):
    """Mapping writes neither into the given action nor into the bounds of the space."""
    for nm in ("map_action", "map_action_inverse"):
        for k, f in mappers(c, nm):
            fl = c.flow(f, k, opaque=("to_numpy",))
            given = {P("act")} | {n.d["term"] for n in nodes(fl, "call") if n.d["name"] in ("to_numpy", "asarray") and n.d["args"] and n.d["args"][0] is P("act")}
            roots = given | {LOW, HIGH, SPACE}
            al = Alias(fl, roots)
            ms = al.mutations()
            c.decide(not ms, f"{k.name}.{nm}", ms[0][0].where if ms else "", f"mapping an action changes its input or the action space: {ms[0][3] if ms else ''}")
            st = [n for n in setattrs(fl) if n.d["base"] is SELF]
            c.decide(not st, f"{k.name}.{nm}/state", st[0].where if st else "", f"mapping an action changes the policy: {st[0].d['attr'] if st else ''}")


@rule("P08")
def mapping_settings_are_kept(c):
    """The policy keeps the configured scaling and bounding, refuses unknown bounding methods and scaling of spaces that are not continuous; every subclass hands the settings on."""
    k = c.p.cls(BASE)
    fl = c.flow("__init__", k, opaque=("_compile",))
    for a in ("action_scaling", "action_bound_method", "action_space"):
        st = setattrs(fl, a, base=SELF)
        vs = [v for n in st for v in values(fl, n.d["value"])]
        c.decide(bool(vs) and all(strip(v, "cast") is P(a) for v in vs), f"{k.name}.__init__/{a}", fl.entry.where, f"{a} is set to {[show(v) for v in vs]}")

    def val(box, scaling, method):
        def f(t):
            if t is P("action_scaling"):
                return scaling
            if t is P("action_bound_method"):
                return method is not None
            if t.k == "call" and is_call(t, "isinstance") and t.a[1][0] is P("action_space"):
                ty = show(t.a[1][1])
                return box if ty.endswith("Box") else (not box) if "Discrete" in ty else None
            if t.k == "cmp" and P("action_bound_method") in t.a[1:]:
                o = t.a[2] if t.a[1] is P("action_bound_method") else t.a[1]
                if o is NONE:
                    return method is None
                if o.k == "const":
                    return o.a[0] == method
                if t.a[0] == "in" and o.k in ("tuple", "list", "set"):
                    return method in [x.a[0] for x in o.a[0] if x.k == "const"]
            return None
        return f
    st = setattrs(fl, "action_scaling", base=SELF)
    for box, scaling, method, refuse in ((False, True, "clip", True), (True, True, "sigmoid", True), (True, True, "clip", False), (True, True, "tanh", False), (False, False, None, False), (True, True, None, False)):
        p = find_path([fl.entry_node], [fl.exit_node], edge_ok=assume(val(box, scaling, method)))
        c.decide((p is None) == refuse or (None if not refuse else False), f"{k.name}.__init__/box={box},scaling={scaling},bound={method}", fl.entry.where, "the setting is accepted although it cannot be mapped" if refuse else "a valid setting is refused")
    n = 0
    for s in policies(c.p):
        f = s.methods.get("__init__")
        if f is None or s is k:
            continue
        ps = [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]
        sfl = c.flow(f, s, opaque=("deepcopy", "clone_optimizer", "_compile"))
        for a in ("action_scaling", "action_bound_method"):
            if a not in ps:
                continue
            n += 1
            st = setattrs(sfl, a, base=SELF)
            vs = [v for x in st for v in values(sfl, x.d["value"])]
            c.decide((all(v is P(a) for v in vs) if vs else None), f"{s.name}.__init__/{a}", sfl.entry.where, f"{a} becomes {[show(v) for v in vs]}")
    if n < 10:
        raise AnalysisBroken(f"only {n} mapping settings found")


@rule("P08")
def actions_reach_the_environment_mapped(c):
    """compute_action, like the collector, maps the action to the space; random actions of the collector are mapped back for storage."""
    k = c.p.cls(BASE)
    fl = c.flow("compute_action", k, opaque=("map_action", "forward"))
    m = {n.d["term"] for n in calls(fl, "map_action")}
    for v in [n.d["value"] for n in nodes(fl, "return") if len(n.stack) == 1]:
        c.decide(any(x in m for x in closure(fl, v)), f"{k.name}.compute_action", fl.entry.where, f"the action {show(v)} is not mapped to the action space")
    for n in calls(fl, "map_action"):
        a = arg(n, 0, "act")
        c.decide(any(x.k == "attr" and x.a[1] == "act" for x in closure(fl, a)) if a is not None else None, f"{k.name}.compute_action/argument", n.where, "what is mapped is not the policy's action")
    col = c.p.cls("Collector")
    cf = c.flow("_compute_action_policy_hidden", col, opaque=("to_numpy", "_HACKY_create_info_batch", "map_action_inverse", "map_action"))
    on = lambda t: True if t is P("random") else None
    for v in returned(cf, on):
        act, norm = field(cf, v, "act"), field(cf, v, "act_normalized")
        if act is None or norm is None:
            c.und("Collector/random", "the result is not built in sight")
            continue
        a, nn = bare(act), bare(norm)
        inv = a.k == "call" and callname(a) == "map_action_inverse" and a.a[1]
        c.decide(True if inv and (bare(a.a[1][0]) is nn) else False if a is nn else None, "Collector/random", cf.entry.where, f"the stored random action is {show(act)} for the stepped {show(norm)}")
    off = lambda t: False if t is P("random") else None
    for v in returned(cf, off):
        act, norm = field(cf, v, "act"), field(cf, v, "act_normalized")
        if act is None or norm is None:
            c.und("Collector/policy", "the result is not built in sight")
            continue
        a, nn = bare(act), bare(norm)
        mp = nn.k == "call" and callname(nn) == "map_action" and nn.a[1]
        same = mp and (strip(nn.a[1][0], *CONV) is strip(act, *CONV) or bare(nn.a[1][0]) is a)
        stored_mapped = any(x.k == "call" and callname(x) == "map_action" for y in values(cf, a) for x in [strip(y, *CONV), bare(y)])
        c.decide(False if stored_mapped else True if same else False if nn is a else None, "Collector/policy", cf.entry.where, f"the stepped action is {show(norm)} for the stored {show(act)}")


# ------------------------------------------------------------------ P09: sources of randomness
OWN_RNG = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.Philox",
           "numpy.random.SFC64", "numpy.random.PCG64DXSM", "random.Random", "torch.Generator", "gymnasium.utils.seeding.np_random", "gym.utils.seeding.np_random")
OS_RNG = ("os.urandom", "os.getrandom", "random.SystemRandom", "uuid.uuid1", "uuid.uuid4", "secrets")
RESEED = ("numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate", "torch.manual_seed", "torch.random.manual_seed", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all",
          "torch.set_rng_state", "torch.random.set_rng_state", "torch.cuda.set_rng_state", "torch.cuda.set_rng_state_all", "torch.mps.manual_seed")
FRESH = ("torch.seed", "torch.random.seed", "torch.cuda.seed", "torch.cuda.seed_all", "torch.initial_seed")
SCOPED = ("torch.random.fork_rng",)


def imports(m):
    """Names bound by import statements anywhere in the module."""
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def dotted_name(n, imp):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name) and n.id in imp:
        return ".".join([imp[n.id], *reversed(parts)])
    return None


def family(q):
    if q.startswith("numpy.random."):
        return "numpy"
    if q.startswith("random."):
        return "random"
    if q.startswith("torch."):
        return "torch"
    return None


def draws_global(q):
    nm = q.rsplit(".", 1)[-1]
    if q.startswith("numpy.random.") or q.startswith("random."):
        return nm in DRAW_FN or nm in ("bytes", "f", "standard_t", "wald", "zipf", "weibull", "vonmises", "rayleigh", "power", "pareto", "logistic", "logseries", "geometric", "chisquare", "noncentral_f", "getrandbits", "randbytes", "uniform")
    return q.startswith("torch.") and nm in ("rand", "randn", "randint", "normal", "multinomial", "bernoulli", "randperm", "rand_like", "randn_like", "randint_like", "poisson") and q.count(".") == 1


def scan(c):
    """(module, enclosing function, node, dotted name, parent) of every reference to something imported."""
    for m in sorted(c.p.modules.values(), key=lambda m: m.name):
        imp = imports(m)
        skip = set()
        for n in ast.walk(m.tree):
            for a in ([n.annotation] if isinstance(n, ast.AnnAssign | ast.arg) and n.annotation is not None else []) + ([n.returns] if isinstance(n, ast.FunctionDef | ast.AsyncFunctionDef) and n.returns is not None else []):
                skip |= {id(x) for x in ast.walk(a)}
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "issubclass", "cast", "TypeVar"):
                for a in n.args:
                    skip |= {id(x) for x in ast.walk(a) if not isinstance(x, ast.Call)}

        def walk(n, fn, parent):
            if isinstance(n, ast.FunctionDef | ast.AsyncFunctionDef | ast.ClassDef):
                fn = (fn + "." if fn else "") + n.name
            if isinstance(n, ast.Attribute | ast.Name) and id(n) not in skip:
                q = dotted_name(n, imp)
                if q is not None:
                    yield m, fn, n, q, parent
                    return
            for x in ast.iter_child_nodes(n):
                yield from walk(x, fn, n)
        yield from walk(m.tree, "", None)


def has_draw(node, imp):
    return any(isinstance(x, ast.Call) and (dotted_name(x.func, imp) or "") and draws_global(dotted_name(x.func, imp)) for x in ast.walk(node))


def varying(node):
    """The seed comes from the configuration: not a constant, not the clock."""
    ks = [x for x in ast.walk(node)]
    if any(isinstance(x, ast.Call) and "time" in ast.unparse(x.func) for x in ks):
        return False
    return any(isinstance(x, ast.Name | ast.Attribute) for x in ks)


@rule("P09")
def only_global_generators_are_drawn_from(c):
    """No module creates its own random generator, uses the operating system's, or passes one explicitly."""
    tot = 0
    for m, fn, n, q, parent in scan(c):
        con = f"{m.name}{'.' + fn if fn else ''}/{q}"
        where = f"{m.rel}:{n.lineno}"
        call = parent if isinstance(parent, ast.Call) and parent.func is n else None
        if draws_global(q):
            tot += 1
            g = [k for k in (call.keywords if call else []) if k.arg == "generator" and not (isinstance(k.value, ast.Constant) and k.value.value is None)]
            c.decide(not g, con, where, f"{q} draws from a generator of its own")
        elif q in OWN_RNG or q.startswith("numpy.random._") or any(q.startswith(x + ".") for x in OWN_RNG):
            seeded = call is not None and any(has_draw(a, imports(m)) for a in [*call.args, *[k.value for k in call.keywords]])
            c.decide(None if seeded else False, con, where, f"{q} creates a generator that seeding the global ones does not control")
        elif q in OS_RNG or any(q.startswith(x + ".") for x in OS_RNG):
            c.bad(con, where, f"{q} takes random numbers from the operating system")
    # generators handed to torch's in-place and distribution methods, spaces made on the fly
    for m in c.p.modules.values():
        imp = imports(m)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in DRAW_M:
                    g = [k for k in n.keywords if k.arg == "generator" and not (isinstance(k.value, ast.Constant) and k.value.value is None)]
                    if g:
                        c.bad(f"{m.name}/{n.func.attr}(generator=)", f"{m.rel}:{n.lineno}", f"{n.func.attr} draws from a generator of its own")
                if n.func.attr == "sample" and isinstance(n.func.value, ast.Call):
                    q = dotted_name(n.func.value.func, imp) or ""
                    if q.startswith(("gymnasium.spaces", "gym.spaces")):
                        c.bad(f"{m.name}/{q}", f"{m.rel}:{n.lineno}", f"a newly created space {q} is sampled: its generator is not seeded")
                if n.func.attr == "DataLoader":
                    tot += 0
    if tot < 15:
        raise AnalysisBroken(f"only {tot} random draws found")


@rule("P09")
def nobody_reseeds(c):
    """Global generators are seeded or restored only by an experiment, from its configured seed."""
    tot = 0
    for m, fn, n, q, parent in scan(c):
        con = f"{m.name}{'.' + fn if fn else ''}/{q}"
        where = f"{m.rel}:{n.lineno}"
        call = parent if isinstance(parent, ast.Call) and parent.func is n else None
        if q in FRESH or q in SCOPED:
            c.bad(con, where, f"{q} takes the global generator out of the user's hands")
        elif q in RESEED:
            tot += 1
            hl = m.name.startswith("tianshou.highlevel")
            a = ([*call.args, *[k.value for k in call.keywords]] if call else [])
            ok = hl and a and varying(a[0])
            c.decide(bool(ok) if hl and a or not hl else None, con, where, f"{q} reseeds a global generator" + ("" if not hl else " with a value that is not configured"))
    c.decide(True, "nobody reseeds", "", "")


@rule("P09")
def experiments_seed_before_they_build(c):
    """An experiment seeds every global generator the library draws from with its configured seed before it creates environments, networks or policies."""
    fams = {family(q) for m, fn, n, q, parent in scan(c) if draws_global(q)}
    # torch distributions, initialisers and in-place draws use torch's generator
    fams.add("torch")
    k = c.p.cls("Experiment")
    fl = c.flow("create_experiment_world", k, opaque=("create_envs", "create_policy", "create_train_test_collector", "create_trainer", "pprints", "save", "create_logger", "_build_config_dict", "info", "restore"))
    seeds = {}
    for n in nodes(fl, "call"):
        q = quals(n)
        if q in RESEED and family(q):
            seeds.setdefault(family(q), []).append(n)
    builds = calls(fl, "create_envs", "create_policy", "create_train_test_collector", "create_trainer", "create_module", "create_actor")
    if not builds:
        c.und("create_experiment_world", "nothing is created in sight")
    for f in sorted(x for x in fams if x):
        ss = seeds.get(f, [])
        c.decide(bool(ss), f"create_experiment_world/{f}", fl.entry.where, f"the library draws from {f}'s global generator, which an experiment does not seed")
        for s in ss:
            a = arg(s, 0, "seed")
            v = [x for x in subterms(a)] if a is not None else []
            c.decide(any(x.k == "attr" and x.a[1] == "seed" for x in v) or (False if a is not None and (a.k == "const" or any(x.k == "attr" and x.a[1] in ("train_seed", "test_seed") for x in v)) else None), f"create_experiment_world/{f}/value", s.where, f"{f} is seeded with {show(a) if a else '?'}, not with the configured seed")
        for b in builds:
            if ss:
                p = find_path([fl.entry_node], b, ss)
                c.decide(p is None, f"create_experiment_world/{f}/{b.d['name']}", b.where, f"{b.d['name']} runs before {f} is seeded: {describe(p)}")
