"""High-level factories: what they are configured with and asked for reaches the modules, environments and functions they create."""
from __future__ import annotations

import ast

from ..core import rule
from ..flow import NONE, Term, canon_cond, const, is_call, subterms
from ..program import AnalysisBroken
from ..query import closure, describe, find_path, nodes, setattrs, values
from .highlevel import bind, cls_of, ctor_names, q, terms_of
from .util import A, P, SELF, assume, inner_step, params_of, rat, rat_eq, returned

FACTORIES = ("ActorFactory", "CriticFactory", "CriticEnsembleFactory", "ImplicitQuantileNetworkFactory", "OptimizerFactory", "LoggerFactory", "PolicyWrapperFactory",
             "NoiseFactory", "DistributionFunctionFactory", "AutoAlphaFactory", "EnvFactory", "EnvPoolFactory", "LRSchedulerFactory")
SAME = {("softmax_output", "discrete_softmax"), ("is_probs_input", "softmax_output"), ("name", "experiment_name"), ("config", "config_dict")}
OPQ = ("create_module", "create_dist_fn", "create_module_opt", "create_intermediate_module", "create_optimizer", "create_optimizer_for_params", "create_logger",
       "create_wrapped_policy", "create_noise", "create_auto_alpha", "create_venv", "create_env", "get_action_shape", "get_observation_shape", "get_type")


def classes(c):
    out = {}
    for b in FACTORIES:
        if c.p.has_cls(b):
            for k in c.p.subclasses(q(c, b)):
                out[k.qual] = k
    return [out[x] for x in sorted(out)]


def matches(p, a):
    """Whether the parameter p and the setting a mean the same thing."""
    p, a = p.lstrip("_"), a.lstrip("_")
    return p == a or a.endswith("_" + p) or p.endswith("_" + a) or (p, a) in SAME


def kept(c, k):
    """{attribute: constructor parameter} of what the object is configured with."""
    f = k.find("__init__")
    if f is None:
        return {}
    fl = c.flow(f, k)
    out = {}
    for n in setattrs(fl, base=SELF):
        v = n.d["value"]
        if v.k == "param" and v.a[0] != "self":
            out[n.d["attr"]] = v.a[0]
    return out


def methods(c, k):
    """Own and inherited methods that do the creating."""
    out = []
    for m in sorted({m for x in k.mro_classes() for m in x.methods}):
        f = k.find(m)
        if f is None or f.is_abstract or m.startswith("__") or m.startswith("_tostring"):
            continue
        out.append((m, f))
    return out


def flow_of(c, k, m, f):
    return c.flow(f, k, opaque=tuple(x for x in OPQ if x != m))


def creations(c, fl):
    """[(call node, class or None, {parameter: term})] of everything constructed."""
    out = []
    for n in nodes(fl, "call"):
        t = n.d["term"]
        k = cls_of(c, t)
        if k is not None:
            b = bind(k, t)
            if b is not None and "*" not in b and "**" not in b:
                out.append((n, k, b))
        elif t.a[0].k == "global" or (t.a[0].k == "attr" and t.a[0].a[0] is SELF and t.a[0].a[1].endswith("_class")):
            nm = (t.a[0].a[0] if t.a[0].k == "global" else t.a[0].a[1]).rsplit(".", 1)[-1]
            if nm[:1].isupper() or nm.endswith("_class"):
                out.append((n, None, {a: v for a, v in t.a[2] if a != "**"}))
    return out


@rule("H01")
def settings_are_forwarded(c):
    """Whatever a factory was configured with is passed on, under its own name, to the things it creates that accept it."""
    n = 0
    for k in classes(c):
        S = kept(c, k)
        if not S:
            continue
        for m, f in methods(c, k):
            fl = flow_of(c, k, m, f)
            cr = creations(c, fl)
            for nd, d, b in cr:
                for p, v in b.items():
                    if v.k == "attr" and v.a[0] is SELF and v.a[1] in S:
                        better = [a for a in S if matches(p, a) and a != v.a[1]]
                        ok = matches(p, v.a[1]) or not better
                        c.decide(ok, f"{k.name}.{m}/{nd.d['name']}({p})", nd.where, f"gets the setting {v.a[1]}, not {better}")
                for o in params_of(f):
                    for p in b:
                        if o != "self" and (p == o or (p, o) in SAME):
                            c.decide(P(o) in closure(fl, b[p]), f"{k.name}.{m}/{nd.d['name']}({p})", nd.where, f"is not the requested {o}")
            for nd in nodes(fl, "call"):
                if nd.d["inlined"]:
                    continue
                kw = dict(nd.d["kw"])
                if nd.d["name"] in ("create_optimizer", "create_optimizer_for_params") and len(nd.d["args"]) > 1:
                    kw["lr"] = nd.d["args"][1]
                for p, v in kw.items():
                    if v.k == "attr" and v.a[0] is SELF and v.a[1] in S and p in S and not cls_of(c, nd.d["term"]):
                        c.decide(v.a[1] == p, f"{k.name}.{m}/{nd.d['name']}({p})", nd.where, f"gets the setting {v.a[1]}")
            for nd in nodes(fl):
                for t in {x for y in terms_of(nd) for x in subterms(y) if x.k == "dict"}:
                    for p, v in t.a[0]:
                        if isinstance(p, Term) and p.k == "const" and v.k == "attr" and v.a[0] is SELF and v.a[1] in S and p.a[0] in S:
                            c.decide(v.a[1] == p.a[0], f"{k.name}.{m}/dict({p.a[0]})", nd.where, f"gets the setting {v.a[1]}")
            for a in sorted(S):
                can = []
                for nd, d, b in cr:
                    names = (ctor_names(d)[0] + ctor_names(d)[1]) if d is not None and ctor_names(d) else []
                    ps = [p for p in names if matches(p, a) and not any(matches(p, o) and (p == o.lstrip("_") and p != a.lstrip("_")) for o in S)]
                    if ps:
                        can.append((nd, any(A(a) in closure(fl, b[p]) for p in ps if p in b)))
                pas = [nd for nd, ok in can if ok]
                for nd, ok in can:
                    if ok:
                        n += 1
                        c.ok(f"{k.name}.{m}/{a}", nd.where)
                        continue
                    p1 = find_path([fl.entry_node], [nd], pas)
                    p2 = find_path([nd], [fl.exit_node], pas, skip_start=True)
                    # what it is given instead must be something else of the same kind that is asked for
                    c.decide(not (p1 and p2), f"{k.name}.{m}/{a}", nd.where, f"{nd.d['name']} is created without the configured {a}")
    if n < 15:
        raise AnalysisBroken("factories do not forward settings")


@rule("H01")
def optimizers_get_their_settings(c):
    """An optimizer factory hands every setting to the optimizer it creates, under its own name, and with the parameters and learning rate it is asked for."""
    for k in c.p.subclasses(q(c, "OptimizerFactory"), strict=True):
        f = k.find("create_optimizer_for_params")
        if f is None or f.is_abstract:
            continue
        S = kept(c, k)
        fl = c.flow(f, k)
        got = [n for n in nodes(fl, "call") if P("params") in closure(fl, *n.d["args"], *[v for _, v in n.d["kwt"]]) and (P("lr") in closure(fl, *n.d["args"], *[v for _, v in n.d["kwt"]]))]
        if not got:
            c.decide(None if closure(fl, fl.ret_value) & {P("lr")} else False, f"{k.name}/optimizer", f.where, "no optimizer is created for the parameters with the learning rate")
            continue
        for n in got:
            if n.d["args"]:
                c.decide(P("params") in closure(fl, n.d["args"][0]), f"{k.name}/params", n.where, "the first argument is not the parameters")
            if "lr" in n.d["kw"]:
                c.decide(n.d["kw"]["lr"] is P("lr"), f"{k.name}/lr", n.where, "the learning rate is not the requested one")
            spread = [v for a, v in n.d["kwt"] if a == "**"]
            for a in sorted(S):
                if S[a] == "optim_class":
                    continue
                inn = [p for p, v in n.d["kw"].items() if A(a) in closure(fl, v)]
                if any(A(a) in closure(fl, s) for s in spread):
                    c.ok(f"{k.name}/{a}", n.where)
                    continue
                c.decide(bool(inn) and all(matches(p, a) for p in inn), f"{k.name}/{a}", n.where, f"the configured {a} arrives as {inn or 'nothing'}")


# ------------------------------------------------------------------------- what is asked for
def candidates(c, k, n):
    """Functions a call by name may reach, as parameter lists."""
    t = n.d.get("target")
    if t is not None:
        f = t if hasattr(t, "params") else None
        if f is not None:
            return [params_of(f)]
    qs = n.d.get("quals") or ()
    out = []
    for s in qs:
        try:
            out.append(params_of(c.p.func(s)))
        except Exception:
            pass
    if out:
        return out
    nm = n.d["name"]
    own = k.find(nm) if k is not None else None
    if own is not None:
        return [params_of(own)]
    for kk in classes(c):
        f = kk.find(nm)
        if f is not None and params_of(f) not in out:
            out.append(params_of(f))
    return out


PASS = ("create_module", "create_module_opt", "create_intermediate_module", "create_dist_fn", "create_optimizer", "create_optimizer_for_params", "create_venv", "create_env",
        "from_factory_and_type", "create_ensemble")


@rule("H01")
def requests_are_forwarded(c):
    """A factory that asks another one passes on what it was asked for itself: environments, device, sizes, learning rate."""
    n = 0
    todo = [(k, m, f) for k in classes(c) for m, f in methods(c, k)]
    for nm in ("ContinuousEnvironments", "DiscreteEnvironments"):
        if c.p.has_cls(nm) and c.p.cls(nm).methods.get("from_factory"):
            todo.append((c.p.cls(nm), "from_factory", c.p.cls(nm).methods["from_factory"]))
    for k, m, f in todo:
        fl = c.flow(f, k, opaque=tuple(x for x in OPQ if x != m) + PASS) if m not in PASS else c.flow(f, k, opaque=tuple(x for x in OPQ + PASS))
        own = [p for p in params_of(f) if p not in ("self", "mode", "num_envs", "seed", "kwargs")]
        for nd in nodes(fl, "call"):
            if nd.d["inlined"] or nd.d["name"] not in PASS:
                continue
            sigs = candidates(c, k, nd)
            sigs = [[x for x in s if x not in ("self", "cls")] for s in sigs]
            if not sigs:
                continue
            pos = [a for a in nd.d["args"]]
            if any(a.k == "star" for a in pos) or any(a == "**" for a, _ in nd.d["kwt"]):
                continue
            n += 1
            for p in own:
                with_p = [s for s in sigs if p in s]
                if not with_p:
                    continue
                got = nd.d["kw"].get(p)
                if got is None:
                    idx = {s.index(p) for s in with_p}
                    if len(idx) == 1 and min(idx) < len(pos):
                        got = pos[min(idx)]
                    elif len(idx) > 1:
                        continue
                con = f"{k.name}.{m}/{nd.d['name']}({p})"
                if got is None:
                    c.decide(False if len(with_p) == len(sigs) else None, con, nd.where, f"{p} is not passed on")
                else:
                    c.decide(P(p) in closure(fl, got), con, nd.where, f"passes something else than the requested {p}")
    if n < 15:
        raise AnalysisBroken("factories do not ask each other")


@rule("H01")
def modules_live_on_the_requested_device(c):
    """Every module a factory creates is told the requested device and is moved to it."""
    n = 0
    for k in classes(c):
        for m, f in methods(c, k):
            if "device" not in params_of(f):
                continue
            fl = flow_of(c, k, m, f)
            made = []
            for nd, d, b in creations(c, fl):
                if d is None:
                    continue
                sig = ctor_names(d)
                if sig and "device" in sig[0] + sig[1]:
                    n += 1
                    v = b.get("device")
                    c.decide(v is not None and P("device") in closure(fl, v), f"{k.name}.{m}/{nd.d['name']}", nd.where, "is created for the default device")
                if any(x.name == "Module" or x.qual.startswith("tianshou.utils.net") or x.qual.startswith("tianshou.policy") for x in d.mro_classes()):
                    made.append(nd)
            if not made:
                continue
            moves = [x for x in nodes(fl, "call") if x.d["name"] == "to" and x.d["recv"] is not None and any(P("device") in closure(fl, a) for a in list(x.d["args"]) + [v for _, v in x.d["kwt"]])]
            for r in nodes(fl, "return"):
                if len(r.stack) > 1 or r.d["value"] is None or r.d["value"] is NONE:
                    continue
                cl = closure(fl, r.d["value"], conds=False)
                outer = [x for x in made if x.d["term"] in cl]
                if not outer:
                    continue
                # the outermost module is moved (moving is recursive)
                ok = any(x.d["term"] in closure(fl, mv.d["recv"], conds=False) for mv in moves for x in outer if mv.d["term"] in cl or find_path([mv], [r]) is not None)
                inner = {x for x in outer for y in outer if x is not y and x.d["term"] in closure(fl, *y.d["args"], *[v for _, v in y.d["kwt"]], conds=False)}
                tops = [x for x in outer if x not in inner]
                ok = all(any(x.d["term"] in closure(fl, mv.d["recv"], conds=False) for mv in moves) for x in tops)
                c.decide(ok, f"{k.name}.{m}/moved", r.where, "the created module is not moved to the requested device")
    if n < 12:
        raise AnalysisBroken("no modules are created")


def kind_of(fl, v):
    """Which of the environments' shapes a value is made from."""
    out = set()
    for x in closure(fl, v, conds=False):
        if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("get_observation_shape", "get_action_shape"):
            out.add(x.a[0].a[1])
    return out


@rule("H01")
def networks_fit_the_environments(c):
    """Observation and action shapes go where they belong; a critic takes the action in exactly when it is asked to, and has one output unless the action shape was asked for."""
    n = 0
    for k in classes(c):
        for m, f in methods(c, k):
            fl = flow_of(c, k, m, f)
            for nd, d, b in creations(c, fl):
                if d is None:
                    continue
                con = f"{k.name}.{m}/{nd.d['name']}"
                for p, want in (("state_shape", "get_observation_shape"), ("action_shape", "get_action_shape")):
                    v = b.get(p)
                    if v is None:
                        continue
                    n += 1
                    ks = kind_of(fl, v)
                    c.decide(want in ks and len(ks) == 1 or (False if ks else None), f"{con}({p})", nd.where, f"is given {sorted(ks) or 'something else'}")
                if "use_action" in params_of(f) and d.name == "Net" and "action_shape" in b:
                    for flag in (True, False):
                        val = lambda t, flag=flag: flag if t is P("use_action") else None
                        from .util import resolve
                        a, cc = resolve(b["action_shape"], val), b.get("concat")
                        has = "get_action_shape" in kind_of(fl, a)
                        c.decide(has == flag, f"{con}(action_shape, use_action={flag})", nd.where, "the action's shape is used although no action is asked for" if has else "the action's shape is not used")
                        if cc is None:
                            c.bad(f"{con}(concat)", nd.where, "the action is never an input")
                        else:
                            from .util import truths
                            t = truths(cc, val)
                            c.decide(None if None in t else t == {flag}, f"{con}(concat, use_action={flag})", nd.where, "the action is an input although it is not asked for" if not flag else "the action is not an input")
                if "discrete_last_size_use_action_shape" in params_of(f) and "last_size" in (ctor_names(d) or ([], []))[0]:
                    v = b.get("last_size")
                    if v is None:
                        c.bad(f"{con}(last_size)", nd.where, "the number of outputs does not depend on what is asked for")
                        continue
                    for flag in (True, False):
                        from .util import resolve
                        r = resolve(v, lambda t, flag=flag: flag if t is P("discrete_last_size_use_action_shape") else None)
                        has = "get_action_shape" in kind_of(fl, r)
                        one = r is const(1)
                        c.decide(True if (has if flag else one) else (False if has != flag or flag else None), f"{con}(last_size, {flag})", nd.where, "wrong number of outputs")
    if n < 10:
        raise AnalysisBroken("no networks are created")


@rule("H01")
def requested_inputs_are_considered(c):
    """A factory method that is asked whether the action is an input considers the question."""
    for k in classes(c):
        for m, f in methods(c, k):
            ps = [p for p in params_of(f) if p in ("use_action", "ensemble_size", "lr", "discrete_last_size_use_action_shape", "num_envs")]
            if not ps or f.cls is not k or inner_step(k, m):
                continue
            fl = c.flow(f, k, opaque=tuple(x for x in OPQ if x != m))
            used = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            for p in ps:
                if p == "discrete_last_size_use_action_shape" and "Continuous" in k.name:
                    continue
                c.decide(p in used, f"{k.name}.{m}({p})", f.where, f"{p} is ignored")


# ------------------------------------------------------------------------- entropy, noise, schedules, distributions
@rule("H01")
def derived_values(c):
    """Automatic temperature: (negative number of action components, a trainable scalar on the device, its optimizer with the configured rate); noise and values scaled by the largest action; linear schedule; distributions."""
    for k in c.p.subclasses(q(c, "AutoAlphaFactory"), strict=True):
        f = k.find("create_auto_alpha")
        fl = c.flow(f, k, opaque=OPQ)
        for r in returned(fl, lambda t: None):
            if r.k != "tuple" or len(r.a[0]) != 3:
                c.und(f"{k.name}/tuple", f.where, "result not understood")
                continue
            ent, al, op = r.a[0]
            e = ent
            while e.k == "call" and is_call(e, "float", "int") and e.a[1]:
                e = e.a[1][0]
            neg = e.k == "un" and e.a[0] == "-" or e.k == "bin" and e.a[0] == "*" and any(x.k == "const" and x.a[0] in (-1, -1.0) or (x.k == "un" and x.a[0] == "-") for x in e.a[1:])
            prod = any(is_call(x, "prod") for x in subterms(e))
            c.decide(True if neg and prod and "get_action_shape" in kind_of(fl, ent) else (False if not neg or "get_action_shape" not in kind_of(fl, ent) else None), f"{k.name}/entropy", f.where, "the target entropy is not minus the number of action components")
            mk = [n for n in nodes(fl, "call") if n.d["term"] is al]
            for n in mk:
                c.decide(n.d["kw"].get("requires_grad") is const(True), f"{k.name}/trainable", n.where, "the temperature is not trainable")
                c.decide(n.d["kw"].get("device") is P("device"), f"{k.name}/device", n.where, "the temperature is not on the requested device")
            so = [n for n in nodes(fl, "call") if n.d["term"] is op]
            for n in so:
                c.decide(al in closure(fl, n.d["args"][0]) if n.d["args"] else None, f"{k.name}/optimizer", n.where, "the optimizer does not optimise the temperature")
                c.decide(any(A("lr") in closure(fl, v) for v in list(n.d["args"][1:]) + [v for _, v in n.d["kwt"]]), f"{k.name}/lr", n.where, "the configured learning rate is not used")
    for base, m, attr in (("NoiseFactory", "create_noise", "std_fraction"), ("EnvValueFactory", "create_value", "value")):
        for k in c.p.subclasses(q(c, base), strict=True):
            f = k.find(m)
            if f is None or f.is_abstract or attr not in kept(c, k):
                continue
            fl = c.flow(f, k, opaque=OPQ)
            v = fl.ret_value
            if base == "NoiseFactory":
                mk = [(n, b) for n, d, b in creations(c, fl) if d is not None and d.is_sub(q(c, "BaseNoise"))]
                if not mk:
                    c.und(f"{k.name}/noise", f.where, "no noise object")
                    continue
                v = mk[0][1].get("sigma")
            if v is None:
                c.bad(f"{k.name}/sigma", f.where, "the deviation is not set")
                continue
            at = lambda t: "max" if t.k == "attr" and t.a[1] == "max_action" else "x" if t is A(attr) else None
            from ..query import Poly
            c.decide(rat_eq(rat(v, at), (Poly.x("max") * Poly.x("x"), Poly.c(1))), f"{k.name}/scaled", f.where, "is not the configured fraction of the largest action")
    # the linear learning-rate schedule
    k = c.p.cls("LRSchedulerFactoryLinear")
    from ..query import Poly
    lam = [x for x in c.p.classes.values() if x.qual.startswith(k.qual + ".")]
    for kk in lam:
        comp = [f for m, f in kk.methods.items() if not m.startswith("__")]
        ini = kk.find("__init__")
        fi = c.flow(ini, kk)
        for s in setattrs(fi, base=SELF):
            def at(t):
                if t.k == "call" and is_call(t, "ceil") and t.a[1]:
                    n, d = rat(t.a[1][0], lambda x: x.a[1] if x.k == "attr" and x.a[0] is P("sampling_config") else None)
                    if rat_eq((n, d), (Poly.x("step_per_epoch"), Poly.x("step_per_collect"))):
                        return "updates"
                    return "?"
                return t.a[1] if t.k == "attr" and t.a[0] is P("sampling_config") else None
            n, d = rat(s.d["value"], at)
            if "?" in str(n.m) or "updates" in str(n.m):
                c.decide(rat_eq((n, d), (Poly.x("updates") * Poly.x("num_epochs"), Poly.c(1))), f"{kk.name}.{s.d['attr']}", s.where, "is not the number of updates: ceil(step_per_epoch / step_per_collect) * num_epochs")
            for f in comp:
                fc = c.flow(f, kk)
                e = [p for p in params_of(f) if p != "self"]
                for v in returned(fc, lambda t: None):
                    at2 = lambda t: "n" if t is A(s.d["attr"]) else "e" if e and t is P(e[0]) else None
                    c.decide(rat_eq(rat(v, at2), (Poly.x("n") - Poly.x("e"), Poly.x("n"))), f"{kk.name}.{f.name}", f.where, "is not 1 - epoch / number of updates")
    # distributions
    k = c.p.cls("DistributionFunctionFactoryCategorical")
    f = k.find("create_dist_fn")
    fl = c.flow(f, k, opaque=OPQ)
    for flag, want in ((True, "probs"), (False, "logits")):
        for v in returned(fl, lambda t, flag=flag: flag if t is A("is_probs_input") else None):
            nm = v.a[1] if v.k == "attr" else v.a[0].rsplit(".", 1)[-1] if v.k == "global" else None
            g = k.find(nm) if nm else None
            if g is None:
                c.und(f"{k.name}/{want}", f.where, "distribution function not found")
                continue
            fg = c.flow(g, k)
            for n in nodes(fg, "call"):
                if n.d["name"] == "Categorical":
                    ps = [p for p in params_of(g) if p != "self"]
                    w = n.d["kw"].get(want) or (n.d["args"][0] if n.d["args"] and want == "probs" else None)
                    c.decide(w is not None and P(ps[0]) in closure(fg, w), f"{k.name}/{want}", n.where, f"the network's output is not taken as {want}")


# ------------------------------------------------------------------------- environments
MODE = {"TRAIN": "train", "TEST": "test", "WATCH": "watch"}


def modes_in(c, fl, t, node_of):
    """Environment modes an expression creates environments for (through the functions it contains)."""
    out = set()
    for x in closure(fl, t, conds=False):
        if x.k == "global" and ".EnvMode." in x.a[0]:
            out.add(x.a[0].rsplit(".", 1)[-1])
        if x.k == "closure":
            f = fl.closures[x][0] if hasattr(fl, "closures") and x in fl.closures else None
            if f is not None:
                for y in ast.walk(f.node):
                    if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "EnvMode":
                        out.add(y.attr)
    return out


@rule("H01")
def environments_by_purpose(c):
    """Training, test and watch environments are created for their own purpose, in the configured number, and end up in their own place."""
    COUNT = {"TRAIN": "num_training_envs", "TEST": "num_test_envs"}
    SLOT = {"train_envs": "TRAIN", "test_envs": "TEST", "watch_env": "WATCH"}
    n = 0
    for fq, cls in (("create_envs", "EnvFactory"), ("from_factory_and_type", "Environments")):
        k = c.p.cls(cls)
        f = k.find(fq)
        fl = c.flow(f, k, opaque=("create_venv", "from_env", "create_env"))
        by = {}
        for nd in nodes(fl, "call"):
            if nd.d["name"] != "create_venv":
                continue
            vs = list(nd.d["args"]) + [v for _, v in nd.d["kwt"]]
            ms = set()
            for v in vs:
                ms |= modes_in(c, fl, v, nd)
            con = f"{k.name}.{fq}"
            if len(ms) != 1:
                c.und(f"{con}/create_venv", nd.where, f"mode not determined ({sorted(ms)})")
                continue
            m = next(iter(ms))
            by[nd.d["term"]] = m
            n += 1
            if m in COUNT:
                got = {x.a[0] for v in vs for x in closure(fl, v) if x.k == "param"} & set(COUNT.values())
                c.decide(got == {COUNT[m]}, f"{con}/{m}", nd.where, f"the number of {m} environments is {sorted(got) or 'not the configured one'}")
        for nd, d, b in creations(c, fl):
            if d is None or not d.is_sub(q(c, "Environments")):
                continue
            for p, m in SLOT.items():
                v = b.get(p)
                if v is None:
                    c.bad(f"{k.name}.{fq}/{d.name}({p})", nd.where, "is not given")
                    continue
                got = {by[x] for x in closure(fl, v, conds=False) if x in by}
                c.decide(got == {m}, f"{k.name}.{fq}/{d.name}({p})", nd.where, f"holds the {sorted(got)} environments")
    if n < 4:
        raise AnalysisBroken("environments are not created by mode")
    # constructors keep them apart: constructors_keep_what_they_are_given
    k = c.p.cls("EnvFactory")
    fl = c.flow(k.methods["create_venv"], k)
    for nd in nodes(fl, "call"):
        if nd.d["name"] != "create_venv" or nd.d["inlined"]:
            continue
        vs = list(nd.d["args"]) + [v for _, v in nd.d["kwt"]]
        cl = closure(fl, *vs)
        fn = nd.d["term"].a[0]
        recv = fn.a[0] if fn.k == "attr" else fn
        dummy = any(x.k == "global" and ".DUMMY" in x.a[0] for x in values(fl, recv)) if isinstance(recv, Term) else False
        if not dummy:
            c.decide(P("num_envs") in cl, "EnvFactory.create_venv/count", nd.where, "the requested number of environments is not created")
            c.decide(any(x is A("venv_type") for x in closure(fl, recv)), "EnvFactory.create_venv/type", nd.where, "the configured kind of vectorisation is not used")
        clos = [x for x in cl if x.k == "closure"]
        for x in clos:
            g = fl.closures[x][0] if hasattr(fl, "closures") and x in fl.closures else None
            if g is None:
                continue
            names = {y.id for y in ast.walk(g.node) if isinstance(y, ast.Name)}
            c.decide("mode" in names or None if any(isinstance(y, ast.Attribute) and y.attr == "create_env" for y in ast.walk(g.node)) and not any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "EnvMode" for y in ast.walk(g.node))
                     else (False if any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "EnvMode" for y in ast.walk(g.node)) else None), "EnvFactory.create_venv/mode", nd.where, "environments are created for another mode than the requested one")
    k = c.p.cls("EnvFactoryRegistered")
    fl = c.flow(k.find("create_venv"), k)
    def mode_is(m):
        def val(t):
            if t.k == "cmp" and t.a[0] in ("==", "is") and P("mode") in t.a[1:]:
                o = t.a[2] if t.a[1] is P("mode") else t.a[1]
                if o.k == "global" and ".EnvMode." in o.a[0]:
                    return o.a[0].endswith("." + m)
            return None
        return val
    from .util import resolve
    for m, want, other in (("TRAIN", "train_seed", "test_seed"), ("TEST", "test_seed", "train_seed")):
        used = False
        for nd in nodes(fl, "call"):
            if nd.d["inlined"]:
                continue
            for v in list(nd.d["args"]) + [v for _, v in nd.d["kwt"]]:
                r = resolve(v, mode_is(m))
                cl = closure(fl, r, conds=False)
                if A("train_seed") in cl or A("test_seed") in cl:
                    used = True
                    c.decide(A(want) in cl and A(other) not in cl, f"EnvFactoryRegistered/{m} seed", nd.where, f"the {m} environments are not seeded with {want}")
        if not used:
            c.bad(f"EnvFactoryRegistered/{m} seed", fl.entry.where, "environments are not seeded")
        ex = [n for n in nodes(fl, "call") if n.d["name"] in ("seed", "create_venv") and not n.d["inlined"] and any(A("train_seed") in closure(fl, v) for v in list(n.d["args"]) + [v for _, v in n.d["kwt"]])]
        p = find_path([fl.entry_node], [fl.exit_node], ex)
        c.decide(p is None, "EnvFactoryRegistered/seeded", fl.entry.where, f"environments can be returned without a seed: {describe(p)}")
    # render modes
    fi = c.flow(k.find("__init__"), k)
    for s in setattrs(fi, base=SELF):
        v = s.d["value"]
        if v.k != "dict":
            continue
        for key, val in v.a[0]:
            if key.k == "global" and ".EnvMode." in key.a[0]:
                m = key.a[0].rsplit(".", 1)[-1].lower()
                c.decide(val is P(f"render_mode_{m}") if val.k == "param" else None, f"EnvFactoryRegistered.{s.d['attr']}[{m}]", s.where, f"is {val}")
    fl = c.flow(k.find("create_env"), k, opaque=())
    mk = [n for n in nodes(fl, "call") if n.d["name"] == "make"]
    for n in mk:
        cl = closure(fl, *n.d["args"], *[v for _, v in n.d["kwt"]])
        for a in ("task", "make_kwargs", "render_modes"):
            c.decide(A(a) in cl, f"EnvFactoryRegistered.create_env({a})", n.where, f"the configured {a} is not used")
        c.decide(P("mode") in cl, "EnvFactoryRegistered.create_env(mode)", n.where, "the mode is not considered")
    # the configured arguments themselves stay as they are
    fk = c.flow(k.find("_create_kwargs"), k) if k.find("_create_kwargs") else None
    if fk is not None:
        for n in fk.nodes:
            if n.kind == "setsub":
                b = n.d["base"]
                c.decide(b is not A("make_kwargs"), "EnvFactoryRegistered._create_kwargs/unchanged", n.where, "the configured arguments are changed: one mode's settings leak into the next")


@rule("H01")
def vectorisation_types(c):
    """Every kind of vectorisation creates the vector environment it names from all given factories."""
    k = c.p.cls("VectorEnvType")
    f = k.find("create_venv")
    fl = c.flow(f, k)
    WANT = {"DUMMY": ("DummyVectorEnv", None), "SUBPROC": ("SubprocVectorEnv", False), "SUBPROC_SHARED_MEM_DEFAULT_CONTEXT": ("SubprocVectorEnv", True),
            "SUBPROC_SHARED_MEM_FORK_CONTEXT": ("SubprocVectorEnv", True), "RAY": ("RayVectorEnv", None)}
    for m, (cls, shm) in WANT.items():
        def val(t, m=m):
            if t.k == "cmp" and t.a[0] in ("==", "is") and SELF in t.a[1:]:
                o = t.a[2] if t.a[1] is SELF else t.a[1]
                if o.k == "global":
                    return o.a[0].endswith("." + m)
            return None
        from .util import live
        made = [(n, d, b) for n, d, b in creations(c, fl) if d is not None and d.name.endswith("VectorEnv") and n in live(fl, val)]
        if not made:
            c.und(f"VectorEnvType.{m}", f.where, "nothing is created")
            continue
        for n, d, b in made:
            c.decide(d.name == cls, f"VectorEnvType.{m}", n.where, f"creates a {d.name}")
            c.decide(any(P("factories") in closure(fl, v) for v in b.values()), f"VectorEnvType.{m}/factories", n.where, "the environments are not those given")
            if shm is not None:
                s = b.get("share_memory")
                c.decide((s is const(True)) == shm, f"VectorEnvType.{m}/shared memory", n.where, "shared memory is used" if not shm else "shared memory is not used")
            if "FORK" in m:
                c.decide(b.get("context") is const("fork"), f"VectorEnvType.{m}/context", n.where, "the fork context is not used")


@rule("H01")
def environment_kinds(c):
    """Discrete and continuous environments are told apart by their action space and answer for themselves."""
    k = c.p.cls("EnvType")
    f = k.find("from_env")
    fl = c.flow(f, k)
    for kind, m in (("Discrete", "DISCRETE"), ("Box", "CONTINUOUS")):
        def val(t, kind=kind):
            if is_call(t, "isinstance") and len(t.a[1]) == 2 and t.a[1][1].k == "global":
                return t.a[1][1].a[0].rsplit(".", 1)[-1] == kind
            return None
        for v in returned(fl, val):
            c.decide(v.a[0].endswith("." + m) if v.k == "global" else None, f"EnvType.from_env/{kind}", f.where, f"is taken for {v}")
    for nm, m in (("DiscreteEnvironments", "DISCRETE"), ("ContinuousEnvironments", "CONTINUOUS")):
        kk = c.p.cls(nm)
        g = c.flow(kk.find("get_type"), kk)
        for v in returned(g, lambda t: None):
            c.decide(v.a[0].endswith("." + m) if v.k == "global" else None, f"{nm}.get_type", g.entry.where, f"claims to be {v}")
        fi = c.flow(kk.find("__init__"), kk)
        for gm, space in (("get_action_shape", "action_space"), ("get_observation_shape", "observation_space")):
            g = c.flow(kk.find(gm), kk)
            for v in returned(g, lambda t: None):
                if v.k == "attr" and v.a[0] is SELF:
                    src = [s.d["value"] for s in setattrs(fi, v.a[1], base=SELF)]
                    at = {x.a[1] for s in src for x in closure(fi, s) if x.k == "attr" and x.a[1] in ("action_space", "observation_space")}
                    c.decide(None if not at else at == {space}, f"{nm}.{gm}", g.entry.where, f"is taken from the {sorted(at)}")
    for kk, m in ((c.p.cls("EnvType"), "is_discrete"), (c.p.cls("EnvType"), "is_continuous")):
        g = c.flow(kk.find(m), kk)
        for v in returned(g, lambda t: None):
            want = m[3:].upper()
            x, pol = canon_cond(v)
            ms = {y.a[0].rsplit(".", 1)[-1] for y in subterms(x) if y.k == "global" and ".EnvType." in y.a[0]}
            c.decide((ms == {want}) == pol if ms else None, f"EnvType.{m}", g.entry.where, "wrong answer")


# ------------------------------------------------------------------------- callbacks
@rule("H01")
def callbacks_do_what_they_are_configured_for(c):
    """Exploration rates are set to the configured values (linear from start to end over the configured steps), training stops once the mean return reaches the threshold, and callbacks are called with what the trainer passes."""
    from ..query import Poly
    n = 0
    for b in ("EpochTrainCallback", "EpochTestCallback", "EpochStopCallback"):
        k0 = c.p.cls(b)
        f = k0.find("get_trainer_fn")
        inner = [x for x in ast.walk(f.node) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f.node]
        for g in inner:
            ps = [a.arg for a in g.args.args]
            calls = [x for x in ast.walk(g) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("callback", "should_stop")]
            for cl in calls:
                got = [a.id if isinstance(a, ast.Name) else "?" for a in cl.args]
                tgt = params_of(k0.find(cl.func.attr))
                tgt = [p for p in tgt if p != "self"]
                names = dict(zip(tgt, got, strict=False))
                names.update({kw.arg: kw.value.id if isinstance(kw.value, ast.Name) else "?" for kw in cl.keywords})
                want = dict(zip(tgt, [*ps, "context"], strict=False))
                c.decide(names == want or None if "?" in names.values() else names == want, f"{b}.get_trainer_fn", f"{k0.module.rel}:{cl.lineno}", f"called with {names}")
        for k in c.p.subclasses(k0.qual, strict=True):
            S = kept(c, k)
            m = "should_stop" if b == "EpochStopCallback" else "callback"
            f = k.find(m)
            if f is None or f.is_abstract:
                continue
            fl = c.flow(f, k)
            if m == "callback":
                sets = [x for x in nodes(fl, "call") if x.d["name"] == "set_eps"]
                for s in sets:
                    n += 1
                    v = s.d["args"][0] if s.d["args"] else s.d["kw"].get("eps")
                    c.decide(v is not None and any(A(a) in closure(fl, v) for a in S), f"{k.name}/eps", s.where, "the configured rate is not set")
                p = find_path([fl.entry_node], [fl.exit_node], sets)
                if sets:
                    c.decide(p is None, f"{k.name}/always", f.where, f"the rate is not set: {describe(p)}")
                if {"eps_train", "eps_train_final", "decay_steps"} <= set(S) and sets:
                    from .util import resolve
                    v = sets[0].d["args"][0]
                    at = lambda t: "s" if t is P("env_step") else t.a[1] if t.k == "attr" and t.a[0] is SELF and t.a[1] in S else None
                    want = (Poly.x("eps_train") * Poly.x("decay_steps") - Poly.x("s") * (Poly.x("eps_train") - Poly.x("eps_train_final")), Poly.x("decay_steps"))
                    r = resolve(v, lambda t: _step_cond(t, True))
                    c.decide(rat_eq(rat(r, at), want) if r.k != "phi" and not any(is_call(x, "max", "min") for x in subterms(r)) else None, f"{k.name}/during decay", sets[0].where, "is not on the line from eps_train to eps_train_final")
                    r = resolve(v, lambda t: _step_cond(t, False))
                    c.decide(r is A("eps_train_final") if r.k != "phi" and not any(is_call(x, "max", "min") for x in subterms(r)) else None, f"{k.name}/after decay", sets[0].where, "is not eps_train_final")
            else:
                for v in returned(fl, lambda t: None):
                    x, pol = canon_cond(v)
                    # canonical: (mean < threshold) negated
                    ok = None
                    if x.k == "cmp" and x.a[0] == "<":
                        l, r = x.a[1], x.a[2]
                        mean_l, mean_r = P("mean_rewards") in closure(fl, l, conds=False), P("mean_rewards") in closure(fl, r, conds=False)
                        if mean_l != mean_r:
                            ok = (mean_l and not pol) or (mean_r and pol and False) or (mean_r and pol)
                            other = r if mean_l else l
                            c.decide(A("threshold") in closure(fl, other), f"{k.name}/threshold", f.where, "the configured threshold is not used")
                            # at the threshold itself training stops
                            if mean_r and pol:
                                ok = False
                            if mean_l and pol:
                                ok = False
                            if mean_r and not pol:
                                ok = False
                    n += 1
                    c.decide(ok, f"{k.name}/reached", f.where, "training does not stop exactly when the mean return has reached the threshold")
    if n < 3:
        raise AnalysisBroken("callbacks not found")


def _step_cond(t, during):
    """Truth of a comparison of the environment step with the number of decay steps, strictly within or beyond."""
    if t.k == "cmp" and t.a[0] in ("<", ">", "<=", ">="):
        l, r = t.a[1], t.a[2]
        if l is P("env_step") and r is A("decay_steps"):
            return during if t.a[0] in ("<", "<=") else not during
        if r is P("env_step") and l is A("decay_steps"):
            return during if t.a[0] in (">", ">=") else not during
    return None


@rule("H01")
def curiosity_wrapper(c):
    """The curiosity wrapper accepts every discrete action space (whose size is a numpy integer)."""
    for k in c.p.subclasses(q(c, "PolicyWrapperFactory"), strict=True):
        f = k.find("create_wrapped_policy")
        fl = c.flow(f, k, opaque=OPQ)
        for b in nodes(fl, "branch"):
            x, pol = canon_cond(b.d["cond"])
            if is_call(x, "isinstance") and len(x.a[1]) == 2 and any(is_call(y, "get_action_shape") for y in closure(fl, x.a[1][0])) and x.a[1][0].k == "call" and is_call(x.a[1][0], "get_action_shape"):
                no = [m for m, l in b.succ if l == ("F" if pol else "T")]
                stops = find_path(no, [fl.exit_node], skip_start=False) is None
                ty = {y.a[0] for y in subterms(x.a[1][1]) if y.k == "global"}
                ok = not stops or not (ty & {"int", "builtins.int"}) or any(t.startswith("numpy.") or t.startswith("numbers.") for t in ty)
                c.decide(ok, f"{k.name}/discrete actions", b.where, "a numpy integer, which every discrete action space has, is refused")
