"""High-level configuration: every configured value reaches the object it configures; persistence; launching."""
from __future__ import annotations

import ast

from ..core import rule
from ..flow import NONE, Term, canon_cond, const, is_call, show, subterms
from ..program import AnalysisBroken, Cls
from ..query import closure, describe, find_path, nodes, setattrs, setsubs, strip, values
from .policies import INIT_OPQ
from .util import A, P, SELF, edge_succ, params_of

HL = "tianshou.highlevel."
BUILDER, PARAMS, TRANS, AGENT = "ExperimentBuilder", "Params", "ParamTransformer", "AgentFactory"


def q(c, name):
    return c.p.cls(name).qual


def concrete(c, base):
    out = []
    for k in c.p.subclasses(q(c, base), strict=True):
        if any(m.is_abstract for n in {n for x in k.mro_classes() for n in x.methods} for m in [k.find(n)]):
            continue
        out.append(k)
    return sorted(out, key=lambda k: k.qual)


def cls_of(c, t):
    """Class a constructor call creates."""
    if t is not None and t.k == "call" and t.a[0].k == "global":
        try:
            qual = c.p.canon(t.a[0].a[0]) or t.a[0].a[0]
        except Exception:
            qual = t.a[0].a[0]
        return c.p.classes.get(qual)
    return None


def ctor_names(k):
    """Names of the constructor's parameters, the keyword-only ones, the required ones; whether it takes others."""
    f = k.find("__init__")
    if f is not None:
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][1:]
        kwo = [x.arg for x in a.kwonlyargs]
        nd = len(a.defaults)
        req = set(pos[:len(pos) - nd] if nd else pos) | {x for x, d in zip(kwo, a.kw_defaults, strict=True) if d is None}
        return pos, kwo, req, a.vararg is not None, a.kwarg is not None
    if k.is_dataclass:
        fs = k.fields()
        return list(fs), [], {n for n, (v, _, _) in fs.items() if v is None}, False, False
    return None


def bind(k, t):
    """{parameter: term} of a constructor call; '*'/'**' for what is spread."""
    sig = ctor_names(k)
    if sig is None:
        return None
    pos, kwo, req, va, kwa = sig
    out = {}
    for i, x in enumerate(t.a[1]):
        if x.k == "star":
            out["*"] = x.a[0]
            break
        if i < len(pos):
            out[pos[i]] = x
        elif va:
            out.setdefault("*rest", []).append(x)
    for n, v in t.a[2]:
        if n == "**":
            out.setdefault("**", []).append(v)
        else:
            out[n] = v
    return out


def dig(fl, t):
    """A field of an object that is constructed in view: `ModuleOpt(m, o).optim` -> `o` (dataclasses)."""
    return t


# ------------------------------------------------------------------------- parameter objects
def transformers(c, pk):
    """Constructor calls of the transformers a parameter class applies, in order of construction."""
    fl = c.flow("_get_param_transformers", pk)
    got = closure(fl, fl.ret_value)
    out = []
    for n in nodes(fl, "call"):
        t = n.d["term"]
        k = cls_of(c, t)
        if k is not None and k.is_sub(q(c, TRANS)) and t in got and t not in [x for _, x in out]:
            out.append((k, t))
    return fl, out


def stored(c, k, bound):
    """{attribute: term} a constructed object holds, its constructor arguments substituted."""
    f = k.find("__init__")
    out = {}
    if f is None:
        return dict(bound)
    fl = c.flow(f, k, opaque=INIT_OPQ)
    va = f.node.args.vararg.arg if f.node.args.vararg else None
    for n in setattrs(fl, base=SELF):
        v = n.d["value"]
        if v.k == "param":
            if v.a[0] == va:
                out[n.d["attr"]] = Term("tuple", tuple(bound.get("*rest", ())))
            elif v.a[0] in bound:
                out[n.d["attr"]] = bound[v.a[0]]
        elif v.k in ("const", "tuple", "list"):
            out[n.d["attr"]] = v
    return out


def subst(t, env):
    """Access paths of self and of literal sequences replaced by what they hold; a loop element gives all alternatives."""
    if t.k == "attr" and t.a[0] is SELF:
        return [env[t.a[1]]] if t.a[1] in env else [t]
    if t.k == "elem":
        out = []
        for s in subst(t.a[0], env):
            if s.k in ("tuple", "list"):
                out += list(s.a[0])
            else:
                out.append(Term("elem", s, t.a[1]))
        return out
    if t.k == "item" and isinstance(t.a[1], int):
        return [s.a[0][t.a[1]] if s.k in ("tuple", "list") and t.a[1] < len(s.a[0]) else Term("item", s, t.a[1]) for s in subst(t.a[0], env)]
    if t.k == "sub" and t.a[1].k == "const" and isinstance(t.a[1].a[0], int):
        i = t.a[1].a[0]
        return [s.a[0][i] if s.k in ("tuple", "list") and -len(s.a[0]) <= i < len(s.a[0]) else Term("sub", s, t.a[1]) for s in subst(t.a[0], env)]
    if t.k == "attr":
        return [Term("attr", s, t.a[1]) for s in subst(t.a[0], env)]
    if t.k in ("tuple", "list"):
        return [Term(t.k, tuple(subst(x, env)[0] if len(subst(x, env)) == 1 else x for x in t.a[0]))]
    return [t]


class Effects:
    def __init__(self):
        self.gone, self.set, self.sched, self.unknown = [], [], [], []


def transform(c, k, env, eff, depth=0):
    """What `transform` of a transformer holding `env` does to the keyword dictionary."""
    f = k.find("transform")
    if f is None or depth > 3:
        eff.unknown.append(f"{k.name}.transform")
        return
    fl = c.flow(f, k)
    d, data = (f.params() + ["?", "?"])[1:3]
    D = P(d)
    for n in nodes(fl, "delsub"):
        if n.d["base"] is not D:
            continue
        for x in subst(n.d["index"], env):
            (eff.gone if x.k == "const" else eff.unknown).append(x.a[0] if x.k == "const" else show(x))
    for n in nodes(fl, "call"):
        if n.d["name"] == "pop" and n.d["recv"] is D and n.d["args"]:
            for x in subst(n.d["args"][0], env):
                (eff.gone if x.k == "const" else eff.unknown).append(x.a[0] if x.k == "const" else show(x))
        if n.d["name"] == "create_scheduler" and n.d["recv"] is not None and n.d["args"]:
            fac, opt = n.d["recv"], n.d["args"][0]
            key = fac.a[1] if fac.k == "sub" and fac.a[0] is D else fac.a[1][0] if fac.k == "call" and is_call(fac, "pop", "get") and fac.a[1] else None
            if key is None:
                eff.unknown.append(f"scheduler of {show(fac)}")
                continue
            ks, os_ = subst(key, env), subst(opt, env)
            if len(ks) != len(os_):
                eff.unknown.append(f"scheduler of {show(key)}")
                continue
            for a, b in zip(ks, os_, strict=True):
                eff.sched.append((a.a[0] if a.k == "const" else None, b, n.where))
        if n.d["name"] == "transform" and n.d["recv"] is not None and n.d["recv"] is not SELF and not n.d["inlined"]:
            k2 = cls_of(c, n.d["recv"])
            if k2 is None:
                eff.unknown.append(f"{show(n.d['recv'])[:60]}.transform")
                continue
            b2 = bind(k2, n.d["recv"])
            b2 = {p: (subst(v, env)[0] if isinstance(v, Term) and len(subst(v, env)) == 1 else v) for p, v in (b2 or {}).items()}
            transform(c, k2, stored(c, k2, b2), eff, depth + 1)
    for n in setsubs(fl, base=D):
        for x in subst(n.d["index"], env):
            if x.k != "const":
                eff.unknown.append(show(x))
                continue
            eff.set.append((x.a[0], n.d["value"], fl, D, env, n.where, k))


def effects(c, pk):
    fl, ts = transformers(c, pk)
    eff = Effects()
    for k, t in ts:
        b = bind(k, t)
        if b is None or "*" in b or "**" in b:
            eff.unknown.append(k.name)
            continue
        transform(c, k, stored(c, k, b), eff)
    return fl, ts, eff


def accepted(k):
    pos, kwo, req, va, kwa = ctor_names(k)
    return set(pos) | set(kwo), req, kwa


class Algo:
    """One algorithm of the high-level interface: builder, agent factory, parameter class, policy class."""

    def __init__(self, c, bk):
        self.builder = bk
        f = bk.find("_create_agent_factory")
        self.bfl = c.flow(f, bk)
        self.factory = self.fcall = self.params = self.policy = None
        for v in values(self.bfl, self.bfl.ret_value):
            k = cls_of(c, v)
            if k is not None and k.is_sub(q(c, AGENT)):
                self.factory, self.fcall = k, v
        if self.factory is None:
            return
        self.fbind = bind(self.factory, self.fcall)
        ini = bk.find("__init__")
        self.ifl = c.flow(ini, bk)
        pt = self.fbind.get("params")
        if pt is not None and pt.k == "attr" and pt.a[0] is SELF:
            for n in setattrs(self.ifl, pt.a[1], base=SELF):
                for v in values(self.ifl, n.d["value"]):
                    k = cls_of(c, v)
                    if k is not None and k.is_sub(q(c, PARAMS)):
                        self.params = k
        self.pfl = c.flow("_create_policy", self.factory)
        self.pcall = None
        for v in values(self.pfl, self.pfl.ret_value):
            k = cls_of(c, v)
            if k is not None and k.is_sub(q(c, "BasePolicy")):
                self.policy, self.pcall = k, v

    def given(self):
        """Explicit arguments of the policy's constructor, and whether the parameter object's are added."""
        b = bind(self.policy, self.pcall)
        extra = b.pop("**", [])
        out = {n: (v, "direct") for n, v in b.items()}
        kw, ok = [], "*" not in b
        for e in extra:
            ok = self.spread(e, out, kw) and ok
        return out, kw, ok

    def spread(self, e, out, kw):
        fl = self.pfl
        if is_call(e, "create_kwargs"):
            kw.append(e)
        elif e.k == "dict":
            for a, b in e.a[0]:
                if not isinstance(a, Term) or a.k == "star":
                    if not self.spread(b, out, kw):
                        return False
                elif a.k == "const":
                    out[a.a[0]] = (b, "set")
                else:
                    return False
        elif is_call(e, "dict") and e.a[0].k == "global":
            for x in e.a[1]:
                if not self.spread(x, out, kw):
                    return False
            for n, v in e.a[2]:
                if n == "**":
                    if not self.spread(v, out, kw):
                        return False
                else:
                    out[n] = (v, "set")
        else:
            return False
        for n in setsubs(fl, base=e):
            if n.d["index"].k != "const":
                return False
            out[n.d["index"].a[0]] = (n.d["value"], "set")
        for n in nodes(fl, "call"):
            if n.d["name"] == "update" and n.d["recv"] is e:
                for x in n.d["args"]:
                    if not self.spread(x, out, kw):
                        return False
                for k2, v in n.d["kwt"]:
                    if k2 == "**":
                        return False
                    out[k2] = (v, "set")
        return True


def algos(c):
    key = "_hl_algos"
    if not hasattr(c, key):
        out = [Algo(c, k) for k in concrete(c, BUILDER)]
        setattr(c, key, out)
    return getattr(c, key)


def with_params(c):
    out = [a for a in algos(c) if a.params is not None]
    if len(out) < 6:
        raise AnalysisBroken("experiment builders and their parameter objects not found")
    return out


@rule("H01")
def parameters_match_the_policy(c):
    """What is left of a parameter object after its transformations is exactly a set of arguments the policy's constructor takes, none given twice, none required missing."""
    for a in with_params(c):
        con = f"{a.params.name}->{a.policy.name if a.policy else '?'}"
        where = a.params.where
        if a.policy is None:
            c.und(con, "the policy that is created is not known")
            continue
        _, ts, eff = effects(c, a.params)
        fields = list(a.params.fields())
        if eff.unknown:
            c.und(con, f"transformation not understood: {eff.unknown[:3]}")
            continue
        keys = list(fields)
        bad = [x for x in eff.gone if x not in keys]
        c.decide(not bad, con + "/drop", where, f"removes {bad}, which the parameter object does not have")
        keys = [x for x in keys if x not in eff.gone] + [s[0] for s in eff.set if s[0] not in keys]
        exp, kw, ok = a.given()
        if not ok or len(kw) != 1:
            c.decide(False if ok and not kw else None, con + "/used", a.pfl.entry.where, "the configured parameters are not passed to the policy")
            continue
        acc, req, more = accepted(a.policy)
        un = [x for x in keys if x not in acc]
        c.decide(None if un and more else not un, con + "/accepted", where, f"{a.policy.name} has no parameter {un}")
        dup = [x for x in keys if x in exp]
        c.decide(not dup, con + "/once", a.pfl.entry.where, f"configured value of {dup} is given twice or replaced by a fixed one")
        miss = [x for x in req if x not in keys and x not in exp]
        c.decide(not miss, con + "/complete", a.pfl.entry.where, f"required arguments {miss} of {a.policy.name} are not given")
        unx = [x for x in exp if x not in acc]
        c.decide(None if unx and more else not unx, con + "/explicit", a.pfl.entry.where, f"{a.policy.name} has no parameter {unx}")
        # hyper-parameters of the policy that the parameter object has under the same name are the configured ones
        if kw:
            e = kw[0]
            c.decide(e.a[0].k == "attr" and e.a[0].a[0] is A("params"), con + "/object", a.pfl.entry.where, "the arguments are not made from the configured parameter object")
        # the factory keeps the object it was given
        init = c.flow("__init__", a.factory)
        vs = [n.d["value"] for n in setattrs(init, "params", base=SELF)]
        c.decide(bool(vs) and vs[-1] is P("params"), con + "/kept", init.entry.where, "the agent factory does not keep the parameter object it is given")


FACT = ("Factory", "Literal")


def admits(pk, f):
    """Kinds of values a field admits besides plain ones: factory class names, 'default'."""
    _, ann, k = pk.fields()[f]
    out = set()
    for x in ast.walk(ann):
        if isinstance(x, ast.Name) and x.id.endswith("Factory"):
            out.add(x.id)
        if isinstance(x, ast.Constant) and x.value == "default":
            out.add("default")
    return out


@rule("H01")
def factories_are_resolved(c):
    """A parameter that may be a factory (of noise, a learning rate schedule, an automatic alpha, an environment-dependent value) is replaced by what the factory creates; a plain value is passed on as it is."""
    for a in with_params(c):
        _, ts, eff = effects(c, a.params)
        done = {}
        for s in eff.set:
            done.setdefault(s[0], []).append(s)
        for f in a.params.fields():
            kinds = admits(a.params, f)
            con = f"{a.params.name}.{f}"
            if any(k.endswith("Factory") for k in kinds):
                if f in eff.gone:
                    hit = [s for s in eff.sched if s[0] == f]
                    c.decide(True if hit else None if eff.unknown else False, con, a.params.where, f"the configured factory {f} is dropped")
                    continue
                ss = done.get(f)
                if not ss:
                    c.decide(None if eff.unknown else False, con, a.params.where, f"a factory given for {f} reaches the policy itself: nothing replaces it by what it creates")
                    continue
            elif f not in done or "default" not in kinds:
                if f in done and f not in eff.gone:
                    pass
                else:
                    continue
            for key, val, fl, D, env, where, k in done.get(f, ()):
                old = [x for v in values(fl, val) for x in subterms(v) if x.k == "sub" and x.a[0] is D]
                same = bool(old) and all([y.a[0] if y.k == "const" else None for y in subst(x.a[1], env)] == [f] for x in old)
                c.decide(same if old else None, con + "/own value", where, f"{f} is computed from another parameter")
                raw = [v for v in values(fl, val) if v.k == "sub" and v.a[0] is D]
                wr = [v for v in values(fl, val) if v not in raw]
                guarded = raw or any(b.kind == "branch" for b in fl.nodes)
                c.decide(True if guarded else None, con + "/plain", where, f"a plain value of {f} is not passed on")
                for b in nodes(fl, "branch"):
                    cd, pol = canon_cond(b.d["cond"])
                    if not is_call(cd, "isinstance") or len(cd.a[1]) != 2 or cd.a[1][1].k != "global":
                        continue
                    name = cd.a[1][1].a[0].rsplit(".", 1)[-1]
                    tk = c.p.classes.get(cd.a[1][1].a[0])
                    want = [x for x in kinds if x.endswith("Factory")]
                    if tk is None or not want:
                        continue
                    okk = any((w == name) or (c.p.has_cls(w) and c.p.cls(w).is_sub(tk.qual)) for w in want)
                    c.decide(okk, con + "/kind", b.where, f"recognises {name}, but {f} may be {want}")


ROLES = {"actor_optim": "actor", "critic_optim": "critic", "critic2_optim": "critic2", "optim": ""}


def role_of(name, suffix, opt_names):
    """Policy argument of the optimizer a parameter `<role>_lr...` belongs to."""
    r = name[: -len(suffix)].rstrip("_")
    if r == "critic1":
        r = "critic"
    want = (r + "_optim") if r else "optim"
    return want if want in opt_names else None


@rule("H01")
def learning_rates_reach_their_optimizer(c):
    """Each configured learning rate, and each learning-rate schedule, reaches the optimizer of the network it is named after."""
    lrs = 0
    for a in with_params(c):
        if a.policy is None:
            continue
        exp, kw, ok = a.given()
        if not ok:
            c.und(a.factory.name, "arguments of the policy not understood")
            continue
        fl = a.pfl
        acc, _, _ = accepted(a.policy)
        opts = [x for x in acc if x.endswith("optim")]
        for o in opts:
            if o not in exp:
                continue
            v = exp[o][0]
            got = {x.a[1] for x in closure(fl, v) if x.k == "attr" and x.a[0] is A("params") and (x.a[1] == "lr" or x.a[1].endswith("_lr"))}
            want = {f for f in a.params.fields() if (f == "lr" or f.endswith("_lr")) and role_of(f, "lr", opts) == o}
            con = f"{a.factory.name}/{o}"
            lrs += 1
            if not want:
                c.und(con, "no learning rate is configured for it")
                continue
            c.decide(got == want if got else (False if not [x for x in closure(fl, v) if x.k == "attr" and x.a[1] == "params" or is_call(x, "getattr")] else None),
                     con, fl.entry.where, f"optimizer uses the learning rate {sorted(got)}, configured is {sorted(want)}")
        # schedules
        _, _, eff = effects(c, a.params)
        data = None
        if kw:
            e = kw[0]
            dargs = list(e.a[1]) + [v for _, v in e.a[2]]
            if dargs and cls_of(c, dargs[0]) is not None:
                data = bind(cls_of(c, dargs[0]), dargs[0])
        seen = set()
        for key, opt, where in eff.sched:
            con = f"{a.params.name}.{key}"
            if key is None or data is None or opt.k != "attr":
                c.und(con, "schedule not understood")
                continue
            seen.add(key)
            path, t = [], opt
            while t.k == "attr":
                path.append(t.a[1])
                t = t.a[0]
            path.reverse()
            v = data.get(path[0])
            for x in path[1:]:
                v = None if v is None else Term("attr", v, x)
            o = role_of(key, "lr_scheduler_factory", opts)
            if v is None:
                c.decide(False, con, where, f"the schedule is attached to {show(opt)}, which is not provided by {a.factory.name}")
                continue
            if o is None or o not in exp:
                c.und(con, "no optimizer of that name")
                continue
            c.decide(v is exp[o][0] or None if set(closure(fl, v)) & {exp[o][0]} else v is exp[o][0], con, where, f"the schedule of {o} is attached to another optimizer ({show(opt)})")
            # and ends up in the argument of the policy
            put = [s for s in eff.set if s[0] == "lr_scheduler"]
            c.decide(bool(put) and "lr_scheduler" in acc, con + "/passed", where, "the created schedule is not passed to the policy")
        for f in a.params.fields():
            if f.endswith("lr_scheduler_factory") and f not in seen:
                c.decide(None if eff.unknown else False, f"{a.params.name}.{f}", a.params.where, "the configured schedule factory is never used to create a schedule")
    if lrs < 6:
        raise AnalysisBroken("optimizers of the agent factories not found")


@rule("H01")
def modules_go_with_their_optimizer(c):
    """Each network of a policy comes from the factory configured for it and is passed together with the optimizer that holds its parameters."""
    n_ok = 0
    for a in with_params(c):
        if a.policy is None:
            continue
        exp, kw, ok = a.given()
        if not ok:
            continue
        fl = a.pfl
        acc, _, _ = accepted(a.policy)
        fac_attrs = {n.d["attr"] for n in setattrs(c.flow("__init__", a.factory), base=SELF)}
        for m in ("actor", "critic", "critic2", "model"):
            if m not in exp:
                continue
            v = exp[m][0]
            con = f"{a.factory.name}/{m}"
            n_ok += 1
            used = {x.a[1] for x in closure(fl, v, stop=lambda x: x.k == "attr" and x.a[1] == "optim") if x.k == "attr" and x.a[0] is SELF and x.a[1].endswith("_factory") and x.a[1] != "optim_factory"}
            alts = [m + "_factory", m + "1_factory", m + "_ensemble_factory"]
            want = [x for x in alts if x in fac_attrs]
            joint = v.k == "attr" and v.a[1] == m  # member of a module made of several
            if joint:
                c.decide(want[0] in used if want else None, con + "/factory", fl.entry.where, f"made by {sorted(used)}")
            else:
                c.decide(None if not want or not used else used == {want[0]}, con + "/factory", fl.entry.where, f"the {m} is made by {sorted(used)}, configured is {want}")
            o = m + "_optim" if m + "_optim" in acc else "optim"
            if o in exp:
                ov = exp[o][0]
                if v.k == "attr" and ov.k == "attr":
                    c.decide(v.a[0] is ov.a[0], con + "/optimizer", fl.entry.where, f"the {m} is paired with an optimizer made for another network")
                else:
                    c.decide(True if v in closure(fl, ov) else None, con + "/optimizer", fl.entry.where, "the optimizer is not visibly made for it")
    for name in ("ActorFactory", "CriticFactory", "CriticEnsembleFactory"):
        if not c.p.has_cls(name):
            continue
        for k in [c.p.cls(name)] + [x for x in c.p.subclasses(q(c, name), strict=True) if "create_module_opt" in x.methods]:
            f = k.find("create_module_opt")
            fl = c.flow(f, k)
            con = f"{k.name}.create_module_opt"
            for v in values(fl, fl.ret_value):
                kk = cls_of(c, v)
                if kk is None:
                    c.und(con, "what is returned is not known")
                    continue
                b = bind(kk, v)
                m, o = b.get("module"), b.get("optim")
                if m is None or o is None:
                    c.und(con, "module and optimizer not recognised")
                    continue
                c.decide(m in closure(fl, o), con, fl.entry.where, "the optimizer is not made for the module it is returned with")
                lr = P("lr") in closure(fl, o)
                c.decide(lr, con + "/lr", fl.entry.where, "the given learning rate does not reach the optimizer")
                for x in closure(fl, m):
                    if is_call(x, "create_module") and x.a[0].k == "attr" and x.a[0].a[0] is SELF:
                        tf = k.find("create_module")
                        names = tf.params()[1:]
                        for i, y in enumerate(x.a[1]):
                            if i < len(names) and y.k == "param" and y.a[0] != names[i] and y.a[0] in names:
                                c.bad(con + "/arguments", fl.entry.where, f"{y.a[0]} is passed as {names[i]}")
                        for n2, y in x.a[2]:
                            if y.k == "param" and y.a[0] != n2 and y.a[0] in names:
                                c.bad(con + "/arguments", fl.entry.where, f"{y.a[0]} is passed as {n2}")
    if n_ok < 8:
        raise AnalysisBroken("networks of the agent factories not found")


@rule("H01")
def dropped_parameters_are_used_elsewhere(c):
    """A parameter that is not an argument of the policy is read by the factory or builder that creates the objects it describes, and given to them under its own name."""
    for a in with_params(c):
        _, _, eff = effects(c, a.params)
        kept = {s[0] for s in eff.set}
        for f in eff.gone:
            if f in kept or any(s[0] == f for s in eff.sched):
                continue
            con = f"{a.params.name}.{f}"
            reads = [x for fl in (a.pfl, a.bfl) for n in fl.nodes for t in terms_of(n) for x in subterms(t) if x.k == "attr" and x.a[1] == f and x.a[0].k == "attr" and x.a[0].a[1] in ("params", "_params")]
            c.decide(bool(reads), con, a.params.where, f"the configured {f} is removed from the policy's arguments and used nowhere else")
            if f == "lr" or f.endswith("_lr"):
                continue
            for fl in (a.pfl, a.bfl):
                for n in nodes(fl, "call"):
                    for nm, v in n.d["kwt"]:
                        if v.k == "attr" and v.a[1] == f and v.a[0].k == "attr" and v.a[0].a[1] in ("params", "_params"):
                            k = n.d["cls"] if isinstance(n.d.get("cls"), Cls) else cls_of(c, n.d["term"])
                            if k is not None and f in accepted(k)[0]:
                                c.decide(nm == f, con + "/name", n.where, f"passed as {nm}")


def terms_of(n):
    for v in n.d.values():
        if isinstance(v, Term):
            yield v
        elif isinstance(v, tuple):
            for x in v:
                if isinstance(x, Term):
                    yield x
                elif isinstance(x, tuple):
                    yield from (y for y in x if isinstance(y, Term))


# ------------------------------------------------------------------------- constructors
def param_flow(c, k, f):
    return c.flow(f, k, opaque=INIT_OPQ)


def consumers(fl, p):
    """Nodes that do something with a parameter: store it, call with it, decide on it."""
    t = P(p)
    out = []
    for n in fl.nodes:
        if n.kind in ("entry", "ret", "exit", "raise_exit", "return"):
            continue
        if n.kind == "call" and n.d["inlined"]:
            continue
        if any(t is x for v in terms_of(n) for x in subterms(v)):
            out.append(n)
    return out


SCOPE = ("BasePolicy", "BaseTrainer", "BaseCollector", "BaseNoise", "ReplayBuffer", "BaseVectorEnv", AGENT, "OptimizerFactory", "EnvFactory", "Environments",
         "ActorFactory", "CriticFactory", "CriticEnsembleFactory", "IntermediateModuleFactory", "PolicyWrapperFactory", "NoiseFactory", "AutoAlphaFactory", "EnvValueFactory",
         "LRSchedulerFactory", "LoggerFactory", "EpochTrainCallback", "EpochTestCallback", "EpochStopCallback", "ParamTransformer", "PersistenceGroup", "PolicyPersistence",
         "ImplicitQuantileNetworkFactory", "Experiment", "TrainingContext", "ExperimentCollection", "ExpLauncher")


def scope(c):
    out = {}
    for b in SCOPE:
        if c.p.has_cls(b):
            for k in c.p.subclasses(q(c, b)):
                out[k.qual] = k
    return [out[x] for x in sorted(out)]


@rule("H01")
def constructors_keep_what_they_are_given(c):
    """Every constructor parameter of a policy, trainer, collector, buffer, logger, environment or factory is used, and an attribute named like a parameter holds that parameter and not another one (through all super-constructors)."""
    n = 0
    for k in scope(c):
        f = k.find("__init__")
        if f is None:
            continue
        try:
            fl = param_flow(c, k, f)
        except AnalysisBroken:
            continue
        names = [x for x in params_of(f) if x not in ("self", "args", "kwargs")]
        va = {f.node.args.vararg.arg} if f.node.args.vararg else set()
        va |= {f.node.args.kwarg.arg} if f.node.args.kwarg else set()
        if f.cls is not k and not any(x.methods.get("__init__") for x in [k]):
            continue  # inherited unchanged
        for p in names:
            n += 1
            used = consumers(fl, p)
            c.decide(bool(used), f"{k.name}({p})", f.where, f"constructor parameter {p} is ignored")
        for s in setattrs(fl, base=SELF):
            a, v = s.d["attr"].lstrip("_"), s.d["value"]
            if a in names and v.k == "param" and v.a[0] in names and v.a[0] != a:
                # the attribute of that name holds another parameter; fine only if it is set to its own later
                later = [x for x in setattrs(fl, s.d["attr"], base=SELF) if x is not s and P(a) in closure(fl, x.d["value"])]
                c.decide(bool(later) and find_path([s], [fl.exit_node], later) is None, f"{k.name}.{s.d['attr']}", s.where, f"holds the parameter {v.a[0]}")
    if n < 200:
        raise AnalysisBroken("constructors not found")


def attr_reads(c):
    """Names of attributes that are read anywhere in the package."""
    if not hasattr(c, "_attr_reads"):
        out = set()
        for m in c.p.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    out.add(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("getattr", "hasattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    out.add(x.args[1].value)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute):
                    out.add(x.target.attr)
        c._attr_reads = out
    return c._attr_reads


@rule("H01")
def kept_values_are_read(c):
    """What a constructor stores of its parameters is read again by the class (or by the code that uses its objects)."""
    reads = attr_reads(c)
    for k in scope(c):
        f = k.methods.get("__init__")
        if f is None:
            continue
        fl = param_flow(c, k, f)
        names = set(params_of(f))
        for s in setattrs(fl, base=SELF):
            if s.d["value"].k == "param" and s.d["value"].a[0] in names and not [x for x in consumers(fl, s.d["value"].a[0]) if x is not s]:
                c.decide(s.d["attr"] in reads, f"{k.name}.{s.d['attr']}", s.where, f"the parameter {s.d['value'].a[0]} is stored and never read")


# ------------------------------------------------------------------------- sampling and experiment configuration
TRAINER_ARGS = {"max_epoch": "num_epochs", "step_per_epoch": "step_per_epoch", "step_per_collect": "step_per_collect", "episode_per_collect": "episode_per_collect",
                "episode_per_test": "num_test_episodes", "batch_size": "batch_size"}
WORLD_ARGS = {"policy": ("policy",), "train_collector": ("train_collector",), "test_collector": ("test_collector",), "logger": ("logger",)}
CALLBACKS = {"train_fn": "epoch_train_callback", "test_fn": "epoch_test_callback", "stop_fn": "epoch_stop_callback"}
SAMP = A("sampling_config")


def cfg_fields(fl, t, base):
    return {x.a[1] for x in closure(fl, t, conds=False) if x.k == "attr" and x.a[0] is base}


@rule("H01")
def sampling_settings_reach_the_trainer(c):
    """The trainer gets every sampling setting, collector, callback and logger under its own name."""
    n = 0
    for k in concrete(c, AGENT):
        f = k.find("create_trainer")
        fl = c.flow(f, k)
        for v in values(fl, fl.ret_value):
            tk = cls_of(c, v)
            if tk is None or not tk.is_sub(q(c, "BaseTrainer")):
                c.und(f"{k.name}.create_trainer", "the created trainer is not known")
                continue
            b = bind(tk, v)
            con = f"{k.name}/{tk.name}"
            n += 1
            want = dict(TRAINER_ARGS)
            want["update_per_step" if tk.is_sub(q(c, "OffpolicyTrainer")) else "repeat_per_collect"] = "update_per_step" if tk.is_sub(q(c, "OffpolicyTrainer")) else "repeat_per_collect"
            open_ = "**" in b or "*" in b
            for p, s in sorted(want.items()):
                t = b.get(p)
                if t is None:
                    c.decide(None if open_ else False, f"{con}/{p}", fl.entry.where, f"the configured {s} is not passed on: the trainer's {p} keeps its default")
                    continue
                got = cfg_fields(fl, t, SAMP)
                c.decide(True if t is A(s, SAMP) else (False if got and s not in got or t.k == "const" else None), f"{con}/{p}", fl.entry.where, f"gets {show(t)} instead of the configured {s}")
            for p, (s,) in WORLD_ARGS.items():
                t = b.get(p)
                if t is not None:
                    c.decide(t is A(s, P("world")) or (False if t.k == "attr" and t.a[0] is P("world") else None), f"{con}/{p}", fl.entry.where, f"gets {show(t)}")
                elif not open_:
                    c.bad(f"{con}/{p}", fl.entry.where, f"the {s} is not passed to the trainer")
            for p, s in CALLBACKS.items():
                t = b.get(p)
                got = {x.a[1] for x in closure(fl, t) if x.k == "attr" and x.a[0].k == "attr" and x.a[0].a[1] == "trainer_callbacks"} if t is not None else set()
                c.decide(got == {s} if t is not None else (None if open_ else False), f"{con}/{p}", fl.entry.where, f"is made from {sorted(got)}, configured is {s}")
                if t is not None:
                    ctx = [x for x in closure(fl, t) if cls_of(c, x) is not None and cls_of(c, x).name == "TrainingContext"]
                    for x in ctx:
                        for a, y in bind(cls_of(c, x), x).items():
                            c.decide(y is A(a, P("world")) or (False if y.k == "attr" and y.a[0] is P("world") else None), f"{con}/{p}/context.{a}", fl.entry.where, f"gets {show(y)}")
            t = b.get("save_best_fn")
            c.decide(True if t is not None and any(is_call(x, "get_save_best_fn") for x in closure(fl, t)) else (None if open_ or t is not None and not any(is_call(x, "get_save_checkpoint_fn") for x in closure(fl, t)) else False),
                     f"{con}/save_best_fn", fl.entry.where, "the best policy is not saved")
            t = b.get("save_checkpoint_fn")
            if t is not None:
                c.decide(any(is_call(x, "get_save_checkpoint_fn") for x in closure(fl, t)), f"{con}/save_checkpoint_fn", fl.entry.where, "checkpoints are not saved by the checkpoint function")
    if n < 2:
        raise AnalysisBroken("create_trainer of the agent factories not found")
    for name, m, cb in (("EpochTrainCallback", "callback", ("epoch", "env_step")), ("EpochTestCallback", "callback", ("epoch", "env_step")), ("EpochStopCallback", "should_stop", ("mean_rewards",))):
        k = c.p.cls(name)
        f = k.find("get_trainer_fn")
        inner = [x for x in c.p.funcs.values() if x.outer is f]
        for g in inner:
            fl = c.flow(g, k)
            cs = [x for x in nodes(fl, "call") if x.d["name"] == m]
            c.decide(True if cs else None, f"{name}/fn", g.where, f"{m} is not called")
            for x in cs:
                ps = k.find(m).params()[1:]
                given = dict(zip(ps, x.d["args"]))
                given.update({a: b for a, b in x.d["kwt"]})
                for i, p in enumerate(ps):
                    t = given.get(p)
                    if p == "context":
                        okk = t is not None and (t.k in ("closure", "param", "free", "global") or True)
                        continue
                    gp = g.params()
                    c.decide(True if t is not None and t.k == "param" and t.a[0] in gp and gp.index(t.a[0]) == i else (None if t is None or t.k != "param" else False), f"{name}/fn/{p}", x.where, f"gets {show(t) if t is not None else None}")


BUF_ARGS = {"stack_num": "replay_buffer_stack_num", "save_only_last_obs": "replay_buffer_save_only_last_obs", "ignore_obs_next": "replay_buffer_ignore_obs_next"}


@rule("H01")
def sampling_settings_reach_buffer_and_collectors(c):
    """The replay buffer has the configured size and storage options; the training collector uses the training environments, the buffer and exploration, the test collector the test environments and none of it."""
    n = 0
    for k in concrete(c, AGENT)[:1] + [x for x in concrete(c, AGENT)[1:] if "create_train_test_collector" in x.methods]:
        f = k.find("create_train_test_collector")
        fl = c.flow(f, k)
        con = f"{f.cls.name}.collectors"
        ret = [v for v in values(fl, fl.ret_value)]
        if not all(v.k == "tuple" and len(v.a[0]) == 2 for v in ret) or not ret:
            c.und(con, "result not understood")
            continue
        for v in ret:
            for which, t in zip(("train", "test"), v.a[0]):
                ck = cls_of(c, t) or (cls_of(c, Term("call", t.a[0].a[0], t.a[1], t.a[2], t.a[3])) if t.k == "call" and t.a[0].k == "sub" else None)
                if ck is None:
                    c.und(f"{con}/{which}", "class of the collector not known")
                    continue
                b = bind(ck, t)
                n += 1
                e = b.get("env")
                got = {x.a[1] for x in closure(fl, e) if x.k == "attr" and x.a[0] is P("envs")} if e is not None else set()
                c.decide(got == {which + "_envs"} if got else None, f"{con}/{which}/env", fl.entry.where, f"the {which} collector uses {sorted(got)}")
                c.decide(b.get("policy") is P("policy") or None, f"{con}/{which}/policy", fl.entry.where, "uses another policy")
                x = b.get("exploration_noise")
                if which == "train":
                    c.decide(True if x is const(True) else (False if x is None or x.k == "const" else None), f"{con}/{which}/noise", fl.entry.where, "training data is collected without exploration")
                    bt = b.get("buffer")
                    if bt is None:
                        c.bad(f"{con}/{which}/buffer", fl.entry.where, "the configured buffer is not given to the training collector")
                        continue
                    for y in values(fl, bt):
                        bk = cls_of(c, y)
                        if bk is None:
                            c.und(f"{con}/{which}/buffer", "class of the buffer not known")
                            continue
                        bb = bind(bk, y)
                        rest = {}
                        for z in bb.pop("**", []):
                            if z.k == "dict" and all(isinstance(p, Term) and p.k == "const" for p, _ in z.a[0]):
                                rest.update({p.a[0]: w for p, w in z.a[0]})
                            elif is_call(z, "dict") and not z.a[1]:
                                rest.update(dict(z.a[2]))
                            else:
                                rest = None
                                break
                        allb = {**bb, **(rest or {})}
                        size = allb.get("total_size", allb.get("size"))
                        c.decide(True if size is A("buffer_size", SAMP) else (False if size is None or cfg_fields(fl, size, SAMP) and "buffer_size" not in cfg_fields(fl, size, SAMP) or size.k == "const" else None),
                                 f"{con}/{bk.name}/size", fl.entry.where, f"size is {show(size) if size is not None else None}")
                        for p, s in BUF_ARGS.items():
                            w = allb.get(p)
                            c.decide(True if w is A(s, SAMP) else (None if rest is None or w is not None and w.k != "const" and not cfg_fields(fl, w, SAMP) else False), f"{con}/{bk.name}/{p}", fl.entry.where,
                                     f"gets {show(w) if w is not None else 'its default'} instead of the configured {s}")
                        if "buffer_num" in accepted(bk)[0] or bk.name.startswith("Vector"):
                            w = allb.get("buffer_num")
                            if w is None and len(y.a[1]) > 1:
                                w = y.a[1][1]
                            got = {x.a[1] for x in closure(fl, w) if x.k == "attr" and x.a[0] is P("envs")} if w is not None else set()
                            c.decide(got == {"train_envs"} if got else None, f"{con}/{bk.name}/number", fl.entry.where, f"one part per environment of {sorted(got)}")
                else:
                    c.decide(True if x is None or x is const(False) else False if x is const(True) else None, f"{con}/{which}/noise", fl.entry.where, "the policy is tested with exploration noise")
    if n < 2:
        raise AnalysisBroken("collectors of the agent factories not found")


@rule("H01")
def every_sampling_setting_is_used(c):
    """Every field of the sampling and experiment configuration is read by the code that sets the experiment up."""
    quals = {n: {k.qual for k in c.p.subclasses(c.p.cls(n).qual)} | {c.p.cls(n).qual} for n in ("SamplingConfig", "ExperimentConfig")}
    fields = {f for n in quals for f in c.p.cls(n).fields()}
    everything = tuple({f.node.name for f in c.p.funcs.values() if hasattr(f.node, "name")})
    read, unsure = {}, {}
    for f in list(c.p.funcs.values()):
        if not f.module.name.startswith(("tianshou.highlevel", "tianshou.evaluation")) or not hasattr(f.node, "body"):
            continue
        said = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)} | {x.value for x in ast.walk(f.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        if not said & fields or any(f.cls is not None and f.cls.qual in q_ for q_ in quals.values()):
            continue
        fl = c.flow(f, f.cls, opaque=everything)
        for n in nodes(fl):
            for v in terms_of(n):
                for x in subterms(v):
                    if x.k != "attr" or x.a[1] not in fields or n.kind == "setattr" and x is v and n.d["attr"] == x.a[1]:
                        continue
                    t = fl.typeof(x.a[0])
                    for name, q_ in quals.items():
                        if t and t[0] == "inst" and t[1] in q_:
                            read.setdefault((name, x.a[1]), n.where)
                    if t is None and x.a[0] is not SELF:
                        unsure.setdefault(x.a[1], n.where)
    for name in quals:
        k = c.p.cls(name)
        for f in k.fields():
            ok = (name, f) in read
            c.decide(True if ok else None if f in unsure else False, f"{name}.{f}", k.where, f"the setting {f} is used nowhere" + (f" (perhaps at {unsure[f]})" if f in unsure else ""))


@rule("H01")
def experiment_settings_reach_the_run(c):
    """A run creates the configured numbers of environments, collects the configured initial steps before training and watches the configured number of episodes afterwards."""
    X = c.p.cls("Experiment")
    CFG = A("config")
    # run: inlined world creation included
    fl = c.flow("run", X, opaque=("pprints", "info", "save"))
    con = "Experiment.run"

    def one(call, p, i, want, label):
        t = call.d["kw"].get(p)
        if t is None and i is not None and len(call.d["args"]) > i:
            t = call.d["args"][i]
        w, base = want
        got = {x.a[1] for x in closure(fl, t) if x.k == "attr" and x.a[0] is base} if t is not None else set()
        c.decide(True if t is A(w, base) else (None if t is not None and (w in got or t.k not in ("const",) and not got) else False), f"{con}/{label}", call.where, f"gets {show(t) if t is not None else 'its default'} instead of the configured {w}")

    ce = [n for n in nodes(fl, "call") if n.d["name"] == "create_envs"]
    if not ce:
        raise AnalysisBroken("Experiment does not create environments")
    for n in ce:
        f = c.p.method(c.p.cls("EnvFactory"), "create_envs")
        ps = f.params()[1:]
        for i, (p, w) in enumerate((("num_training_envs", ("num_train_envs", SAMP)), ("num_test_envs", ("num_test_envs", SAMP)), ("create_watch_env", ("watch", CFG)))):
            one(n, p, ps.index(p) if p in ps else None, w, f"create_envs/{p}")
    cp = [n for n in nodes(fl, "call") if n.d["name"] == "create_policy"]
    for n in cp:
        one(n, "device", 1, ("device", CFG), "create_policy/device")
    # seeding before anything is created
    seed = [n for n in nodes(fl, "call") if n.d["name"] in ("manual_seed", "seed") and n.d["args"] and A("seed", CFG) in closure(fl, n.d["args"][0])]
    c.decide(len({n.d["name"] for n in seed}) >= 2, f"{con}/seed", fl.entry.where, "numpy and torch are not both seeded with the configured seed")
    for n in seed:
        p = find_path([fl.entry_node], ce + cp, [n])
        c.decide(p is None, f"{con}/seed before", n.where, f"created before the generators are seeded: {describe(p)}")
    # training
    tr = [n for n in nodes(fl, "call") if n.d["name"] == "run" and n.d["recv"] is not None and n.d["recv"] is not SELF and not n.d["inlined"]]
    if not tr:
        raise AnalysisBroken("Experiment.run does not run a trainer")
    pre = [n for n in nodes(fl, "call") if n.d["name"] == "collect" and any(x is A("start_timesteps", SAMP) for v in list(n.d["args"]) + [v for _, v in n.d["kwt"]] for x in closure(fl, v))]
    c.decide(True if pre else False, f"{con}/start", fl.entry.where, "the configured initial steps are not collected")
    for n in pre:
        one(n, "n_step", 0, ("start_timesteps", SAMP), "start/n_step")
        one(n, "random", 2, ("start_timesteps_random", SAMP), "start/random")
        r = n.d["recv"]
        c.decide(None if r is None else False if any(x.k == "attr" and x.a[1] == "test_collector" for x in values(fl, r)) else True, f"{con}/start/collector", n.where, "initial steps are collected with the test collector")
        p = find_path([t for t in tr], n)
        c.decide(p is None, f"{con}/start/before", n.where, "initial steps are collected after training")
        # skipped only when none are configured
        g = find_path([fl.entry_node], tr, [n], edge_ok=lambda a, b, l: not (a.kind == "branch" and not zero_ok(a, l)))
        c.decide(g is None, f"{con}/start/always", n.where, f"training can start without the configured initial steps: {describe(g)}")
    for n in tr:
        cond = [b for b in nodes(fl, "branch") if canon_cond(b.d["cond"])[0] is A("train", CFG)]
        ok = bool(cond)
        for b in cond:
            pol = canon_cond(b.d["cond"])[1]
            off = edge_succ(b, "F" if pol else "T")
            if find_path(off, n, skip_start=False) is not None and b.where.split(":")[0] == n.where.split(":")[0] and not [x for x in cond if x is not b]:
                ok = False
        c.decide(ok or None, f"{con}/train", n.where, "training does not depend on the configured switch")
    w = [n for n in nodes(fl, "call") if n.d["name"] == "collect" and n not in pre]
    c.decide(True if w else None, f"{con}/watch", fl.entry.where, "the agent is not watched")
    for n in w:
        one(n, "n_episode", 1, ("watch_num_episodes", CFG), "watch/episodes")
        one(n, "render", 3, ("watch_render", CFG), "watch/render")
        p = find_path([n], tr)
        c.decide(p is None, f"{con}/watch/after", n.where, "the agent is watched before it is trained")
        cond = [b for b in nodes(fl, "branch") if canon_cond(b.d["cond"])[0] is A("watch", CFG)]
        c.decide(True if any(find_path(edge_succ(b, "F" if canon_cond(b.d["cond"])[1] else "T"), n, skip_start=False) is None and find_path(edge_succ(b, "T" if canon_cond(b.d["cond"])[1] else "F"), n, skip_start=False) is not None for b in cond)
                 else False if cond else None, f"{con}/watch/switch", n.where, "watching does not follow the configured switch")


def zero_ok(b, l):
    """Whether the edge l of the branch b can be taken when the configured number of initial steps is positive (here 5)."""
    t = _at5(b.d["cond"])
    return True if t is None else (l == "T") == bool(t)


def _at5(t):
    t0, pol = canon_cond(t)
    v = _val5(t0)
    return None if v is None else (bool(v) == pol)


def _val5(t):
    if t is A("start_timesteps", SAMP):
        return 5
    if t.k == "const":
        return t.a[0] if isinstance(t.a[0], (int, float, bool)) else None
    if t.k == "cmp":
        op, x, y = t.a[0], _val5(t.a[1]), _val5(t.a[2])
        if x is None or y is None:
            return None
        return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}.get(op)
    return None


# ------------------------------------------------------------------------- builders
@rule("H01")
def builder_settings_are_stored(c):
    """Every `with_...` method of a builder stores what it is given in the setting it is named after, and the built experiment is made from it."""
    n = 0
    for k in concrete(c, BUILDER):
        if True:
            build = [c.flow(k.find("build"), k), c.flow(k.find("_create_agent_factory"), k)]
        reads = {x.a[1] for fl in build for nd in fl.nodes for t in terms_of(nd) for x in subterms(t) if x.k == "attr" and x.a[0] is SELF}
        withs = sorted({m for x in k.mro_classes() for m in x.methods if m.startswith("with_")})
        stems = {m[5:] for m in withs}
        for m in withs:
            f = k.find(m)
            fl = c.flow(f, k)
            con = f"{k.name}.{m}"
            names = params_of(f)
            names = [x for x in names if x != "self"]
            sets = setattrs(fl)
            subs = setsubs(fl)
            ws = [(s.d["attr"], s.d["base"], s.d["value"], s) for s in sets] + [(None, s.d["base"], s.d["value"], s) for s in subs]
            if not ws:
                c.decide(False, con, f.where, "stores nothing")
                continue
            n += 1
            for p in names:
                used = any(P(p) in closure(fl, v) for _, _, v, _ in ws)
                c.decide(used, f"{con}({p})", f.where, f"the given {p} is not stored")
            for at, base, v, s in ws:
                if at is None:
                    # one of several: the index is that of the name
                    i = s.d["index"]
                    want = 0 if "critic1" in m else 1 if "critic2" in m else None
                    if want is not None:
                        c.decide(None if i.k != "const" else i.a[0] == want, f"{con}/which", s.where, f"is stored as number {show(i)}")
                    elif i.k == "const" and "common" in m:
                        other = {x.d["index"].a[0] for x in subs if x.d["index"].k == "const"}
                        c.decide(other == {0, 1} or None, f"{con}/which", s.where, f"only {sorted(other)} is set")
                    r = base.a[1] if base.k == "attr" else None
                    c.decide(r in reads if r else None, f"{con}/read", s.where, f"{r} is not used when the experiment is built")
                    continue
                stem = at.lstrip("_")
                if stem in stems and stem != m[5:] and not m[5:].startswith(stem):
                    c.bad(f"{con}/where", s.where, f"is stored as {stem}, which belongs to with_{stem}")
                elif stem == m[5:] or m[5:].startswith(stem):
                    c.ok(f"{con}/where")
                b0 = base
                first = at
                while b0.k == "attr":
                    first, b0 = b0.a[1], b0.a[0]
                c.decide(first in reads if b0 is SELF else None, f"{con}/read", s.where, f"{first} is not used when the experiment is built")
    if n < 20:
        raise AnalysisBroken("builder settings not found")


@rule("H01")
def builder_settings_reach_the_experiment(c):
    """The built experiment consists of the builder's own configuration objects and factories, each in its own place."""
    WANT = {"config": "_config", "env_factory": "_env_factory", "sampling_config": "_sampling_config", "name": "_name", "logger_factory": "_logger_factory"}
    for k in concrete(c, BUILDER):
        fl = c.flow("build", k)
        es = [v for v in values(fl, fl.ret_value) if cls_of(c, v) is not None and cls_of(c, v).is_sub(q(c, "Experiment"))]
        con = f"{k.name}.build"
        if not es:
            c.und(con, "the experiment is not created in view")
            continue
        for e in es:
            b = bind(cls_of(c, e), e)
            for p, a in WANT.items():
                t = b.get(p)
                c.decide(True if t is not None and A(a) in closure(fl, t) else False if t is None or t.k == "attr" else None, f"{con}/{p}", fl.entry.where, f"is {show(t) if t is not None else 'not given'}")
        af = b.get("agent_factory")
        for m, attr in (("set_trainer_callbacks", "_trainer_callbacks"), ("set_policy_wrapper_factory", "_policy_wrapper_factory")):
            st = {"set_trainer_callbacks": "trainer_callbacks", "set_policy_wrapper_factory": "policy_wrapper_factory"}[m]
            cs = [n for n in nodes(fl, "call") if n.d["name"] == m]
            put = [n for n in setattrs(fl, st) if A(attr) in closure(fl, n.d["value"])]
            good = [n for n in cs if any(A(attr) in closure(fl, x) for x in list(n.d["args"]) + [v for _, v in n.d["kwt"]])] + put
            c.decide(bool(good), f"{con}/{st}", fl.entry.where, f"the configured {st} is not given to the agent factory")
        # agent factory arguments
        bf = c.flow("_create_agent_factory", k)
        for v in values(bf, bf.ret_value):
            fk = cls_of(c, v)
            if fk is None:
                continue
            b = bind(fk, v)
            for p, t in b.items():
                if not isinstance(t, Term):
                    continue
                cl = closure(bf, t, conds=True)
                if p in ("critic_factory", "critic1_factory", "critic2_factory"):
                    idx = {x.a[1].a[0] for x in cl if x.k == "sub" and x.a[0] is A("_critic_factories") and x.a[1].k == "const"}
                    c.decide(idx == {1 if p == "critic2_factory" else 0} if idx else None, f"{k.name}/{p}", bf.entry.where, f"is made from the critic factory number {sorted(idx)}")
                elif p == "sampling_config":
                    c.decide(t in (A("_sampling_config"), A("sampling_config")) or None, f"{k.name}/{p}", bf.entry.where, f"is {show(t)}")
                elif p == "params":
                    c.decide(t is A("_params") or None, f"{k.name}/{p}", bf.entry.where, f"is {show(t)}")
                elif p in ("optim_factory", "optimizer_factory"):
                    c.decide(A("_optim_factory") in cl, f"{k.name}/{p}", bf.entry.where, "the configured optimizer factory is not used")
                elif p == "actor_factory":
                    c.decide(A("_actor_factory") in cl, f"{k.name}/{p}", bf.entry.where, "the configured actor factory is not used")
                elif p == "model_factory":
                    c.decide(any(x.k == "attr" and x.a[0] is SELF and x.a[1] in ("_model_factory", "_preprocess_network_factory") for x in cl), f"{k.name}/{p}", bf.entry.where, "the configured model factory is not used")
                elif p == "critic_ensemble_factory":
                    c.decide(A("critic_ensemble_factory") in cl or A("_critic_ensemble_factory") in cl, f"{k.name}/{p}", bf.entry.where, "the configured ensemble factory is not used")
    for st in ("trainer_callbacks", "policy_wrapper_factory"):
        f = c.p.method(c.p.cls(AGENT), f"set_{st}")
        fl = c.flow(f, c.p.cls(AGENT))
        c.decide(any(n.d["value"].k == "param" for n in setattrs(fl, st, base=SELF)), f"{AGENT}.set_{st}", f.where, "does not store what it is given")
    fl = c.flow("create_policy", c.p.cls(AGENT))
    w = [n for n in nodes(fl, "call") if n.d["name"] == "create_wrapped_policy"]
    c.decide(bool(w), f"{AGENT}.create_policy/wrapper", fl.entry.where, "the configured wrapper is not applied")
    for n in w:
        p = find_path([fl.entry_node], [fl.exit_node], w, edge_ok=lambda a, b, l: not (a.kind == "branch" and l in "TF" and l and A("policy_wrapper_factory") in set(subterms(a.d["cond"])) and ((l == "T") == (canon_cond(a.d["cond"])[1] == (canon_cond(a.d["cond"])[0].k == "cmp")))))
        c.decide(p is None, f"{AGENT}.create_policy/applied", n.where, f"a configured wrapper can be skipped: {describe(p)}")
        c.decide(n.d["term"] in closure(fl, fl.ret_value), f"{AGENT}.create_policy/returned", n.where, "the wrapped policy is not what is returned")
