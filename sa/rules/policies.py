"""Policies: updates, target networks, return targets, exploration, wrappers, action mapping, randomness."""
from __future__ import annotations

import ast

from ..alias import Alias
from ..core import rule
from ..flow import FALSE, NONE, TRUE, Term, canon_cond, children, const, dotted, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import Poly, arg, calls, closure, describe, find_path, guards, nodes, poly, reachable, setattrs, setsubs, skey, strip, values
from .util import A, P, SELF, both, cut, edge_succ, find_branch, iter_heads, loop_of, rat, rat_eq

BASE = "BasePolicy"
OPQ = ("to_torch", "to_torch_as", "to_numpy", "from_sequence", "split", "pop", "to_optional_float", "cat", "sample", "from_sequences", "__getitem__", "__len__",
       "compute_nstep_return", "compute_episodic_return")
NOGRAD = ("torch.no_grad", "torch.inference_mode")


def policies(p):
    """Concrete policy classes of the library (most derived methods included by resolution)."""
    b = p.cls(BASE)
    return [k for k in sorted(p.subclasses(b.qual), key=lambda k: k.qual)]


def alts(t):
    if t is None:
        return []
    return [v for x in t.a[0] for v in alts(x)] if t.k == "phi" else [t]


def self_attr(t):
    return t.a[1] if t is not None and t.k == "attr" and t.a[0] is SELF else None


def own(k, m):
    """The class defining method m for k, when it is a library class below nn.Module."""
    f = k.find(m)
    return f


def learns(c):
    """(class, flow of learn) for each policy with its own learning routine."""
    out, seen = [], set()
    for k in policies(c.p):
        f = k.find("learn")
        if f is None or f.cls is None or f.cls.name == BASE:
            continue
        out.append((k, c.flow(f, k, opaque=OPQ)))
    return out


# --------------------------------------------------------------------------------- gradient closure
STOPS = ("detach", "item", "numpy", "to_numpy", "tolist", "argmax", "le", "lt", "ge", "gt", "eq", "ne", "max_indices", "sign", "isfinite")


def grad_stop(fl):
    """Predicate: the gradient does not flow through this term."""
    t2n = getattr(fl, "_t2n", None)
    if t2n is None:
        t2n = {n.d["term"]: n for n in nodes(fl, "call") if n.d.get("term") is not None}
        fl._t2n = t2n

    def stop(t):
        if t.k == "call":
            f = t.a[0]
            nm = f.a[1] if f.k == "attr" else (f.a[0].rsplit(".", 1)[-1] if f.k == "global" else "")
            if nm in STOPS:
                return True
            n = t2n.get(t)
            return n is not None and bool(set(n.ctx or ()) & set(NOGRAD))
        return t.k == "cmp" or t.k == "attr" and t.a[1] in ("data", "shape", "device", "dtype")
    return stop


def gclosure(fl, t):
    s = grad_stop(fl)
    return {x for x in closure(fl, t, stop=s) if not s(x)}


def forward_modules(c, k):
    """Attributes of self whose networks the policy's own forward evaluates."""
    f = k.find("forward")
    fl = c.flow(f, k, opaque=OPQ)
    out = set()
    for n in nodes(fl, "call"):
        for x in subterms(n.d["term"]):
            a = self_attr(x)
            if a:
                out.add(a)
        if n.d["name"] == "getattr" and n.d["args"] and n.d["args"][0] is SELF:
            nm = n.d["args"][1]
            for q in alts(nm):
                if q.k == "const":
                    out.add(q.a[0])
                elif q.k == "param":
                    d = f.defaults().get(q.a[0]) if hasattr(f, "defaults") else None
                    if d is not None and isinstance(d, ast.Constant):
                        out.add(d.value)
    # defaults of string parameters select a network by name
    a = f.node.args
    for p_, d in list(zip(reversed(a.args), reversed(a.defaults))) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
        if isinstance(d, ast.Constant) and isinstance(d.value, str):
            out.add(d.value)
    return out


def is_opt(t):
    a = t.a[1] if t is not None and t.k == "attr" else (t.a[0] if t is not None and t.k == "param" else "")
    return isinstance(a, str) and opt_name(a)


def opt_name(a):
    return a.endswith(("optim", "optimizer", "optimiser"))


def prefix(t):
    a = t.a[1] if t.k == "attr" else t.a[0]
    return a.replace("_optimizer", "").replace("_optim", "").replace("optimizer", "").replace("optim", "").strip("_")


def trained_by(mods, t):
    """Attribute names of the parameters an optimiser is responsible for, by its name; None when unnamed."""
    p = prefix(t)
    if not p:
        return None
    if "log_" + p in mods:
        return {"log_" + p}
    c = {m for m in mods if m == p or m.replace("log_", "").strip("_") == p.strip("_") or m in (p + "_net", p + "_model", p + "_module")}
    return c or None


def touches(fl, loss, names, fwd):
    """Does the gradient of `loss` reach any of self's attributes `names`?"""
    for x in gclosure(fl, loss):
        a = self_attr(x)
        if a in names:
            return True
        if x.k == "call" and (x.a[0] is SELF or x.a[0].k == "attr" and x.a[0].a[0] is SELF and x.a[0].a[1] == "forward") and names & fwd:
            return True
    return False


@rule("P05")
def optimiser_steps(c):
    """Every optimiser step is preceded, since that optimiser's last step, by clearing its gradients and then back-propagating a loss that reaches its parameters (and no loss meant for another optimiser in between)."""
    n_steps = 0
    for k, fl in learns(c):
        fwd = forward_modules(c, k)
        mods = {self_attr(x) for n in nodes(fl, "call") for x in subterms(n.d["term"]) if self_attr(x)} | fwd
        steps = [n for n in calls(fl, "step") if is_opt(n.d["recv"])]
        backs = [n for n in calls(fl, "backward") if n.d["recv"] is not None]
        zeros = [n for n in calls(fl, "zero_grad") if n.d["recv"] is not None]
        opts = []
        for s in steps:
            if s.d["recv"] not in opts:
                opts.append(s.d["recv"])
        win = {}
        for r in opts:
            mine = [s for s in steps if s.d["recv"] is r]
            Z = [z for z in zeros if z.d["recv"] is r or z.d["recv"] is SELF]
            names = trained_by(mods, r)
            good = [b for b in backs if names is None or touches(fl, b.d["recv"], names, fwd)]
            for s in mine:
                n_steps += 1
                con = f"{k.name}.learn/{show(r)}"
                p = find_path([fl.entry_node, *mine], s, Z)
                maybe = [z for z in zeros if z not in Z and not is_opt(z.d["recv"])]
                if p is not None and maybe and find_path([fl.entry_node, *mine], s, Z + maybe) is None:
                    c.und(con + "/cleared", "gradients are cleared through a module")
                else:
                    c.decide(p is None, con + "/cleared", s.where, f"the step uses gradients left over from earlier: {describe(p)}")
                p = find_path(Z or [fl.entry_node], s, backs)
                c.decide(p is None, con + "/loss", s.where, f"no loss is back-propagated between clearing and the step: {describe(p)}")
                if p is None and backs:
                    p = find_path(Z or [fl.entry_node], s, good)
                    c.decide(p is None, con + "/own loss", s.where, f"the loss back-propagated before the step does not reach {sorted(names or [])}: {describe(p)}")
                win[s] = (names, good, Z)
        # a loss meant for one optimiser must not add to the gradients another one is about to apply
        for s, (names, good, Z) in win.items():
            if not names or not Z:
                continue
            inside = [b for b in good if any(find_path([z], b, [x for x in steps if x.d["recv"] is s.d["recv"]]) for z in Z)
                      and find_path([b], s, Z) is not None]
            for b in inside:
                others = [t for t, (nm, gd, zz) in win.items() if t.d["recv"] is not s.d["recv"] and nm and nm != names and b in gd
                          ]
                # b trains another optimiser too: which of the two is it for?  its own window is the one without a purer loss
                purer = [x for x in inside if x is not b and not any(x in gd for t, (nm, gd, zz) in win.items() if t.d["recv"] is not s.d["recv"] and nm and nm != names)]
                if others and purer:
                    c.bad(f"{k.name}.learn/{show(s.d['recv'])}/pure", s.where, f"the step also applies the gradient of {show(b.d['recv'])} meant for {show(others[0].d['recv'])}")
            c.ok(f"{k.name}.learn/{show(s.d['recv'])}/pure")
        for b in backs:
            p = find_path([b], [fl.exit_node], steps)
            c.decide(p is None, f"{k.name}.learn/applied", b.where, f"a back-propagated loss is never applied: {describe(p)}")
    if n_steps < 20:
        raise AnalysisBroken(f"only {n_steps} optimiser steps found")


@rule("P05")
def reported_losses_are_minimised(c):
    """What a learning routine reports as a loss is a quantity it has back-propagated (alone or as part of a sum) or differentiated."""
    tot = 0
    for k, fl in learns(c):
        diff = [n.d["recv"] for n in calls(fl, "backward")]
        for n in nodes(fl, "call"):
            if n.d["name"] in ("grad", "_get_flat_grad") and n.d["args"]:
                diff.append(n.d["args"][0])
        used = set()
        for d in diff:
            used |= gclosure(fl, d)
        for n in nodes(fl, "call"):
            if not n.d["name"].endswith("Stats") and n.d["name"] != "from_sequences":
                continue
            for a, v in n.d["kw"].items():
                if not (a.endswith("loss") or a.endswith("losses")):
                    continue
                for w in values(fl, v):
                    if w.k in ("bin", "un", "call"):
                        c.decide(w not in used, f"{k.name}.learn/{a}/number", n.where, f"{a} is reported as a tensor with its graph, not as a number: statistics cannot average it")
                for w in reported(fl, v):
                    tot += 1
                    core_ = strip(w, "item", "float", "detach", "to_optional_float", "cpu")
                    parts = [core_]
                    while any(x.k == "bin" and x.a[0] in "+-" for x in parts):
                        parts = [y for x in parts for y in ((strip(x.a[1], "item"), strip(x.a[2], "item")) if x.k == "bin" and x.a[0] in "+-" else (x,))]
                    for q in parts:
                        q = strip(q, "item", "float", "detach", "to_optional_float")
                        if q.k in ("const", "attr", "param", "global", "undef"):
                            continue
                        c.decide(q in used or core_ in used, f"{k.name}.learn/{a}", n.where, f"the reported {a} = {show(q)} is never back-propagated")
    if tot < 25:
        raise AnalysisBroken(f"only {tot} reported losses found")


def reported(fl, v, depth=0):
    """Loss values behind a reported statistic (elements of summarised lists included)."""
    out = []
    for w in values(fl, v):
        if is_call(w, "from_sequence", "mean", "sum", "to_optional_float", "float", "item") and depth < 4:
            ops = list(w.a[1]) or ([w.a[0].a[0]] if w.a[0].k == "attr" else [])
            if is_call(w, "mean", "sum") and w.a[0].k == "attr":
                out.append(w)
                continue
            for o in ops:
                out += reported(fl, o, depth + 1)
            if w.a[0].k == "attr" and is_call(w, "item"):
                out += reported(fl, w.a[0].a[0], depth + 1)
        elif w.k == "list":
            for m in fl.mut.get(w, ()):
                out += reported(fl, m, depth + 1)
            for m in w.a[0]:
                out += reported(fl, m, depth + 1)
        else:
            out.append(w)
    return out


@rule("P05")
def optimisers_are_used(c):
    """Each optimiser a policy is given is stepped by its learning routine."""
    tot = 0
    for k, fl in learns(c):
        f = k.find("__init__")
        if f is None:
            continue
        given = {}
        init = c.flow(f, k, opaque=("deepcopy", "clone_optimizer", "_compile"))
        for n in setattrs(init, base=SELF):
            if opt_name(n.d["attr"]):
                given[n.d["attr"]] = n
        used = {self_attr(n.d["recv"]) for n in calls(fl, "step")}
        passed = {self_attr(x) for n in nodes(fl, "call") for x in list(n.d["args"]) + list(n.d["kw"].values())}
        for a, n in given.items():
            tot += 1
            # an optimiser handed to a helper that could not be followed is not judged
            c.decide(True if a in used else (None if a in passed else False), f"{k.name}/{a}", n.where, f"self.{a} is never stepped in learn")
    if tot < 15:
        raise AnalysisBroken("optimiser attributes not found")


@rule("P05")
def clipping_between_backward_and_step(c):
    """Gradient clipping lies between the back-propagation and the step it limits."""
    tot = 0
    for k, fl in learns(c):
        steps = [n for n in calls(fl, "step") if is_opt(n.d["recv"])]
        backs = calls(fl, "backward")
        zeros = calls(fl, "zero_grad")
        mods = {self_attr(x) for n in nodes(fl, "call") for x in subterms(n.d["term"]) if self_attr(x)}
        fwd = forward_modules(c, k)
        clipped = set()
        cl = calls(fl, "clip_grad_norm_", "clip_grad_value_", "clip_grad_norm")
        # twin networks are treated alike
        by = {}
        for s in steps:
            t = trained_by(mods, s.d["recv"])
            for m in t or ():
                by.setdefault(m, []).append(s)
        whose = {self_attr(x) for n in cl if n.d["args"] for x in subterms(n.d["args"][0]) if self_attr(x)}
        for m in by:
            if m + "2" in by and (m in whose or m + "2" in whose):
                c.decide(m in whose and m + "2" in whose, f"{k.name}.learn/clip twins", by[m][0].where, f"gradients of only one of {m}, {m}2 are clipped")
        for n in calls(fl, "clip_grad_norm_", "clip_grad_value_", "clip_grad_norm"):
            tot += 1
            clipped.add(n)
            con = f"{k.name}.learn/clip"
            who = {self_attr(x) for x in subterms(n.d["args"][0]) if self_attr(x)} if n.d["args"] else set()
            mine = [s for s in steps if trained_by(mods, s.d["recv"]) and trained_by(mods, s.d["recv"]) & who] or ([] if any(trained_by(mods, s.d["recv"]) for s in steps) and len({s.d["recv"] for s in steps}) > 1 else steps)
            if not mine:
                c.und(con, f"step limited by {show(n.d['term'])}")
                continue
            r = {s.d["recv"] for s in mine}
            Z = [z for z in zeros if z.d["recv"] in r]
            names = set().union(*[trained_by(mods, x) or set() for x in r])
            good = [b for b in backs if not names or touches(fl, b.d["recv"], names, fwd)] or backs
            p = find_path(Z or [fl.entry_node], n, good)
            c.decide(p is None, con + "/after backward", n.where, f"gradients are clipped before they are computed: {describe(p)}")
            p = find_path([n], [fl.exit_node, *good], mine)
            c.decide(p is None, con + "/before step", n.where, f"clipped gradients are not what is applied: {describe(p)}")
            own_step = [s for s in mine if find_path(Z or [fl.entry_node], s, [n]) is not None]
            for s in own_step:
                # a step that can avoid the clip must do so because clipping is switched off
                g = guards(fl, n)
                c.decide(True if g else False, con + "/always", s.where, "a step can be taken without the configured clipping")
    if tot < 3:
        raise AnalysisBroken("gradient clipping not found")


# ------------------------------------------------------------------------------- P02
INIT_OPQ = ("deepcopy", "clone_optimizer", "_compile")


def init_flow(c, k):
    f = k.find("__init__")
    return c.flow(f, k, opaque=INIT_OPQ)


def is_copy(t):
    return is_call(t, "deepcopy") and len(t.a[1]) == 1


def copied(v):
    """The copy behind calls that return their receiver (`deepcopy(net).eval()`)."""
    while v.k == "call" and is_call(v, "eval", "to", "requires_grad_", "train", "cpu", "cuda") and v.a[0].k == "attr":
        v = v.a[0].a[0]
    return v


def targets(c, k):
    """Target attribute -> (online attribute or None, assignment node, init flow)."""
    fl = init_flow(c, k)
    sets = setattrs(fl, base=SELF)
    out = {}
    for n in sets:
        v = copied(n.d["value"])
        if not is_copy(v):
            continue
        src = v.a[1][0]
        cand = [m.d["attr"] for m in sets if m.d["attr"] != n.d["attr"] and (m.d["value"] is src or same_leaf(m.d["value"], src))]
        cand += [self_attr(src)] if self_attr(src) else []
        base = n.d["attr"].replace("_old", "").replace("_target", "").replace("target_", "").replace("old_", "")
        on = base if base in cand else (cand[0] if cand else None)
        out[n.d["attr"]] = (on, n, fl)
    return out


def same_leaf(a, b):
    return a.k == "phi" and b.k == "phi" and a.a[0] == b.a[0]


def synced(fl):
    """(target term, source term, fraction term or None, node) for each weight transfer in a flow."""
    out = []
    for n in calls(fl, "soft_update"):
        a = [arg(n, 0, "tgt"), arg(n, 1, "src"), arg(n, 2, "tau")]
        out.append((*a, n))
    for n in calls(fl, "load_state_dict"):
        src = n.d["args"][0] if n.d["args"] else None
        s = src.a[0].a[0] if src is not None and src.k == "call" and is_call(src, "state_dict") and src.a[0].k == "attr" else None
        out.append((n.d["recv"], s, None, n))
    for n in calls(fl, "copy_", "lerp_"):
        r = n.d["recv"]
        b = r.a[0] if r.k == "attr" and r.a[1] == "data" else r
        if b.k == "elem":
            ow = param_owner(b)
            if ow is not None:
                out.append((ow, "formula", None, n))
    return out


def param_owner(e):
    """Module whose parameters a loop element ranges over."""
    if e.k == "elem" and is_call(e.a[0], "parameters") and e.a[0].a[0].k == "attr":
        return e.a[0].a[0].a[0]
    return None


@rule("P02")
def targets_start_as_frozen_copies(c):
    """Each target network is created as a copy of its own online network and put into evaluation mode."""
    tot = 0
    for k in policies(c.p):
        for t, (on, n, fl) in targets(c, k).items():
            tot += 1
            con = f"{k.name}/{t}"
            base = t.replace("_old", "").replace("_target", "").replace("target_", "")
            have = {m.d["attr"] for m in setattrs(fl, base=SELF)}
            c.decide(on == base if on is not None and base in have else (None if base not in have else False), con + "/copy", n.where, f"self.{t} is a copy of {show(copied(n.d['value']).a[1][0])}, not of self.{base}")
            v = copied(n.d["value"])
            ev = [m for m in calls(fl, "eval") if m.d["recv"] in (v, A(t)) or m.d["recv"] is not None and v in values(fl, m.d["recv"])]
            ev += [m for m in calls(fl, "train") if m.d["recv"] in (v, A(t)) and m.d["args"] and m.d["args"][0] is FALSE]
            chained = [m for m in ev]
            p = find_path([n], fl.exit_node, ev)
            q = find_path([fl.entry_node], n, chained) if p is not None else None
            c.decide(p is None or (bool(chained) and q is None), con + "/eval", n.where, f"self.{t} is not put into evaluation mode: {describe(p)}")
            for m in nodes(fl, "call"):
                if m.d["name"] == "clone_optimizer" or "optim" in str(m.d.get("quals") or m.d["name"]):
                    if any(x in (v, A(t)) for a in list(m.d["args"]) for x in subterms(a)) and m.d["name"] != "deepcopy":
                        c.bad(con + "/optimiser", m.where, f"an optimiser is given the parameters of self.{t}")
    if tot < 20:
        raise AnalysisBroken(f"only {tot} target networks found")


def module_attrs(c, k):
    """Attributes holding networks: set in the constructor from parameters annotated as modules (targets excluded)."""
    fl = init_flow(c, k)
    tg = targets(c, k)
    out = {on for on, _, _ in tg.values() if on}
    f = k.find("__init__")
    chain = [f]
    for b in k.mro_classes() if hasattr(k, "mro_classes") else []:
        chain.append(b)
    ann = {}
    for q in {n.stack[-1] if n.stack else None for n in nodes(fl)}:
        pass
    for a in [*f.node.args.args, *f.node.args.kwonlyargs]:
        if a.annotation is not None:
            ann[a.arg] = ast.unparse(a.annotation)
    words = ("Module", "Net", "Actor", "Critic", "VAE", "Network", "FullQuantile", "Curiosity", "BasePolicy")
    for n in setattrs(fl, base=SELF):
        for v in alts(n.d["value"]):
            v = strip(v, "cast")
            if v.k == "param" and any(w in ann.get(v.a[0], "") for w in words) and "Optimizer" not in ann[v.a[0]] and "Space" not in ann[v.a[0]]:
                out.add(n.d["attr"])
    return out - set(tg)


@rule("P02")
def mode_switches_spare_targets(c):
    """Switching a policy between training and evaluation mode switches every online network it was given and no target network."""
    tot = 0
    for k in policies(c.p):
        tg = targets(c, k)
        f = k.find("train")
        lib = f is not None and f.module.name.startswith("tianshou") if f is not None and hasattr(f, "module") else f is not None
        if not lib:
            if tg:
                tot += 1
                c.bad(f"{k.name}.train", next(iter(tg.values()))[1].where, f"{k.name} inherits torch's recursive train(), which also puts {sorted(tg)} into training mode")
            continue
        fl = c.flow(f, k)
        mode = P(fl.entry.params()[1])
        rec = [n for n in calls(fl, "train") if (n.d.get("is_super") or is_super(n.d["recv"])) and not n.d.get("inlined")]
        for t in tg:
            tot += 1
            con = f"{k.name}.train/{t}"
            direct = [n for n in calls(fl, "train") if n.d["recv"] is A(t) and not (n.d["args"] and n.d["args"][0] is FALSE)]
            ev = [n for n in calls(fl, "eval") if n.d["recv"] is A(t)] + [n for n in calls(fl, "train") if n.d["recv"] is A(t) and n.d["args"] and n.d["args"][0] is FALSE]
            p = find_path(rec + direct, fl.exit_node, ev) if rec or direct else None
            c.decide(p is None, con, (rec + direct or [fl.entry_node])[0].where, f"the target network self.{t} is put into training mode")
        if rec:
            continue
        loops = [n for n in iter_heads(fl)]
        for a in sorted(module_attrs(c, k)):
            tot += 1
            con = f"{k.name}.train/{a}"
            tr = [n for n in calls(fl, "train") if n.d["recv"] is not None and (n.d["recv"] is A(a) or A(a) in closure(fl, n.d["recv"]))]
            if not tr:
                c.decide(None if loops and any(n.d["recv"].k == "elem" for n in calls(fl, "train") if n.d["recv"] is not None) else False, con, fl.entry.where, f"self.{a} keeps its mode when the policy is switched")
                continue
            p = find_path(fl.entry_node, fl.exit_node, tr)
            c.decide(p is None, con, fl.entry.where, f"self.{a} is not switched on a path: {describe(p)}")
            for n in tr:
                v = arg(n, 0, "mode")
                c.decide(v is mode if v is not None else False, con + "/mode", n.where, f"self.{a} is switched to {show(v) if v is not None else 'training'} instead of the requested mode")
        st = setattrs(fl, "training", base=SELF)
        p = find_path(fl.entry_node, fl.exit_node, st)
        c.decide(p is None and all(s.d["value"] is mode for s in st), f"{k.name}.train/own", fl.entry.where, "the policy does not remember its own mode")
    if tot < 30:
        raise AnalysisBroken("mode switches not found")


def is_super(t):
    return t is not None and (t.k == "super" or any(x.k == "super" for x in subterms(t)))


@rule("P02")
def soft_update_formula(c):
    """soft_update(tgt, src, tau) moves every target parameter by the fraction tau towards its own source parameter."""
    k = c.p.cls(BASE)
    fl = c.flow("soft_update", k)
    ps = fl.entry.params()
    T, S, tau = P("tgt"), P("src"), P("tau")
    if not {"tgt", "src", "tau"} <= set(ps):
        T, S, tau = [P(x) for x in ps[-3:]]
    check_blend(c, fl, T, S, tau, "BasePolicy.soft_update")
    k = c.p.cls("REDQPolicy")
    f = k.find("sync_weight")
    fl = c.flow(f, k, opaque=("soft_update",))
    if not calls(fl, "soft_update"):
        check_blend(c, fl, A("critic_old"), A("critic"), A("tau"), "REDQPolicy.sync_weight")


def check_blend(c, fl, T, S, tau, con):
    def owner(t):
        t = t.a[0] if t.k == "attr" and t.a[1] == "data" else t
        return param_owner(t) if t.k == "elem" else None

    def atom(t):
        o = owner(t)
        if o is T:
            return "t"
        if o is S:
            return "s"
        if t is tau:
            return "u"
        return None
    t, s, u = Poly.x("t"), Poly.x("s"), Poly.x("u")
    want = (u * s + (Poly.c(1) - u) * t, Poly.c(1))
    tot = 0
    for n in calls(fl, "copy_"):
        if owner(n.d["recv"]) is None:
            continue
        tot += 1
        c.decide(owner(n.d["recv"]) is T, con + "/into", n.where, f"writes into the parameters of {show(owner(n.d['recv']))}")
        got = rat(n.d["args"][0], atom)
        extra = (got[0].atoms() | got[1].atoms()) - {"t", "s", "u"}
        c.decide(None if extra else rat_eq(got, want), con + "/formula", n.where, f"a target parameter becomes {show(n.d['args'][0])}")
        h = loop_of(fl, n.d["recv"].a[0] if n.d["recv"].k == "attr" else n.d["recv"])
        if h is not None:
            p = find_path(edge_succ(h, "next"), [h, fl.exit_node], [n], skip_start=False)
            c.decide(p is None, con + "/every", h.where, f"a parameter is skipped: {describe(p)}")
    for n in calls(fl, "lerp_"):
        if owner(n.d["recv"]) is None:
            continue
        tot += 1
        c.decide(owner(n.d["recv"]) is T and owner(n.d["args"][0]) is S and n.d["args"][1] is tau, con + "/formula", n.where, show(n.d["term"]))
    for n in calls(fl, "mul_", "add_"):
        if owner(n.d["recv"]) is not None:
            tot += 1
            c.und(con + "/formula", show(n.d["term"]))
    if not tot:
        c.und(con, "update of parameters not found")


def evaluated(c, k, tg):
    """Target networks some method of the policy evaluates."""
    out = set()
    for m in ("_target_q", "learn", "_target_dist", "process_fn"):
        f = k.find(m)
        if f is None or f.cls is None or f.cls.name == BASE:
            continue
        fl = c.flow(f, k, opaque=(*OPQ, "sync_weight", "soft_update"))
        out |= target_uses(fl, {n.d["term"] for n in nodes(fl, "call")}, tg)
    return out


def value_net(t):
    return t.startswith(("critic", "model", "q_net", "value"))


def is_target_name(t):
    return t.endswith(("_old", "_target")) or t.startswith(("target_", "old_"))


@rule("P02")
def synchronisation_pairs(c):
    """sync_weight moves each target network towards its own online network, by the configured fraction, once; every value target is maintained."""
    tot = 0
    for k in policies(c.p):
        tg = targets(c, k)
        f = k.find("sync_weight")
        if f is None:
            if any(value_net(t) for t in tg):
                c.bad(f"{k.name}.sync_weight", k.find("__init__").where if hasattr(k.find("__init__"), "where") else "", "the target networks are never synchronised")
            continue
        fl = c.flow(f, k, opaque=("soft_update",))
        sy = synced(fl)
        done = {}
        for t, s, tau, n in sy:
            ta, sa = self_attr(t), (self_attr(s) if isinstance(s, Term) else s)
            con = f"{k.name}.sync_weight/{ta}"
            if ta is None:
                c.und(con, show(t)[:80])
                continue
            tot += 1
            if s == "formula":
                done.setdefault(ta, []).append(n)
                continue
            if not (ta in tg):
                c.bad(con, n.where, f"weights are copied into self.{ta}, which is not a target network")
                continue
            c.decide(sa == tg[ta][0] if sa else None, con + "/own", n.where, f"self.{ta} follows {show(s) if isinstance(s, Term) else s} instead of self.{tg[ta][0]}")
            if tau is not None:
                c.decide(tau is A("tau") or (None if tau.k not in ("const", "bin", "un") else False), con + "/fraction", n.where, f"the update fraction is {show(tau)}")
            done.setdefault(ta, []).append(n)
        need = evaluated(c, k, tg)
        for t in tg:
            if not value_net(t) and t not in done and t not in need:
                continue
            ns = done.get(t, [])
            # a transfer written as a loop over the parameters counts from its loop
            heads = [h for h in iter_heads(fl) if any(x in fl.loop_body(h) for x in ns)] if hasattr(fl, "loop_body") else [h for h in iter_heads(fl) if any(find_path(edge_succ(h, "next"), x, [h], skip_start=False) is not None for x in ns)]
            p = find_path(fl.entry_node, fl.exit_node, ns + heads)
            c.decide(p is None, f"{k.name}.sync_weight/{t}/always", fl.entry.where, f"self.{t} is left out: {describe(p)}")
            p = find_path(ns, ns) if ns and not any(x[1] == "formula" for x in sy) else None
            c.decide(p is None, f"{k.name}.sync_weight/{t}/once", fl.entry.where, f"self.{t} is moved twice")
    if tot < 20:
        raise AnalysisBroken("synchronisation not found")


@rule("P02")
def synchronisation_schedule(c):
    """A learning step synchronises softly after each (possibly delayed) round of optimiser steps, or copies exactly when the update counter reaches the configured interval, counting each update once."""
    tot = 0
    for k in policies(c.p):
        tg = targets(c, k)
        f = k.find("learn")
        if not tg or f is None or k.find("sync_weight") is None:
            continue
        fl = c.flow(f, k, opaque=(*OPQ, "sync_weight", "soft_update"))
        con = f"{k.name}.learn"
        hard = any(x[2] is None and x[1] != "formula" for x in synced(c.flow(k.find("sync_weight"), k, opaque=("soft_update",))))
        sy = [n for n in calls(fl, "sync_weight")] + [x[3] for x in synced(fl)]
        tot += 1
        if not sy:
            c.bad(con + "/sync", fl.entry.where, "no learning step synchronises the target network")
            continue
        p = find_path(sy, sy)
        c.decide(p is None, con + "/once", sy[0].where, f"two synchronisations in one learning step: {describe(p)}")
        if not hard:
            steps = [n for n in calls(fl, "step") if is_opt(n.d["recv"])]
            delayed = lambda n, m, l: not (n.kind == "branch" and any(x.k == "attr" and "freq" in str(x.a[1]) for x in subterms(n.d["cond"])) and find_path([m], sy, [], skip_start=False) is None)
            p = find_path(steps, fl.exit_node, sy, edge_ok=delayed)
            c.decide(p is None, con + "/after", sy[0].where, f"a learning step ends without synchronising: {describe(p)}")
            continue
        # interval: remainder of a counter by the interval attribute
        for s in sy:
            g = [(x, pol) for x, pol in guards(fl, s)]
            mod = [(x, pol) for x, pol in g if any(y.k == "bin" and y.a[0] == "%" for y in subterms(x))]
            if not mod:
                c.decide(False if not g or all(not any(y.k == "call" for y in subterms(x)) for x, _ in g) else None, con + "/interval", s.where, "targets are copied at every learning step instead of at the configured interval")
                continue
            x, pol = mod[0]
            m = [y for y in subterms(x) if y.k == "bin" and y.a[0] == "%"][0]
            itv, ctr = m.a[2], m.a[1]
            zero = x.k == "cmp" and const(0) in x.a and ("==" in x.a and pol or "!=" in x.a and not pol) or x is m and not pol
            okc = [a for a in (self_attr(z) for z in subterms(ctr)) if a]
            c.decide(True if zero else (False if x is m or x.k == "cmp" else None), con + "/interval", s.where, f"targets are copied when {show(x)} is {pol}")
            c.decide("freq" in (self_attr(itv) or "") or (None if self_attr(itv) is None and itv.k != "const" else False), con + "/interval", s.where, f"the interval is {show(itv)}")
            if okc:
                cnt = okc[0]
                inc = setattrs(fl, cnt, base=SELF)
                p = find_path(fl.entry_node, fl.exit_node, inc)
                c.decide(p is None, con + "/count", s.where, f"an update is not counted in self.{cnt}: {describe(p)}")
                p = find_path(inc, inc)
                c.decide(p is None, con + "/count once", s.where, f"an update is counted twice in self.{cnt}")
                for i in inc:
                    q = poly(i.d["value"], lambda t: "n" if t is A(cnt) else None)
                    c.decide(q == Poly.x("n") + Poly.c(1) or (None if q.atoms() - {"n"} else False), con + "/count by one", i.where, f"self.{cnt} becomes {show(i.d['value'])}")
            # when due, it happens: leaving learn with the condition true but no copy
            due = cut(lambda t: any(y is m for y in subterms(t)) or (self_attr(t) == "_target"), None)
            brs = [b for b in find_branch(fl, lambda t: any(y is m for y in subterms(t)))]
            for b in brs:
                lab = "T" if pol else "F"
                p = find_path(edge_succ(b, lab), fl.exit_node, sy, skip_start=False)
                if p is not None and any(x2.kind == "branch" and x2 is not b for x2 in p):
                    c.und(con + "/due", describe(p)[:80])
                else:
                    c.decide(p is None, con + "/due", b.where, f"the interval is reached but nothing is copied: {describe(p)}")
    if tot < 12:
        raise AnalysisBroken("learning steps with target networks not found")


@rule("P02")
def targets_are_read_only(c):
    """Outside construction and synchronisation no method of a policy replaces, writes, or differentiates a target network; value targets come from the target networks."""
    tot = 0
    for k in policies(c.p):
        tg = targets(c, k)
        if not tg:
            continue
        for m in ("learn", "process_fn", "forward", "_target_q", "exploration_noise", "_target_dist"):
            f = k.find(m)
            if f is None or f.cls is None or f.cls.name == BASE:
                continue
            fl = c.flow(f, k, opaque=(*OPQ, "sync_weight", "soft_update"))
            tot += 1
            w = [n for n in setattrs(fl, *tg, base=SELF)]
            c.decide(not w, f"{k.name}.{m}/replaced", w[0].where if w else "", f"self.{w[0].d['attr'] if w else ''} is replaced")
            st = grad_stop(fl)
            t2n = fl._t2n
            losses = [n.d["recv"] for n in calls(fl, "backward")]
            gc = set().union(*[gclosure(fl, x) for x in losses]) if losses else set()
            for n in nodes(fl, "call"):
                fn = n.d["term"].a[0]
                hit = self_attr(fn) if self_attr(fn) in tg else None
                if fn is SELF or fn.k == "attr" and fn.a[0] is SELF and fn.a[1] == "forward":
                    mv = n.d["kw"].get("model")
                    if mv is not None and mv.k == "const" and mv.a[0] in tg:
                        hit = mv.a[0]
                if hit and losses:
                    c.decide(n.d["term"] not in gc, f"{k.name}.{m}/{hit}/gradient", n.where, f"the loss is differentiated through the target network self.{hit}")
                if n.d["name"] == "parameters" and self_attr(n.d["recv"]) in tg and any(n.d["term"] in subterms(a) for q in nodes(fl, "call") if q.d["name"] in ("Adam", "SGD") for a in q.d["args"]):
                    c.bad(f"{k.name}.{m}/optimiser", n.where, "an optimiser is given the parameters of a target network")
    if tot < 30:
        raise AnalysisBroken("methods of policies with target networks not found")


def target_uses(fl, ts, tg):
    """Target networks evaluated in the computation of the given terms."""
    out = set()
    for x in ts:
        if x.k == "call":
            a = self_attr(x.a[0])
            if a in tg:
                out.add(a)
            if x.a[0] is SELF or x.a[0].k == "attr" and x.a[0].a[0] is SELF and x.a[0].a[1] == "forward":
                mv = dict(x.a[2]).get("model")
                for v in alts(mv) if mv is not None else []:
                    if v.k == "const" and v.a[0] in tg:
                        out.add(v.a[0])
    return out


@rule("P02")
def value_targets_use_target_networks(c):
    """The value of the next state in a return target is taken from every maintained value target network and from no online critic."""
    tot = 0
    for k in policies(c.p):
        tg = targets(c, k)
        vt = {t for t in tg if value_net(t)}
        if not vt:
            continue
        con = f"{k.name}/value targets"
        f = k.find("_target_q")
        used = set()
        if f is not None:
            fl = c.flow(f, k, opaque=OPQ)
            cl = closure(fl, fl.ret_value)
            used |= target_uses(fl, cl, tg)
            onl = {tg[t][0] for t in vt}
            for x in cl:
                if x.k == "call" and self_attr(x.a[0]) in onl and not is_target_name(self_attr(x.a[0])):
                    c.bad(con + "/online", fl.entry.where, f"the return target is valued by the online network self.{self_attr(x.a[0])}")
            opt = {t for t in tg if not value_net(t)}
        if not vt <= used:
            for m in ("learn", "_target_dist"):
                f2 = k.find(m)
                if f2 is None:
                    continue
                fl = c.flow(f2, k, opaque=(*OPQ, "sync_weight"))
                ng = [n for n in nodes(fl, "call") if set(n.ctx or ()) & set(NOGRAD) or m == "_target_dist"]
                used |= target_uses(fl, {n.d["term"] for n in ng}, tg)
        tot += 1
        miss = vt - used
        c.decide(not miss, con + "/used", k.find("__init__").node and fl.entry.where, f"the maintained target {sorted(miss)} is not used for the value of the next state")
        # an actor target that is kept in step must be the one that proposes the next action
        sf = k.find("sync_weight")
        if sf is not None and f is not None:
            kept = {self_attr(x[0]) for x in synced(c.flow(sf, k, opaque=("soft_update",)))}
            for a in sorted(kept & {t for t in tg if not value_net(t)}):
                fl = c.flow(f, k, opaque=OPQ)
                cl = closure(fl, fl.ret_value)
                fw = k.find("forward")
                if "model" in {q.arg for q in [*fw.node.args.args, *fw.node.args.kwonlyargs]}:
                    c.decide(a in target_uses(fl, cl, tg), con + "/actor", fl.entry.where, f"the next action does not come from self.{a}")
    if tot < 12:
        raise AnalysisBroken("value targets not found")


# ------------------------------------------------------------------------------- P01
UOPQ = ("process_fn", "learn", "post_process_fn", "sample", "train", "eval", "update_weight")


def updates(c):
    """(class, flow) of each update routine that updates a policy itself."""
    b = c.p.cls(BASE)
    out = []
    for k in [b, *sorted(c.p.subclasses(b.qual), key=lambda x: x.qual)]:
        f = k.methods.get("update")
        if f is not None:
            out.append((k, c.flow(f, k, opaque=UOPQ)))
    if not out:
        raise AnalysisBroken("no update routine")
    return out


def store_reaching(n, stores):
    from .trainer import reaching
    return reaching(n, stores)


@rule("P01")
def update_runs_its_stages_once_in_order(c):
    """An update samples once, processes the sample, learns once from the processed sample, then post-processes with the sampled indices."""
    for k, fl in updates(c):
        con = f"{k.name}.update"
        buf, size = P("buffer"), P("sample_size")

        def some(n, m, l):
            if n.kind != "branch" or l not in ("T", "F"):
                return True
            t, pol = canon_cond(n.d["cond"])
            if t.k == "cmp" and t.a[0] in ("is", "==") and buf in t.a[1:] and NONE in t.a[1:]:
                return (l == "T") != pol
            if t is buf:
                return (l == "T") == pol
            return True

        def none(n, m, l):
            if n.kind != "branch" or l not in ("T", "F"):
                return True
            t, pol = canon_cond(n.d["cond"])
            if t.k == "cmp" and t.a[0] in ("is", "==") and buf in t.a[1:] and NONE in t.a[1:]:
                return (l == "T") == pol
            if t is buf:
                return (l == "T") != pol
            return True
        st = {"sample": [n for n in calls(fl, "sample") if n.d["recv"] is buf], "process": calls(fl, "process_fn", recv=SELF), "learn": calls(fl, "learn", recv=SELF), "post": calls(fl, "post_process_fn", recv=SELF)}
        for nm, ns in st.items():
            if not ns:
                raise AnalysisBroken(f"{con}: no call of {nm}")
            p = find_path(fl.entry_node, fl.exit_node, ns, edge_ok=some)
            c.decide(p is None, f"{con}/{nm} always", ns[0].where, f"an update can end without {nm}: {describe(p)}")
            p = find_path(ns, ns)
            c.decide(p is None, f"{con}/{nm} once", ns[0].where, f"{nm} runs twice in one update: {describe(p)}")
        for a, b in (("sample", "process"), ("process", "learn"), ("learn", "post")):
            p = find_path(fl.entry_node, st[b], st[a])
            c.decide(p is None, f"{con}/{a} before {b}", st[b][0].where, f"{b} runs before {a}: {describe(p)}")
        part = lambda v, i: v.k == "item" and is_call(v.a[0], "sample") and v.a[1] == i or v.k == "sub" and is_call(v.a[0], "sample") and v.a[1] is const(i)
        first = lambda t: t is not None and all(part(v, 0) for v in values(fl, t))
        second = lambda t: t is not None and all(part(v, 1) for v in values(fl, t))
        for n in st["sample"]:
            a = arg(n, 0, "batch_size")
            c.decide(a is size, con + "/sample size", n.where, f"samples {show(a) if a is not None else 'a default number'} instead of the requested size")
        for n in st["process"]:
            a = [arg(n, i, x) for i, x in enumerate(("batch", "buffer", "indices"))]
            c.decide(first(a[0]), con + "/process batch", n.where, f"processes {show(a[0])}")
            c.decide(a[1] is buf, con + "/process buffer", n.where, f"processes with buffer {show(a[1])}")
            c.decide(second(a[2]), con + "/process indices", n.where, f"processes with indices {show(a[2])}")
        proc = {n.d["term"] for n in st["process"]}
        for n in st["learn"]:
            a = arg(n, 0, "batch")
            c.decide(a is not None and set(values(fl, a)) <= proc, con + "/learn batch", n.where, f"learns from {show(a) if a is not None else 'nothing'} instead of the processed sample")
        for n in st["post"]:
            a = [arg(n, i, x) for i, x in enumerate(("batch", "buffer", "indices"))]
            c.decide(set(values(fl, a[0])) <= proc, con + "/post batch", n.where, f"post-processes {show(a[0])} instead of the batch learned from")
            c.decide(a[1] is buf, con + "/post buffer", n.where, f"post-processes buffer {show(a[1])}")
            c.decide(second(a[2]), con + "/post indices", n.where, f"post-processes with indices {show(a[2])}")
        eff = [x for ns in st.values() for x in ns] + setattrs(fl, base=SELF) + [n for n in calls(fl, "train", "step")]
        p = find_path(fl.entry_node, eff, edge_ok=none)
        c.decide(p is None, con + "/no buffer", eff[0].where, f"something happens although there is no buffer: {describe(p)}")
        lt = {n.d["term"] for n in st["learn"]}
        rv = [v for v in alts(fl.ret_value)]
        c.decide(all(v in lt or v.k == "call" and not any(x in lt for x in subterms(v)) for v in rv) and any(v in lt for v in rv) or None, con + "/result", fl.entry.where, "")


@rule("P01")
def learning_happens_in_training_mode(c):
    """learn runs with the policy in training mode, and the previous mode is restored afterwards, also on errors."""
    for k, fl in updates(c):
        con = f"{k.name}.update"
        sw = [n for n in calls(fl, "train", "eval") if n.d["recv"] is SELF]
        mode = lambda n: FALSE if n.d["name"] == "eval" else arg(n, 0, "mode", TRUE)
        if not sw:
            c.bad(con + "/mode", fl.entry.where, "learn does not run in training mode")
            continue
        for n in calls(fl, "learn", recv=SELF):
            rs = store_reaching(n, sw)
            c.decide(None not in rs and all(mode(r) is TRUE for r in rs), con + "/mode", n.where, "learn can run without the policy being in training mode")
            back = [s for s in sw if mode(s) is A("training")]
            wrong = [s for s in sw if mode(s) is not A("training")]
            for x in (fl.exit_node, fl.raise_exit):
                p = find_path([n], x, back, exc=True)
                c.decide(p is None, f"{con}/mode restored{'' if x is fl.exit_node else ' on errors'}", n.where, f"the previous mode is not restored: {describe(p)}")
            p = find_path(back, fl.exit_node, [])
            for x in (fl.exit_node, fl.raise_exit):
                rs = [r for r in store_reaching(x, sw) if r is not None]
                bad = [r for r in rs if r in wrong]
                c.decide(not bad, f"{con}/mode at the end", x.where if hasattr(x, "where") else "", f"the update ends in mode {show(mode(bad[0])) if bad else ''}")


@rule("P01")
def updating_marks_exactly_the_update(c):
    """The updating flag is on while the sample is processed, learned from and post-processed, and off on every exit."""
    for k, fl in updates(c):
        con = f"{k.name}.update"
        up = setattrs(fl, "updating", base=SELF)
        if not up:
            c.bad(con + "/updating", fl.entry.where, "the policy is never marked as updating")
            continue
        for n in calls(fl, "process_fn", "learn", "post_process_fn", recv=SELF):
            rs = store_reaching(n, up)
            c.decide(None not in rs and all(r.d["value"] is TRUE for r in rs), f"{con}/updating during {n.d['name']}", n.where, f"{n.d['name']} can run without the updating mark")
        for x in (fl.exit_node, fl.raise_exit):
            rs = [r for r in store_reaching(x, up) if r is not None]
            bad = [r for r in rs if any(v is not FALSE for v in alts(r.d["value"]))]
            c.decide(not bad, f"{con}/updating ends{'' if x is fl.exit_node else ' on errors'}", bad[0].where if bad else "", "the policy stays marked as updating")


@rule("P01")
def learning_rate_schedule_steps_once(c):
    """Each update steps the configured learning-rate schedule exactly once, after learning; a bundle of schedules steps each of its members once."""
    for k, fl in updates(c):
        con = f"{k.name}.update/lr"
        lr = A("lr_scheduler")
        steps = calls(fl, "step", recv=lr)
        if not steps:
            c.bad(con, fl.entry.where, "the learning-rate schedule is never stepped")
            continue

        def given(n, m, l):
            if n.kind != "branch" or l not in ("T", "F"):
                return True
            t, pol = canon_cond(n.d["cond"])
            if t.k == "cmp" and t.a[0] in ("is", "==") and lr in t.a[1:] and NONE in t.a[1:]:
                return (l == "T") != pol
            return (l == "T") == pol if t is lr else True
        ln = calls(fl, "learn", recv=SELF)
        p = find_path(ln, fl.exit_node, steps, edge_ok=given)
        c.decide(p is None, con + "/always", steps[0].where, f"an update does not step the schedule: {describe(p)}")
        p = find_path(steps, steps)
        c.decide(p is None, con + "/once", steps[0].where, f"an update steps the schedule twice: {describe(p)}")
        p = find_path(fl.entry_node, steps, ln)
        c.decide(p is None, con + "/after learning", steps[0].where, f"the schedule is stepped without or before learning: {describe(p)}")
    fl = c.flow("step", "MultipleLRSchedulers")
    ns = [n for n in calls(fl, "step") if n.d["recv"] is not None and n.d["recv"].k == "elem"]
    if not ns:
        c.und("MultipleLRSchedulers.step", "no step of a member")
    for n in ns:
        h = loop_of(fl, n.d["recv"])
        p = find_path(edge_succ(h, "next"), [h, fl.exit_node], ns, skip_start=False)
        c.decide(p is None, "MultipleLRSchedulers.step/every", n.where, f"a schedule is left out: {describe(p)}")
        p = find_path(ns, ns, [h])
        c.decide(p is None, "MultipleLRSchedulers.step/once", n.where, "a schedule is stepped twice")
        src = strip(n.d["recv"].a[0], "list", "tuple", "iter")
        c.decide(True if src is A("schedulers") else (False if src.k in ("sub", "slice") else None), "MultipleLRSchedulers.step/members", n.where, f"steps only {show(src)}")
        p = find_path(ns, fl.exit_node, [h])
        c.decide(p is None, "MultipleLRSchedulers.step/all", n.where, f"stops before the last schedule: {describe(p)}")
        p = find_path(fl.entry_node, fl.exit_node, [h])
        c.decide(p is None, "MultipleLRSchedulers.step/loop", h.where, "the members are not stepped on a path")
    # its state is saved and restored per member, in order
    init = c.flow("__init__", "MultipleLRSchedulers")
    for n in setattrs(init, "schedulers", base=SELF):
        v = strip(n.d["value"], "list", "tuple")
        c.decide(v.k in ("param", "star") or (False if v.k == "sub" or v.k == "slice" else None), "MultipleLRSchedulers/members", n.where, f"keeps {show(v)} of the given schedules")


@rule("P01")
def priorities_return_to_the_sampled_transitions(c):
    """Post-processing hands the weights computed by learning to the buffer for exactly the indices it was given, whenever both exist."""
    b = c.p.cls(BASE)
    for k in [b, *sorted(c.p.subclasses(b.qual), key=lambda x: x.qual)]:
        f = k.methods.get("post_process_fn")
        if f is None:
            continue
        fl = c.flow(f, k, opaque=("update_weight", "post_process_fn"))
        con = f"{k.name}.post_process_fn"
        uw = calls(fl, "update_weight")
        inner = calls(fl, "post_process_fn")
        if not uw and not inner:
            c.bad(con, fl.entry.where, "weights never reach the buffer")
            continue
        for n in uw:
            c.decide(arg(n, 0, "index") is P("indices"), con + "/indices", n.where, f"weights are stored for {show(arg(n, 0, 'index'))}")
            v = arg(n, 1, "new_weight")
            c.decide(v is not None and v.k == "attr" and v.a[1] == "weight" and v.a[0] is P("batch") or (None if v is not None and any(x.k == "attr" and x.a[1] == "weight" for x in subterms(v)) and v.k == "call" else False), con + "/weights", n.where, f"stores {show(v)}")

            def have(m, q, l):
                if m.kind != "branch" or l not in ("T", "F"):
                    return True
                t, pol = canon_cond(m.d["cond"])
                if is_call(t, "hasattr"):
                    return (l == "T") == pol
                return True
            p = find_path(fl.entry_node, fl.exit_node, uw, edge_ok=have)
            c.decide(p is None, con + "/always", n.where, f"weights are not stored although buffer and batch have them: {describe(p)}")
        for n in inner:
            a = [arg(n, i, x) for i, x in enumerate(("batch", "buffer", "indices"))]
            if a[1] is not None:
                c.decide(all(a[i] is P(x) for i, x in ((1, "buffer"),)) or None, con + "/inner buffer", n.where, "")
