"""Stored experiments: what is persisted is what is restored, from the same place and before it is used; collections of experiments."""
from __future__ import annotations

import ast

from ..core import rule
from ..flow import NONE, Term, canon_cond, const, is_call, subterms
from ..program import AnalysisBroken
from ..query import closure, describe, find_path, nodes, reachable, setattrs, skey, strip, values
from .factories import classes as factory_classes
from .highlevel import bind, cls_of, q
from .util import A, P, SELF, assume, params_of, resolve, truths

POL, PERS = "PolicyPersistence", "Persistence"
HELP = ("get_filename", "persist_path", "restore_path")


def modes(c):
    k = c.p.cls(POL)
    for n in k.node.body:
        if isinstance(n, ast.ClassDef) and any(ast.unparse(b).endswith("Enum") for b in n.bases):
            ms = [t.id for s in n.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
            if ms:
                return n.name, ms
    raise AnalysisBroken("the modes in which a policy is persisted are gone")


def last(t):
    return t.a[1] if t.k == "attr" else (t.a[0].rsplit(".", 1)[-1] if t.k == "global" else (t.a[0] if t.k == "const" else None))


def val_of(mode, names, **flags):
    """Assumptions: the mode, and whether persistence is enabled / there is something else to persist."""
    def one(a, b):
        x, y = last(a), last(b)
        if x == "mode" and y in names:
            return y == mode
        if y == "mode" and x in names:
            return x == mode
        return None

    def val(t):
        if t.k == "cmp" and t.a[0] in ("==", "is"):
            r = one(t.a[1], t.a[2])
            if r is not None:
                return r
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if b is NONE and last(a) == "additional_persistence" and "extra" in flags:
                    return not flags["extra"]
        if t.k == "attr" and t.a[1] == "enabled" and "enabled" in flags:
            return flags["enabled"]
        if t.k == "attr" and t.a[1] == "additional_persistence" and "extra" in flags:
            return flags["extra"]
        return None
    return val


def cut_dead(t):
    """edge_ok for terms that compare a mode with itself."""
    return assume(t)


def saves(ns):
    return [n for n in ns if n.kind == "call" and not n.d["inlined"] and n.d["name"] in ("save", "dump")]


def loads(ns):
    return [n for n in ns if n.kind == "call" and not n.d["inlined"] and n.d["name"] in ("load",)]


def what(t, pol):
    """Whether the policy itself or its state is meant."""
    if t is None:
        return None
    if any(t is p for p in pol):
        return "object"
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "state_dict" and any(t.a[0].a[0] is p for p in pol):
        return "state"
    if t.k == "phi":
        w = {what(x, pol) for x in t.a[0]}
        return w.pop() if len(w) == 1 else None
    return False


def path_arg(n):
    return n.d["args"][1] if len(n.d["args"]) > 1 else next((n.d["kw"][x] for x in ("f", "path", "file") if x in n.d["kw"]), None)


def filename(t, how):
    """The file name a path is made of by World.persist_path / World.restore_path."""
    t = strip(t, "str", "Path", "abspath", "fspath") if t is not None else None
    if t is not None and t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == how:
        return t.a[1][0] if t.a[1] else dict(t.a[2]).get("filename")
    return None


def inner(c, outer, cls):
    """Functions a method returns (closures defined in it)."""
    fl = c.flow(outer, cls, opaque=HELP)
    got = values(fl, fl.ret_value) if fl.ret_value is not None else []
    out = [fl.closures[t] for t in got if t in fl.closures]
    return fl, got, out


def writers(c):
    """[(name, flow, terms meaning the policy)] of everything that writes a policy."""
    k = c.p.cls(POL)
    out = []
    f = k.find("persist")
    if f is None:
        raise AnalysisBroken("PolicyPersistence.persist is gone")
    ps = params_of(f)
    out.append(("persist", c.flow(f, k, opaque=HELP), (P(ps[1]),), False))
    if k.find("get_save_checkpoint_fn") is None:
        raise AnalysisBroken("no checkpoints are saved")
    fl, got, cl = inner(c, "get_save_checkpoint_fn", POL)
    for g, *_ in cl:
        out.append(("checkpoint", c.flow(g, k, opaque=HELP), (A("policy", P("world")),), True))
    if not cl:
        raise AnalysisBroken("the function that saves checkpoints is not a local function")
    return out


@rule("H02")
def policy_is_read_back_as_it_was_written(c):
    """In every mode the policy (or its state) is written to the place and in the form in which restoring expects it."""
    k = c.p.cls(POL)
    _, names = modes(c)
    wr = writers(c)
    f = k.find("restore")
    if f is None:
        raise AnalysisBroken("PolicyPersistence.restore is gone")
    fl = c.flow(f, k, opaque=HELP)
    pol = P(params_of(f)[1])
    dev = [P(x) for x in params_of(f) if x == "device"]
    for m in names:
        val = val_of(m, names)
        lv = reachable([fl.entry_node], edge_ok=assume(val))
        ld = loads(lv)
        put = [n for n in lv if n.kind == "call" and n.d["name"] == "load_state_dict" and n.d["recv"] is pol]
        con = f"restore/{m}"
        p = find_path([fl.entry_node], [fl.exit_node], put, edge_ok=assume(val))
        c.decide(p is None and bool(put), con, f.where, f"the policy is not restored: {describe(p) if p else 'nothing is loaded'}")
        form = None
        for n in put:
            v = resolve(n.d["args"][0] if n.d["args"] else dict(n.d["kwt"]).get("state_dict"), val)
            strict = n.d["args"][1] if len(n.d["args"]) > 1 else n.d["kw"].get("strict")
            c.decide(strict is None or strict is const(True), f"{con}/complete", n.where, "parts of the policy may be missing")
            src = [x for x in ld if any(y is resolve(x.d["term"], val) or y is x.d["term"] for y in closure(fl, v, conds=False))]
            c.decide(bool(src), f"{con}/source", n.where, "the policy's state is not what was loaded")
            for x in src:
                t = resolve(x.d["term"], val)
                form = "state" if v is t else ("object" if v.k == "call" and v.a[0].k == "attr" and v.a[0].a[1] == "state_dict" and v.a[0].a[0] is t else None)
                ml = x.d["kw"].get("map_location") or (x.d["args"][1] if len(x.d["args"]) > 1 else None)
                c.decide(ml is not None and any(d in closure(fl, ml) for d in dev), f"{con}/device", x.where, "the policy is not loaded onto the requested device")
                fr = filename(resolve(x.d["args"][0], val) if x.d["args"] else None, "restore_path")
                c.decide(None if fr is None and "restore_directory" not in str([y.a[1] for y in closure(fl, x.d["args"][0]) if y.k == "attr"]) and False else fr is not None, f"{con}/place", x.where, "the policy is not loaded from the world's restore directory")
                for nm, g, who, ck in wr:
                    gv = val_of(m, names, enabled=True)
                    sv = saves(reachable([g.entry_node], edge_ok=assume(gv)))
                    sv = [s for s in sv if s.d["args"]]
                    gp = find_path([g.entry_node], [g.exit_node], sv, edge_ok=assume(gv))
                    c.decide(gp is None and bool(sv), f"{nm}/{m}", g.entry.where, f"the policy is not written: {describe(gp) if gp else ''}")
                    for s in sv:
                        w = what(resolve(s.d["args"][0], gv), who)
                        c.decide(None if w is None or form is None else w == form, f"{nm}/{m}/form", s.where, f"written as {w or 'something else'}, but read back as {form}")
                        fw = filename(resolve(path_arg(s), gv), "persist_path") if path_arg(s) is not None else None
                        if fw is None:
                            c.bad(f"{nm}/{m}/place", s.where, "the policy is not written to the world's persistence directory")
                        elif fr is not None and not ck:
                            c.decide(same_name(g, fw, fl, fr), f"{nm}/{m}/place", s.where, "the policy is written to another file than it is read from")
                        elif ck:
                            cl = closure(g, fw)
                            c.decide(P("epoch") in cl and not (fr is not None and skey(fw) == skey(fr)), f"{nm}/{m}/place", s.where, "checkpoints of different epochs (or the best policy's file) share a file name")


def same_name(g, a, fl, b):
    if skey(a) == skey(b):
        return True
    ka = {skey(x) for x in closure(g, a) if x.k in ("call", "attr")}
    kb = {skey(x) for x in closure(fl, b) if x.k in ("call", "attr")}
    return None if ka == kb and a.k != "const" and b.k != "const" else False


@rule("H02")
def disabled_persistence_writes_nothing(c):
    """Disabled persistence writes nothing and does not hinder restoring."""
    k = c.p.cls(POL)
    _, names = modes(c)
    for nm, g, who, ck in writers(c):
        if ck:
            continue
        off = reachable([g.entry_node], edge_ok=assume(val_of(None, (), enabled=False)))
        w = saves(off) + [n for n in off if n.kind == "call" and n.d["name"] == "persist"]
        c.decide(not w, f"{nm}/disabled", w[0].where if w else g.entry.where, "writes although persistence is disabled")
    fl, got, cl = inner(c, "get_save_checkpoint_fn", POL)
    for on in (True, False):
        val = val_of(None, (), enabled=on)
        rv = resolve(fl.ret_value, val)
        rets = [resolve(n.d["value"], val) for n in reachable([fl.entry_node], edge_ok=assume(val)) if n.kind == "return" and len(n.stack) == 1]
        vs = {x for r in rets for x in values(fl, r)} if rets else {rv}
        inside = all(not saves(reachable([c.flow(g, k, opaque=HELP).entry_node], edge_ok=assume(val))) for g, *_ in cl)
        if on:
            c.decide(NONE not in vs, "checkpoint/enabled", fl.entry.where, "checkpoints are not saved although persistence is enabled")
        else:
            c.decide(vs == {NONE} or inside, "checkpoint/disabled", fl.entry.where, "checkpoints are saved although persistence is disabled")
    f = k.find("restore")
    rl = c.flow(f, k, opaque=HELP)
    for on in (True, False):
        lv = reachable([rl.entry_node], edge_ok=assume(val_of(names[0], names, enabled=on, extra=True)))
        done = [n for n in lv if n.kind == "call" and n.d["name"] == "load_state_dict"]
        c.decide(bool(done), f"restore/enabled={on}", f.where, "restoring depends on whether persistence is enabled")


@rule("H02")
def other_parts_are_persisted_and_restored_with_the_policy(c):
    """Whenever the policy is written or read, the handlers of the environments are called too, with the matching event and the same world."""
    k = c.p.cls(POL)
    _, names = modes(c)
    f = k.find("restore")
    todo = [(nm, g, "persist", "PERSIST") for nm, g, _, _ in writers(c)] + [("restore", c.flow(f, k, opaque=HELP), "restore", "RESTORE")]
    for nm, g, meth, ev in todo:
        for m, on in [(m, on) for m in names for on in ((True, False) if meth == "restore" else (True,))]:
            val = val_of(m, names, enabled=on, extra=True)
            lv = reachable([g.entry_node], edge_ok=assume(val))
            cs = [n for n in lv if n.kind == "call" and n.d["recv"] is not None and A("additional_persistence") in closure(g, n.d["recv"]) and n.d["name"] in ("persist", "restore")]
            right = [n for n in cs if n.d["name"] == meth]
            c.decide(len(cs) == len(right), f"{nm}/{m}/handlers", cs[0].where if cs else g.entry.where, f"calls {cs[0].d['name'] if cs else ''}")
            p = find_path([g.entry_node], [g.exit_node], right, edge_ok=assume(val))
            c.decide(p is None and bool(right), f"{nm}/{m}/handlers", g.entry.where, f"the environments' handlers are not called: {describe(p) if p else ''}")
            for n in right:
                a = list(n.d["args"]) + [v for _, v in n.d["kwt"]]
                c.decide(any((last(x) or "").startswith(ev + "_") for x in a if x.k in ("attr", "global")), f"{nm}/{m}/event", n.where, f"not a {ev} event")
                c.decide(P("world") in a, f"{nm}/{m}/world", n.where, "another world is passed on")
            none = reachable([g.entry_node], edge_ok=assume(val_of(m, names, enabled=on, extra=False)))
            bad = [n for n in none if n in cs]
            c.decide(not bad and g.exit_node in none, f"{nm}/{m}/no handlers", g.entry.where, "fails without other handlers")


@rule("H02")
def groups_reach_every_member(c):
    """A group passes each event on to every member; being disabled only stops persisting."""
    n = 0
    for k in c.p.subclasses(q(c, PERS), strict=True):
        f0 = k.find("__init__")
        if f0 is None or f0.node.args.vararg is None:
            continue
        va = f0.node.args.vararg.arg
        il = c.flow(f0, k)
        held = [s.d["attr"] for s in setattrs(il, base=SELF) if P(va) in closure(il, s.d["value"])]
        for s in setattrs(il, base=SELF):
            if P(va) in closure(il, s.d["value"]):
                v = strip(s.d["value"], "list", "tuple")
                c.decide(True if v is P(va) else None if not any(x.k in ("slice", "sub") for x in closure(il, v)) else False, f"{k.name}/members", s.where, "does not keep all members")
        if not held:
            c.bad(f"{k.name}/members", f0.where, "does not keep its members")
            continue
        for meth in ("persist", "restore"):
            f = k.find(meth)
            if f is None or f.is_abstract:
                c.bad(f"{k.name}.{meth}", k.node and f0.where, "not there")
                continue
            ps = params_of(f)
            fl = c.flow(f, k)
            val = val_of(None, (), enabled=True)
            lv = reachable([fl.entry_node], edge_ok=assume(val))
            cs = [x for x in lv if x.kind == "call" and x.d["name"] in ("persist", "restore") and x.d["recv"] is not None and x.d["recv"].k == "elem"]
            ok = [x for x in cs if x.d["name"] == meth and strip(x.d["recv"].a[0], "list", "tuple") is A(held[0]) and [a for a in x.d["args"]] + [v for _, v in x.d["kwt"]] == [P(ps[1]), P(ps[2])]]
            n += 1
            if not ok:
                other = [x for x in lv if x.kind == "call" and not x.d["inlined"] and (x.d["name"] == meth or any(A(h) in closure(fl, *x.d["args"]) for h in held))]
                c.decide(None if other and not cs else False, f"{k.name}.{meth}", f.where, "members do not get this event")
                continue
            c.decide(len(ok) == len(cs), f"{k.name}.{meth}", f.where, "calls another method of the members")
            for x in ok:
                it = [h for h in nodes(fl, "iter") if h.d["lid"] == x.d["recv"].a[1]]
                p = find_path([fl.entry_node], [fl.exit_node], it, edge_ok=assume(val))
                c.decide(p is None, f"{k.name}.{meth}", x.where, f"members are left out: {describe(p) if p else ''}")
                for h in it:
                    body = [m for m, l in h.succ if l not in ("done", "exc")]
                    p = find_path(body, [h], ok, skip_start=False, edge_ok=assume(val))
                    c.decide(p is None, f"{k.name}.{meth}", x.where, "some members are skipped")
                    out = find_path(body, [fl.exit_node], [h], skip_start=False, edge_ok=assume(val))
                    c.decide(out is None, f"{k.name}.{meth}", x.where, "stops before the last member")
            off = reachable([fl.entry_node], edge_ok=assume(val_of(None, (), enabled=False)))
            if meth == "restore":
                c.decide(any(x in off for x in ok), f"{k.name}.restore/disabled", f.where, "restoring depends on whether persisting is enabled")
            else:
                c.decide(not any(x in off for x in ok), f"{k.name}.persist/disabled", f.where, "persists although it is disabled")
    e = c.p.cls("Environments")
    f = e.find("set_persistence")
    if f is None or n == 0:
        raise AnalysisBroken("persistence groups are gone")
    fl = c.flow(f, e)
    va = f.node.args.vararg.arg if f.node.args.vararg else params_of(f)[1]
    st = [s for s in setattrs(fl, "persistence", base=SELF)]
    c.decide(any(strip(s.d["value"], "list", "tuple") is P(va) for s in st), "Environments.set_persistence", f.where, "does not keep all handlers")


@rule("H02")
def world_paths(c):
    """A world's persist path lies in its persistence directory, its restore path in its restore directory, which must be given."""
    k = c.p.cls("World")
    for m, d in (("persist_path", "persist_directory"), ("restore_path", "restore_directory")):
        f = k.find(m)
        if f is None:
            raise AnalysisBroken(f"World.{m} is gone")
        fl = c.flow(f, k)
        fn = P(params_of(f)[1])
        rets = [n for n in nodes(fl, "return") if len(n.stack) == 1]
        for r in rets:
            cl = closure(fl, r.d["value"], conds=False)
            other = {"persist_directory", "restore_directory"} - {d}
            has = A(d) in cl and fn in cl and not any(A(o) in cl for o in other)
            base = {x for x in cl if x.k == "call" and is_call(x, "basename", "dirname")} | {x for x in cl if x.k == "attr" and x.a[1] in ("stem", "parent")}
            c.decide(has and not base, f"World.{m}", r.where, f"the path is not the file in {d}")


# ------------------------------------------------------------------------- the experiment's world
WOPQ = ("pprints", "_build_config_dict", "_set_seed", "create_envs", "create_policy", "create_train_test_collector", "create_trainer", "create_logger", "save")


@rule("H02")
def save_functions_persist_what_they_are_given(c):
    """The function that saves the best policy persists the policy it is called with; trainers get it for the world they train."""
    k = c.p.cls(POL)
    fl = c.flow("get_save_best_fn", POL, opaque=HELP + ("persist",))
    got = [t for t in values(fl, fl.ret_value) if t in fl.closures]
    if not got:
        c.und("get_save_best_fn", fl.entry.where, "does not return a local function")
    for t in got:
        g = fl.closures[t][0]
        gl = c.flow(g, k, opaque=HELP + ("persist",))
        own = [P(x) for x in params_of(g)]
        cs = [n for n in nodes(gl, "call") if n.d["name"] == "persist" and n.d["recv"] is SELF]
        p = find_path([gl.entry_node], [gl.exit_node], cs)
        c.decide(bool(cs) and p is None, "get_save_best_fn/persists", g.where, "the best policy is not persisted")
        for n in cs:
            a = list(n.d["args"]) + [v for _, v in n.d["kwt"]]
            c.decide(bool(own) and own[0] in a, "get_save_best_fn/policy", n.where, "another policy than the one given is persisted")
            c.decide(P("world") in a, "get_save_best_fn/world", n.where, "another world is passed on")
    nn = 0
    for ak in c.p.subclasses(q(c, "AgentFactory")):
        f = ak.methods.get("create_trainer")
        if f is None or f.is_abstract:
            continue
        fl = c.flow(f, ak, opaque=("get_save_best_fn", "get_save_checkpoint_fn", "get_trainer_fn"))
        for n in nodes(fl, "call"):
            kk = cls_of(c, n.d["term"])
            if kk is None or not kk.is_sub(q(c, "BaseTrainer")):
                continue
            b = bind(kk, n.d["term"]) or {}
            if "**" in b:
                continue
            nn += 1
            v = b.get("save_best_fn")
            want = Term("call", Term("attr", P("policy_persistence"), "get_save_best_fn"), (P("world"),), ())
            is_ = lambda t, nm: t is not None and t.k == "call" and is_call(t, nm) and t.a[0].a[0] is P("policy_persistence") and (list(t.a[1]) + [x for _, x in t.a[2]]) == [P("world")]
            c.decide(is_(v, "get_save_best_fn"), f"{ak.name}.create_trainer/save_best_fn", n.where, "the best policy is not persisted")
            cp = b.get("save_checkpoint_fn")
            if cp is not None:
                c.decide(is_(cp, "get_save_checkpoint_fn"), f"{ak.name}.create_trainer/save_checkpoint_fn", n.where, "checkpoints are not those of the policy")
            c.decide(b.get("policy") is A("policy", P("world")), f"{ak.name}.create_trainer/policy", n.where, "the trainer trains another policy than the one that is persisted")
    if nn < 2:
        raise AnalysisBroken("no trainers are created")


@rule("H02")
def restored_before_training(c):
    """If a directory to restore from is configured, the created policy is restored on the configured device, before the trainer is created; otherwise nothing is restored."""
    k = c.p.cls("Experiment")
    f = k.find("create_experiment_world")
    if f is None:
        raise AnalysisBroken("Experiment.create_experiment_world is gone")
    fl = c.flow(f, k, opaque=WOPQ)
    cfg = A("config")
    d = A("policy_restore_directory", cfg)

    def val(on):
        def v(t):
            if t is d:
                return on
            if t.k == "cmp" and t.a[0] in ("is", "==") and d in (t.a[1], t.a[2]) and NONE in (t.a[1], t.a[2]):
                return not on
            if t is A("train", cfg):
                return True
            return None
        return v
    rs = [n for n in nodes(fl, "call") if n.d["name"] == "restore" and not n.d["inlined"]] + [n for n in nodes(fl, "call") if n.d["name"] == "restore" and n.d["inlined"]]
    mk = [n for n in nodes(fl, "call") if n.d["name"] == "create_trainer"]
    cp = [n for n in nodes(fl, "call") if n.d["name"] == "create_policy"]
    if not mk or not cp:
        raise AnalysisBroken("the experiment creates neither policy nor trainer")
    if not rs:
        c.bad("create_experiment_world/restore", f.where, "the policy is never restored")
        return
    tgt = [n for n in rs if cls_of(c, n.d["recv"]) is not None and cls_of(c, n.d["recv"]).name == POL] or rs
    on = assume(val(True))
    p = find_path([fl.entry_node], mk, tgt, edge_ok=on)
    c.decide(p is None, "create_experiment_world/restore", f.where, f"training starts without the configured policy: {describe(p) if p else ''}")
    p = find_path(mk, tgt, None, edge_ok=on)
    c.decide(p is None, "create_experiment_world/restore", mk[0].where, "the policy is restored after the trainer was created")
    p = find_path([fl.entry_node], [fl.exit_node], tgt, edge_ok=on)
    c.decide(p is None, "create_experiment_world/restore", f.where, "the policy is not restored in some configuration")
    off = reachable([fl.entry_node], edge_ok=assume(val(False)))
    c.decide(not any(n in off for n in tgt), "create_experiment_world/no restore", f.where, "a policy is restored although no directory is configured")
    pt = [n.d["term"] for n in cp]
    for n in tgt:
        a = list(n.d["args"])
        kw = dict(n.d["kwt"])
        pol = a[0] if a else kw.get("policy")
        w = a[1] if len(a) > 1 else kw.get("world")
        dv = a[2] if len(a) > 2 else kw.get("device")
        c.decide(pol in pt or (pol is not None and pol.k == "attr" and pol.a[1] == "policy" and pol.a[0] is w), "create_experiment_world/restored policy", n.where, "another policy is restored than the one created")
        c.decide(dv is A("device", cfg), "create_experiment_world/device", n.where, "restored to another device")
        for m in mk:
            ta = list(m.d["args"]) + [v for _, v in m.d["kwt"]]
            c.decide(w in ta, "create_experiment_world/world", m.where, "the trainer gets another world than the restored one")
            c.decide(n.d["recv"] in ta, "create_experiment_world/persistence", m.where, "the trainer persists with another object than the one that restores")
        wk = cls_of(c, w)
        if wk is not None and wk.name == "World":
            b = bind(wk, w)
            c.decide(b.get("restore_directory") is d, "create_experiment_world/restore_directory", n.where, "restores from another directory than configured")
            c.decide(b.get("policy") in pt, "create_experiment_world/world policy", n.where, "the world holds another policy")
            pd = b.get("persist_directory")
            cl = closure(fl, pd)
            c.decide(A("persistence_base_dir", cfg) in cl and A("name") in cl and P("override_experiment_name") in cl, "create_experiment_world/persist_directory", n.where, "not the run's directory")
            for s in [x for x in nodes(fl, "call") if x.d["name"] == "save" and x.d["recv"] is SELF]:
                c.decide((list(s.d["args"]) + [v for _, v in s.d["kwt"]]) == [pd], "create_experiment_world/experiment", s.where, "the experiment is stored in another directory than the policy")
        else:
            c.und("create_experiment_world/world", n.where, "the world is not built in view")
        pk = cls_of(c, n.d["recv"])
        if pk is not None:
            b = bind(pk, n.d["recv"])
            c.decide(b.get("enabled") is A("persistence_enabled", cfg), "create_experiment_world/enabled", n.where, "persistence is not enabled as configured")
            c.decide(b.get("mode") is A("policy_persistence_mode", cfg), "create_experiment_world/mode", n.where, "persistence does not have the configured mode")
            g = b.get("additional_persistence")
            gk = cls_of(c, g)
            if gk is not None:
                gb = bind(gk, g)
                c.decide(gb.get("*") is not None and gb["*"].k == "attr" and gb["*"].a[1] == "persistence" and "create_envs" in [last(y.a[0]) for y in closure(fl, gb["*"]) if y.k == "call"], "create_experiment_world/handlers", n.where, "the environments' handlers are left out")
                e = gb.get("enabled")
                c.decide(e is A("persistence_enabled", cfg), "create_experiment_world/handlers enabled", n.where, "handlers are not enabled as configured")
            else:
                c.decide(False if g is None or g is NONE else None, "create_experiment_world/handlers", n.where, "the environments' handlers are left out")


@rule("H02")
def experiments_are_read_back(c):
    """A stored experiment is written to and read from the same file of its directory, complete, and is set to restore the policy of that directory exactly when asked to."""
    k = c.p.cls("Experiment")
    s, l = c.flow("save", k), c.flow("from_directory", k)

    def fname(fl, t):
        return {last(x) for x in closure(fl, t) if x.k in ("attr", "global") and (last(x) or "").isupper()} | {x.a[0] for x in closure(fl, t) if x.k == "const" and isinstance(x.a[0], str) and "." in x.a[0]}

    def opened(fl, mode):
        out = []
        for n in fl.nodes if hasattr(fl, "nodes") else nodes(fl):
            t = n.d.get("term") if n.kind == "call" else n.d.get("cm") or n.d.get("value") or n.d.get("term")
            if t is not None and getattr(t, "k", None) == "call" and is_call(t, "open"):
                out.append((n, t))
        return out
    ds = [n for n in nodes(s, "call") if n.d["name"] in ("dump", "dumps", "save") and SELF in n.d["args"]]
    ls = [n for n in nodes(l, "call") if n.d["name"] in ("load", "loads")]
    p = find_path([s.entry_node], [s.exit_node], ds)
    c.decide(bool(ds) and p is None, "Experiment.save", s.entry.where, "the experiment is not stored")
    rs = [n for n in nodes(l, "return") if len(n.stack) == 1]
    for r in rs:
        c.decide(any(n.d["term"] in closure(l, r.d["value"], conds=False) for n in ls), "Experiment.from_directory", r.where, "does not return the stored experiment")
    so, lo = opened(s, "w"), opened(l, "r")
    if so and lo:
        a, b = fname(s, so[0][1].a[1][0]), fname(l, lo[0][1].a[1][0])
        c.decide(bool(a & b) and a - {"wb", "rb"} == b - {"wb", "rb"}, "Experiment.save/file", so[0][0].where, f"stored as {sorted(a)}, read from {sorted(b)}")
        c.decide(P("directory") in closure(s, so[0][1].a[1][0]), "Experiment.save/directory", so[0][0].where, "not stored in the given directory")
        c.decide(P("directory") in closure(l, lo[0][1].a[1][0]), "Experiment.from_directory/directory", lo[0][0].where, "not read from the given directory")
    else:
        c.und("Experiment.save/file", s.entry.where, "how the file is opened is not visible")
    for on in (True, False):
        val = lambda t, on=on: on if t is P("restore_policy") else None
        lv = reachable([l.entry_node], edge_ok=assume(val))
        st = [n for n in lv if n.kind == "setattr" and n.d["attr"] == "policy_restore_directory"]
        if on:
            p = find_path([l.entry_node], [l.exit_node], st, edge_ok=assume(val))
            c.decide(bool(st) and p is None, "Experiment.from_directory/restore_policy", l.entry.where, "the policy will not be restored although it was asked for")
            for n in st:
                c.decide(resolve(n.d["value"], val) is P("directory"), "Experiment.from_directory/policy directory", n.where, "the policy would be restored from elsewhere")
                c.decide(n.d["base"].k == "attr" and n.d["base"].a[1] == "config" and any(x.d["term"] in closure(l, n.d["base"], conds=False) for x in ls), "Experiment.from_directory/policy directory", n.where, "another experiment is configured")
        else:
            bad = [n for n in st if P("directory") in closure(l, resolve(n.d["value"], val))]
            c.decide(not bad, "Experiment.from_directory/restore_policy", l.entry.where, "the policy will be restored although it was not asked for")


@rule("H02")
def shared_objects_survive_storing(c):
    """Objects through which parts of an experiment communicate are stored with it: no class leaves them out of its state or replaces them when it is loaded."""
    n = 0
    todo = [k for k in c.p.classes.values() if k.qual.startswith("tianshou.highlevel.")]
    chan = {}
    for k in todo:
        for m, f in k.methods.items():
            if m in ("__init__", "__setstate__", "__getstate__") or f.is_abstract:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign | ast.AugAssign):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Attribute) and isinstance(t.value.value, ast.Name) and t.value.value.id == "self":
                            chan.setdefault(k.qual, set()).add(t.value.attr)
    for kq, attrs in chan.items():
        for k in c.p.subclasses(kq):
            given = {a for a in attrs if any(s.d["value"].k == "param" for s in (setattrs(c.flow("__init__", k), a, base=SELF) if k.find("__init__") else []))}
            for a in sorted(given):
                n += 1
                g, st = k.find("__getstate__"), k.find("__setstate__")
                con = f"{k.name}.{a}"
                if g is not None:
                    drop = False
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "pop" and x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value == a:
                            drop = True
                        if isinstance(x, ast.Delete) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == a for t in x.targets):
                            drop = True
                        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == a for t in x.targets):
                            drop = True
                        if isinstance(x, ast.Compare) and any(isinstance(y, ast.Constant) and y.value == a for y in ast.walk(x)):
                            drop = True
                    whole = any(isinstance(x, ast.Attribute) and x.attr == "__dict__" or isinstance(x, ast.Call) and ast.unparse(x.func) in ("vars", "super().__getstate__", "copy") for x in ast.walk(g.node)) or any(isinstance(x, ast.Constant) and x.value == a for x in ast.walk(g.node))
                    c.decide(not drop and whole, f"{con}/stored", g.where, "is left out when the experiment is stored; after loading, the parts no longer share it")
                else:
                    c.ok(f"{con}/stored", k.methods["__init__"].where if "__init__" in k.methods else k.module.rel)
                if st is not None:
                    sl = c.flow(st, k)
                    fresh = [x for x in setattrs(sl, a, base=SELF) if not any(y.k == "param" for y in closure(sl, x.d["value"]))]
                    fresh += [x for x in nodes(sl, "setsub") if x.d["index"] is const(a) and not any(y.k == "param" for y in closure(sl, x.d["value"]))]
                    bad = [x for x in fresh if find_path([sl.entry_node], [x], None, edge_ok=missing(a)) is not None]
                    c.decide(not bad, f"{con}/loaded", st.where, "is replaced when the experiment is loaded; the parts no longer share it")
    if n == 0:
        raise AnalysisBroken("nothing is shared between the parts of an experiment")


def missing(a):
    """edge_ok: the stored state has the attribute."""
    def val(t):
        if t.k == "cmp" and t.a[0] in ("in", "not in") and t.a[1] is const(a):
            return t.a[0] == "in"
        if t.k == "call" and is_call(t, "hasattr") and const(a) in t.a[1]:
            return True
        if t.k == "cmp" and t.a[0] == "is" and t.a[2] is NONE:
            return False
        return None
    return assume(val)


# ------------------------------------------------------------------------- collections of experiments
def launchers(c):
    return [k for k in c.p.subclasses(q(c, "ExpLauncher"), strict=True) if k.find("_launch") is not None and not k.find("_launch").is_abstract]


def sentinel(c):
    """What marks a failed experiment."""
    k = c.p.cls("ExpLauncher")
    fl = c.flow("_safe_execute", k)
    out = []
    for h in nodes(fl, "handler"):
        for n in reachable([h]):
            if n.kind == "return" and len(n.stack) == 1:
                out.append((h, n))
    return fl, out


@rule("H03")
def failures_are_contained(c):
    """Whatever an experiment raises is caught, logged, and turned into a marker that no result can be."""
    k = c.p.cls("ExpLauncher")
    f = k.find("_safe_execute")
    if f is None:
        raise AnalysisBroken("experiments are no longer executed safely")
    fl, rets = sentinel(c)
    runs = [n for n in nodes(fl, "call") if n.d["name"] == "experiment_runner" or (n.d["fn"] is not None and n.d["fn"] is A("experiment_runner"))]
    if not runs:
        raise AnalysisBroken("experiments are not run")
    hs = nodes(fl, "handler")
    tries = [x for x in ast.walk(f.node) if isinstance(x, ast.Try)]
    caught = {"BaseException": False, "Exception": False}
    for t in tries:
        for h in t.handlers:
            names = [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ["BaseException"]
            for nm in names:
                if nm in caught:
                    caught[nm] = True
    c.decide(caught["BaseException"] or caught["Exception"], "_safe_execute/caught", f.where, "an experiment's error stops the other experiments")
    # no way out of the handler other than returning the marker
    for n in runs:
        a = list(n.d["args"]) + [v for _, v in n.d["kwt"]]
        c.decide(a == [P(params_of(f)[1])], "_safe_execute/experiment", n.where, "another experiment is run")
        p = find_path([fl.entry_node], [fl.exit_node], runs)
        c.decide(p is None, "_safe_execute/run", n.where, "the experiment is not run")
    ok = [n for n in nodes(fl, "return") if len(n.stack) == 1 and any(r.d["term"] in closure(fl, n.d["value"], conds=False) for r in runs)]
    p = find_path(runs, [fl.exit_node], ok)
    c.decide(bool(ok) and p is None, "_safe_execute/result", f.where, "the experiment's result is not returned")
    for h in hs:
        p = find_path([h], [fl.raise_exit], None, edge_ok=lambda n, m, l: n.kind == "raise" or l != "exc")
        c.decide(p is None, "_safe_execute/handler", h.where, "the error is raised again")
        logs = [n for n in reachable([h]) if n.kind == "call" and n.d["name"] in ("error", "exception", "warning", "critical", "log")]
        q_ = find_path([h], [fl.exit_node], logs)
        c.decide(bool(logs) and q_ is None, "_safe_execute/logged", h.where, "the failure is not logged")
    for h, n in rets:
        v = n.d["value"]
        c.decide(v is not None and v.k in ("const", "global", "attr") and v is not NONE, "_safe_execute/marker", n.where, "a failure cannot be told from a result")


def appended(fl, base):
    return [n for n in nodes(fl, "call") if n.d["name"] in ("append",) and n.d["recv"] is base]


@rule("H03")
def results_stay_with_their_experiments(c):
    """A launcher runs every experiment safely; results marked as failed go, with their own experiment, to the failures and all others to the results."""
    _, rets = sentinel(c)
    marks = {n.d["value"] for _, n in rets}
    ks = launchers(c)
    if len(ks) < 2:
        raise AnalysisBroken("launchers are gone")
    for k in ks:
        f = k.find("_launch")
        fl = c.flow(f, k, opaque=("_safe_execute", "_return_from_successful_and_failed_exps"))
        con = f"{k.name}._launch"
        exps = P(params_of(f)[1])
        run = [t for n in nodes(fl, "call") for t in (n.d["term"],) if any(x.k == "attr" and x.a[1] == "_safe_execute" for x in subterms(t))]
        raw = [n for n in nodes(fl, "call") if n.d["fn"] is A("experiment_runner") or (n.d["name"] == "delayed" and A("experiment_runner") in n.d["args"])]
        c.decide(bool(run) and not raw, f"{con}/safe", f.where, "experiments are run without catching their errors")
        # one result per experiment
        full = [t for t in run if t.k == "call" and any(x.k in ("elem",) and strip(x.a[0], "list", "tuple", "enumerate") is exps for x in subterms(t))] or run
        bad = [t for t in run for x in subterms(t) if x.k in ("slice", "sub") and x.a[0] is exps and (x.k == "slice" or x.a[1].k in ("const", "slice"))]
        c.decide(not bad, f"{con}/all", f.where, "not all experiments are run")
        ends = [n for n in nodes(fl, "call") if n.d["name"] == "_return_from_successful_and_failed_exps"]
        p = find_path([fl.entry_node], [fl.exit_node], ends)
        c.decide(bool(ends) and p is None, f"{con}/evaluated", f.where, "not decided whether all have failed")
        rt = [n for n in nodes(fl, "return") if len(n.stack) == 1]
        for r in rt:
            c.decide(any(e.d["term"] in values(fl, r.d["value"]) for e in ends), f"{con}/returned", r.where, "does not return the results")
        for e in ends:
            a = list(e.d["args"]) + [dict(e.d["kwt"])[x] for x in ("successful_exp_stats", "failed_exps") if x in dict(e.d["kwt"])]
            if len(a) != 2:
                c.und(f"{con}/split", e.where, "how results are split is not visible")
                continue
            good, failed = a
            for lst, fail in ((good, False), (failed, True)):
                decide_list(c, fl, con, lst, fail, exps, marks, e)


def decide_list(c, fl, con, lst, fail, exps, marks, e):
    name = "failures" if fail else "results"
    aps = appended(fl, lst)
    entries = []  # (element, condition nodes, node, from loop)

    def failure(res):
        """Truth of the conditions if the result marks a failure / does not."""
        def mk(isf):
            def val(t):
                if t.k == "cmp" and t.a[0] in ("==", "is") and (t.a[1] in marks or t.a[2] in marks):
                    o = t.a[2] if t.a[1] in marks else t.a[1]
                    return isf if res is None or o is res else None
                return None
            return val
        return mk
    if lst.k == "comp" and not aps:
        conds = [x for x in subterms(lst) if x.k == "cmp" and (x.a[1] in marks or x.a[2] in marks)]
        c.decide(True if conds else None, f"{con}/{name}", e.where, "the split by failure is not visible")
        if conds:
            elt = lst.a[1]
            negs = any(x.k == "un" and x.a[0] == "not" and x.a[1] in conds for x in subterms(lst)) or any(x.k == "cmp" and x.a[0] in ("!=", "is not") for x in conds)
            c.decide(negs != fail, f"{con}/{name}", e.where, "failed and successful experiments are mixed up")
        return
    if not aps:
        c.decide(False if lst.k in ("list",) and not lst.a[0] else None, f"{con}/{name}", e.where, "nothing is collected")
        return
    for n in aps:
        x = n.d["args"][0]
        heads = [h for h in nodes(fl, "iter") if not h.d.get("comp") and find_path([h], [n]) and find_path([n], [h])]
        c.decide(bool(heads), f"{con}/{name}", n.where, "only one experiment is looked at")
        pair = any(is_call(y, "zip") for y in subterms(x)) or x.k in ("elem", "item")
        # guarded by the marker
        for isf in (True, False):
            val = failure(None)(isf)
            for h in heads:
                body = [m for m, l in h.succ if l not in ("done", "exc")]
                p = find_path(body, [n], [h], skip_start=False, edge_ok=assume(val))
                if isf == fail:
                    q_ = find_path(body, [h], [n], skip_start=False, edge_ok=assume(val))
                    c.decide(p is not None and q_ is None, f"{con}/{name}", n.where, f"a {'failed' if isf else 'successful'} experiment is not among the {name}")
                else:
                    c.decide(p is None, f"{con}/{name}", n.where, f"a {'failed' if isf else 'successful'} experiment is among the {name}")
                out = find_path(body, [fl.exit_node], [h], skip_start=False, edge_ok=assume(val))
                c.decide(out is None, f"{con}/{name}/all", n.where, "stops before the last experiment")
        safe = [y for y in closure(fl, x, conds=False) if y.k == "call" and "_safe_execute" in (last(y.a[0]) or "", *[last(z) or "" for z in subterms(y) if z.k == "attr"])]
        if fail:
            c.decide(bool([y for y in closure(fl, x, conds=False) if y is exps]) and not (x.k == "call" and safe), f"{con}/failed experiment", n.where, "not the experiment that failed")
        else:
            c.decide(bool(safe), f"{con}/result", n.where, "not the experiment's result")
        for h in heads:
            it = h.d["it"]
            zs = [y for y in subterms(it) if is_call(y, "zip")]
            for z in zs:
                mixed = [y for y in subterms(z) if is_call(y, "sorted", "reversed", "set", "shuffle") or y.k == "slice"]
                c.decide(not mixed, f"{con}/paired", h.where, "results are paired with other experiments")


@rule("H03")
def error_only_if_all_failed(c):
    """An error is raised exactly when no experiment succeeded; otherwise all results of successful experiments are returned."""
    k = c.p.cls("ExpLauncher")
    f = k.find("_return_from_successful_and_failed_exps")
    if f is None:
        raise AnalysisBroken("the decision whether all experiments failed is gone")
    fl = c.flow(f, k)
    ps = [P(x) for x in params_of(f) if x != "self"]
    good, failed = ps[0], ps[1]

    def val(g, b):
        def v(t):
            if t is good:
                return g
            if t is failed:
                return b
            if t.k == "call" and is_call(t, "len") and t.a[1][0] in (good, failed):
                return g if t.a[1][0] is good else b
            if t.k == "cmp":
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if x.k == "call" and is_call(x, "len") and x.a[1][0] in (good, failed):
                        r = g if x.a[1][0] is good else b
                        if y is const(0):
                            if t.a[0] == "==":
                                return not r
                            if t.a[0] == "<" and t.a[1] is y:
                                return r
                            if t.a[0] == "<" and t.a[2] is y:
                                return False
                        if y is const(1) and t.a[0] == "<" and t.a[2] is y:
                            return not r
            return None
        return v
    for g in (True, False):
        for b in (True, False):
            lv = reachable([fl.entry_node], edge_ok=assume(val(g, b)))
            con = f"results={'some' if g else 'none'},failures={'some' if b else 'none'}"
            if g:
                c.decide(fl.raise_exit not in lv or not [n for n in lv if n.kind == "raise"], con, f.where, "an error is raised although an experiment succeeded")
                rs = [n for n in lv if n.kind == "return"]
                c.decide(bool(rs) and all(resolve(n.d["value"], val(g, b)) is good or strip(n.d["value"], "list") is good for n in rs), con, f.where, "not all results are returned")
            elif b:
                c.decide(fl.exit_node not in lv and bool([n for n in lv if n.kind == "raise"]), con, f.where, "no error although all experiments failed")
            if g and b:
                lg = [n for n in lv if n.kind == "call" and n.d["name"] in ("error", "warning", "exception", "critical")]
                p = find_path([fl.entry_node], [fl.exit_node], lg, edge_ok=assume(val(g, b)))
                c.decide(bool(lg) and p is None, f"{con}/logged", f.where, "failures are not reported")


@rule("H03")
def launching_runs_what_it_is_given(c):
    """Launching runs the given experiments with the configured runner; the default runner runs the experiment and returns the trainer's result."""
    k = c.p.cls("ExpLauncher")
    f = k.find("launch")
    fl = c.flow(f, k, opaque=("_launch", "_safe_execute"))
    exps = P(params_of(f)[1])
    runs = [n for n in nodes(fl, "call") if n.d["fn"] is A("experiment_runner") or n.d["name"] in ("_launch", "_safe_execute") and n.d["recv"] is SELF]
    p = find_path([fl.entry_node], [fl.exit_node], runs)
    c.decide(bool(runs) and p is None, "launch/run", f.where, "experiments are not run")
    many = [n for n in runs if n.d["name"] == "_launch"]
    def one_val(one):
        def v(t):
            if t.k == "cmp":
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if x.k == "call" and is_call(x, "len") and x.a[1][0] is exps and y.k == "const":
                        if t.a[0] == "==" and y.a[0] == 1:
                            return one
                        if t.a[0] == "<" and t.a[1] is y and y.a[0] == 1:
                            return not one
                        if t.a[0] == "<" and t.a[2] is y and y.a[0] == 2:
                            return one
            return None
        return v
    lv = reachable([fl.entry_node], edge_ok=assume(one_val(False)))
    single = [n for n in runs if n not in many and n in lv]
    c.decide(bool(many) and not single, "launch/many", f.where, "several experiments are given but only one is run")
    for n in many:
        c.decide((list(n.d["args"]) + [v for _, v in n.d["kwt"]]) == [exps], "launch/experiments", n.where, "other experiments are launched")
    for r in nodes(fl, "return"):
        if len(r.stack) == 1:
            cl = closure(fl, r.d["value"], conds=False)
            c.decide(any(n.d["term"] in cl for n in runs), "launch/returned", r.where, "results are not returned")
    # the runner
    for kk in [k] + launchers(c):
        g = kk.methods.get("__init__")
        if g is None:
            continue
        a = g.node.args
        names = [x.arg for x in a.args]
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults, strict=True))
        dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults, strict=True) if d is not None})
        d = dfl.get("experiment_runner")
        if isinstance(d, ast.Lambda):
            body, arg = ast.unparse(d.body), d.args.args[0].arg
            ok = isinstance(d.body, ast.Attribute) and d.body.attr == "trainer_result" and isinstance(d.body.value, ast.Call) and ast.unparse(d.body.value.func) == f"{arg}.run"
            c.decide(True if ok else (False if "run" not in body or "trainer_result" not in body else None), f"{kk.name}/default runner", g.where, "does not run the experiment and return its result")
        il = c.flow(g, kk)
        st = setattrs(il, "experiment_runner", base=SELF)
        if st:
            c.decide(all(s.d["value"] is P("experiment_runner") for s in st), f"{kk.name}/runner", g.where, "another runner is used")
        sup = [n for n in nodes(il, "call") if n.d["name"] == "__init__" and n.d.get("is_super")]
        for s in sup:
            aa = list(s.d["args"]) + [v for _, v in s.d["kwt"]]
            c.decide(P("experiment_runner") in aa, f"{kk.name}/runner", s.where, "the given runner is dropped")
    # experiment results
    e = c.p.cls("Experiment")
    fl = c.flow("run", e, opaque=("create_experiment_world", "_watch_agent"))
    tr = [n for n in nodes(fl, "call") if n.d["name"] == "run" and n.d["recv"] is not None and n.d["recv"].k == "attr" and n.d["recv"].a[1] == "trainer"]
    if not tr:
        raise AnalysisBroken("Experiment.run does not train")
    val = lambda on: (lambda t: on if t is A("train", A("config")) else None)
    p = find_path([fl.entry_node], [fl.exit_node], tr, edge_ok=assume(val(True)))
    c.decide(p is None, "Experiment.run/trained", fl.entry.where, "no training although configured")
    c.decide(not any(n in reachable([fl.entry_node], edge_ok=assume(val(False))) for n in tr), "Experiment.run/not trained", fl.entry.where, "trains although it is switched off")
    for r in nodes(fl, "return"):
        if len(r.stack) > 1:
            continue
        t = r.d["value"]
        rk = cls_of(c, t)
        if rk is None:
            c.und("Experiment.run/result", r.where, "result is not built in view")
            continue
        b = bind(rk, t)
        v = resolve(b.get("trainer_result"), val(True))
        c.decide(None if v is None else (True if v in [n.d["term"] for n in tr] else (None if any(n.d["term"] in closure(fl, v) for n in tr) else False)), "Experiment.run/result", r.where, "not the trainer's result")
        w = b.get("world")
        c.decide(w is not None and all(n.d["recv"].a[0] is w for n in tr), "Experiment.run/world", r.where, "another world than the one trained")
    wt = [n for n in nodes(fl, "call") if n.d["name"] == "_watch_agent"]
    if wt:
        c.decide(find_path(wt, tr) is None, "Experiment.run/order", wt[0].where, "watched before it is trained")
    # collections and registered launchers
    ck = c.p.cls("ExperimentCollection")
    fl = c.flow("run", ck, opaque=("launch", "create_launcher"))
    ls = [n for n in nodes(fl, "call") if n.d["name"] == "launch"]
    p = find_path([fl.entry_node], [fl.exit_node], ls)
    c.decide(bool(ls) and p is None, "ExperimentCollection.run", fl.entry.where, "nothing is launched")
    for n in ls:
        c.decide((list(n.d["args"]) + [v for _, v in n.d["kwt"]]) == [A("experiments")], "ExperimentCollection.run/experiments", n.where, "not all experiments are launched")
    for r in nodes(fl, "return"):
        if len(r.stack) == 1:
            c.decide(any(n.d["term"] in values(fl, r.d["value"]) for n in ls), "ExperimentCollection.run/results", r.where, "results are not returned")
    rk = c.p.cls("RegisteredExpLauncher")
    fl = c.flow("create_launcher", rk)
    for x in rk.node.body:
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
            nm = x.targets[0].id

            def v(t, nm=nm):
                if t.k == "cmp" and t.a[0] in ("==", "is"):
                    for s, o in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                        if s is SELF and last(o):
                            return last(o) == nm
                return None
            out = [cls_of(c, resolve(n.d["value"], v)) for n in reachable([fl.entry_node], edge_ok=assume(v)) if n.kind == "return"]
            c.decide(None if None in out else bool(out) and all(nm.lower() in o.name.lower() for o in out), f"RegisteredExpLauncher.{nm}", fl.entry.where, f"creates {[o.name for o in out if o]}")


@rule("H03")
def collected_experiments_have_their_own_seeds(c):
    """Each experiment of a seeded collection is built from its own copy of the builder, with its own seeds and name, and all are collected."""
    k = c.p.cls("ExperimentBuilder")
    f = k.find("build_seeded_collection")
    if f is None:
        raise AnalysisBroken("seeded collections are gone")
    fl = c.flow(f, k, opaque=("build", "get_seeding_info_as_str", "copy"))
    bs = [n for n in nodes(fl, "call") if n.d["name"] == "build"]
    if not bs:
        raise AnalysisBroken("no experiments are built")
    num = P(params_of(f)[1])
    heads = [h for h in nodes(fl, "iter") if any(num is x for x in closure(fl, h.d["it"]))]
    heads += [h for h in nodes(fl, "branch") if any(num is x for x in closure(fl, h.d["cond"])) and find_path([h], [h]) is not None]
    c.decide(bool(heads), "build_seeded_collection/number", f.where, "not the requested number of experiments")
    for n in bs:
        r = n.d["recv"]
        own = r is not None and r.k == "call" and is_call(r, "copy", "deepcopy")
        inloop = [h for h in heads if find_path([h], [n]) and find_path([n], [h])] or [h for h in heads if h.d.get("comp")]
        c.decide(own, "build_seeded_collection/copy", n.where, "experiments share one builder, their seeds add up")
        if own:
            cp = [x for x in nodes(fl, "call") if x.d["term"] is r]
            for x in cp:
                ok = all(find_path([h], [x]) and find_path([x], [h]) for h in inloop)
                c.decide(ok, "build_seeded_collection/copy", x.where, "experiments share one copy")
        used = [x for x in nodes(fl, "call") if x.d["name"] == "get_seeding_info_as_str"] or [n]
        for attr in ("seed", "train_seed"):
            st = [s for s in setattrs(fl, attr) if s.d["base"].k == "attr" and s.d["base"].a[0] is r]
            p = None
            if st:
                for h in inloop:
                    body = [m for m, l in h.succ if l not in ("done", "exc") and (h.kind == "iter" or find_path([m], [h], skip_start=False) is not None)]
                    p = p or find_path(body, used, st, skip_start=False)
            c.decide(bool(st) and p is None, f"build_seeded_collection/{attr}", n.where, f"experiments have the same {attr}" if not st else f"is changed after the experiment was named: {describe(p) if p else ''}")
            for s in st:
                cl = closure(fl, s.d["value"])
                idx = [x for x in cl if x.k in ("elem", "idx") and x.a[1] in [h.d["lid"] for h in heads if h.kind == "iter"]]
                idx += [x for h in heads if h.kind == "branch" for x in subterms(h.d["cond"]) if x.k == "loopphi" and x in cl]
                old = any(x.k == "attr" and x.a[1] == attr for x in cl)
                c.decide(bool(idx) and old, f"build_seeded_collection/{attr}", s.where, "the experiments' seeds are the same" if not idx else "the configured seed is lost")
                if attr == "train_seed":
                    c.decide(any(x.k == "attr" and x.a[1] == "num_train_envs" for x in cl), f"build_seeded_collection/{attr}", s.where, "seeds of the environments of different experiments overlap")
        e = n.d["term"]
        nm = [s for s in setattrs(fl, "name", base=e)]
        c.decide(bool(nm) and all(any(is_call(x, "get_seeding_info_as_str") or x.k in ("elem", "idx", "loopphi") for x in closure(fl, s.d["value"])) for s in nm), "build_seeded_collection/name", n.where, "experiments have the same name, so they share a directory")
        aps = [x for x in nodes(fl, "call") if x.d["name"] == "append" and e in x.d["args"]]
        ret = [x for x in nodes(fl, "call") if (cls_of(c, x.d["term"]) or k).name == "ExperimentCollection"]
        ok = any(any(x.d["recv"] in y.d["args"] or x.d["recv"] in [v for _, v in y.d["kwt"]] for y in ret) for x in aps) or any(e in closure(fl, *y.d["args"]) for y in ret)
        if aps:
            for h in inloop:
                p = find_path([n], [h], aps)
                ok = ok and p is None
        c.decide(ok, "build_seeded_collection/collected", n.where, "experiments are missing from the collection")
    cp = k.find("copy")
    cl = c.flow(cp, k)
    for r in nodes(cl, "return"):
        if len(r.stack) == 1:
            t = r.d["value"]
            c.decide(t.k == "call" and is_call(t, "deepcopy") and SELF in t.a[1], "ExperimentBuilder.copy", r.where, "copies share their configuration")
    s = c.p.cls("Experiment").find("get_seeding_info_as_str")
    if s is not None:
        sl = c.flow(s, c.p.cls("Experiment"))
        cl = closure(sl, sl.ret_value)
        for t in (A("seed", A("config")), A("train_seed", A("sampling_config"))):
            c.decide(t in cl, f"seeding info/{t.a[1]}", s.where, "the seed is not part of the name")


@rule("H03")
def seeds_reach_the_environments(c):
    """The environments an experiment creates are seeded from the experiment's sampling configuration."""
    n = 0
    for k in c.p.subclasses(q(c, "EnvFactory"), strict=True):
        f = k.find("create_envs")
        if f is None:
            continue
        fl0 = c.flow("__init__", k) if k.find("__init__") else None
        if fl0 is None:
            continue
        own = {s.d["attr"] for s in setattrs(fl0, base=SELF) if "seed" in s.d["attr"] and s.d["value"].k == "param"}
        if not own:
            continue
        n += 1
        # who else sets them, or passes seeds when environments are created
        set_by = False
        for g in c.p.funcs.values() if hasattr(c.p.funcs, "values") else c.p.funcs:
            if not g.qual.startswith("tianshou.highlevel"):
                continue
            if g.node.name in ("__init__", "__setstate__"):
                continue
            for x in ast.walk(g.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in own and "env_factory" in ast.unparse(x.value):
                    set_by = True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "create_envs" and any("seed" in ast.unparse(y) for y in [*x.args, *[z.value for z in x.keywords]]):
                    set_by = True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and "seed" in x.func.attr and "env_factory" in ast.unparse(x.func.value):
                    set_by = True
        c.decide(set_by, f"{k.name}/seeds", f.where, f"keeps its own {', '.join(sorted(own))}: the seeds of the experiment's sampling configuration never reach the environments, so all experiments of a seeded collection use the same ones")
    if n == 0:
        c.ok("environment factories", "tianshou/highlevel/env.py")
