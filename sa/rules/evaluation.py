"""Reading logged experiments back, and evaluating them."""
from __future__ import annotations

from ..alias import Alias
from ..core import rule
from ..flow import NONE, Term, canon_cond, children, const, is_call, subterms
from ..query import arg, calls, closure, nodes, reachable, skey
from .util import P, SELF, live, resolve, select

RES, STATS = "RLiableExperimentResult", "LoggedCollectStats"
SCOPES = ("TEST", "TRAIN")


def scope_of(t):
    """The data scopes whose logged data a value is taken from."""
    out = set()
    for x in subterms(t):
        if x.k == "sub":
            i = x.a[1]
            nm = i.a[1] if i.k == "attr" else i.a[0].rsplit(".", 1)[-1] if i.k == "global" else str(i.a[0]).upper() if i.k == "const" else None
            if nm in SCOPES:
                out.add(nm)
    return out


def contents(fl, t, seen=None):
    """The term and, for lists filled in place and loop-carried values in it, what goes into them."""
    seen = set() if seen is None else seen
    out, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add(x)
        if x.k == "loopphi":
            st += [y for y in fl.loops.get(x, ())]
        if x.k == "list" and not x.a[0]:
            st += [n.d["args"][0] for n in nodes(fl, "call") if n.d["name"] in ("append", "extend") and n.d["recv"] is x and n.d["args"]]
        st += [y for y in children(x) if isinstance(y, Term)]
    return out


def ctor(fl, *names):
    return [n for n in nodes(fl, "call") if n.d["name"] in names or (n.d["cls"] is not None and n.d["cls"].name in names)]


@rule("L02")
def unknown_entries_are_ignored(c):
    """Statistics are rebuilt from all and only the entries that are fields, nested statistics under their own name, and the dictionary that was read is not changed."""
    if not c.p.has_cls(STATS):
        return
    fl = c.flow("from_data_dict", STATS)
    con = f"{STATS}.from_data_dict"
    data = P([q for q in fl.entry.params() if q not in ("self", "cls")][0])
    for n, _ in [(m, m) for m in nodes(fl) if m.kind in ("call", "setsub", "delsub")]:
        touched = n.kind == "call" and n.d["recv"] is data and n.d["name"] in ("pop", "popitem", "clear", "update", "setdefault", "__setitem__", "__delitem__") or n.kind in ("setsub", "delsub") and n.d["base"] is data
        if touched:
            c.bad(f"{con}/argument", n.where, "the caller's dictionary is changed")
            break
    else:
        c.ok(f"{con}/argument", fl.entry.where)
    made = [n for n in ctor(fl, STATS) if n.d["kw"].get("**") is not None or any(k == "**" for k, _ in n.d["term"].a[2])]
    if not made:
        c.und(con, "the statistics are built in another way")
        return
    n = made[-1]
    v = dict(n.d["term"].a[2]).get("**")
    pairs = []
    if v.k == "comp" and v.a[0] == "dict" and v.a[1].k == "tuple":
        pairs = [(v.a[1].a[0], v.where if hasattr(v, "where") else n.where)]
    else:
        pairs = [((m.d["index"], m.d["value"]), m.where) for m in nodes(fl, "setsub") if m.d["base"] is v]
    if not pairs:
        c.und(f"{con}/values", "the values are passed in another way")
    for (k, x), where in pairs:
        alts = [y for y in leaves(x)]
        bad = []
        for y in alts:
            inner = dict(y.a[2]).get("**") if y.k == "call" else y
            inner = inner if inner is not None else y.a[1][0] if y.k == "call" and y.a[1] else y
            same = k.k == "key" and inner.k == "val" and inner.a == k.a or inner.k == "sub" and inner.a[1] is k
            bad.append(False if not same and inner.k in ("val", "sub") else None if not same else True)
        c.decide(all(bad) if None not in bad else False if False in bad else None, f"{con}/values", where, "a field gets the value of another entry")
        tests = [b for b in nodes(fl, "branch") if (lambda q: q.k == "cmp" and q.a[0] in ("in", "not in") and q.a[1] is k)(canon_cond(b.d["cond"])[0])]
        tests += [m for m in nodes(fl, "call") if m.d["name"] in ("hasattr", "intersection", "__contains__")]
        names = [m for m in nodes(fl, "call") if m.d["name"] in ("fields", "get_type_hints", "signature")] or any(x.k == "attr" and x.a[1] in ("__dataclass_fields__", "__annotations__") for m in nodes(fl, "branch") for x in subterms(m.d["cond"]))
        c.decide(True if tests and names else False if not tests and k.k == "key" else None, f"{con}/only fields", where, "entries that are not fields are passed on")
        for b in tests:
            if b.kind != "branch":
                continue
            q, pol = canon_cond(b.d["cond"])
            inside = (q.a[0] == "in") == pol
            # the building of the entry is reached from the branch only when the key is a field
            use = [m for m in nodes(fl) if m.kind == "setsub" and m.d["base"] is v or m.kind == "call" and m.d["name"] not in ("items", "fields") and m.d["cls"] is not None and m.d["cls"].name != STATS]
            wrong = "F" if inside else "T"
            for m in use:
                r = reachable([b], edge_ok=lambda s, d, l: l != "back" and not (s is b and l != wrong))
                heads = {h for h in nodes(fl, "iter")}
                r = reachable([b], avoid=lambda z: z in heads, edge_ok=lambda s, d, l: not (s is b and l != wrong))
                c.decide(m not in r, f"{con}/kept entries", m.where, "what is kept are the entries that are not fields")


def leaves(t):
    return [y for x in t.a[0] for y in leaves(x)] if t.k == "phi" else [t]


FIELDS = {"test_episode_returns_RE": ("TEST", "returns_stat.mean"), "train_episode_returns_RE": ("TRAIN", "returns_stat.mean"), "env_steps_E": ("TEST", "env_step"), "env_steps_train_E": ("TRAIN", "env_step")}


def last_cut(t):
    """Bound of the outermost slice x[:bound]."""
    while is_call(t, "array", "asarray", "stack") and (t.a[1] or t.a[0].k == "attr"):
        t = t.a[1][0]
    if t.k == "comp":
        t = t.a[1]
    if t.k == "sub" and t.a[1].k == "slice":
        return t.a[1].a[1]
    return None


@rule("L02")
def results_come_from_their_own_scope(c):
    """Test returns and steps are those logged by tests, training returns and steps those logged by training, cut to a common length."""
    if not c.p.has_cls(RES):
        return
    fl = c.flow("load_from_disk", RES, opaque=("from_data_dict", "from_directory"))
    con = f"{RES}.load_from_disk"
    made = [n for n in ctor(fl, RES) if "exp_dir" in (n.d["kw"] or {}) or n.d["args"]]
    order = ["exp_dir", "test_episode_returns_RE", "train_episode_returns_RE", "env_steps_E", "env_steps_train_E"]
    cls = c.p.cls(RES)
    names = [x if isinstance(x, str) else x.name for x in (cls.fields() or ())] or order
    for n in made[:1]:
        got = dict(n.d["kw"])
        for i, a in enumerate(n.d["args"]):
            got.setdefault(names[i], a)
        for f, (scope, what) in FIELDS.items():
            t = got.get(f)
            if t is None:
                c.und(f"{con}/{f}", "not passed by name")
                continue
            inside = contents(fl, t)
            # the values themselves, not what they are cut to: appended or carried values
            vals = [x for x in inside if x.k == "attr" and is_call(root(x), "from_data_dict")]
            own = [x for x in vals if chain(x) == what]
            sc = set().union(*[scope_of(x) for x in own]) if own else set()
            c.decide(True if sc == {scope} else False if own or vals else None, f"{con}/{f}", n.where, f"it is made of {sorted({chain(x) for x in vals})} of {sorted(set().union(*[scope_of(x) for x in vals]) if vals else ())}")
        c.decide(True if got.get("exp_dir") is P("exp_dir") else False if got.get("exp_dir") is not None else None, f"{con}/exp_dir", n.where, "the result is given another directory")
        for lim in (None, 1):
            def val(t):
                if t is P("max_env_step"):
                    return lim is not None
                if t.k == "cmp" and t.a[0] in ("is", "is not", "==", "!=") and P("max_env_step") in t.a and NONE in t.a:
                    return (lim is None) == (t.a[0] in ("is", "=="))
                return None
            for a, b in (("test_episode_returns_RE", "env_steps_E"), ("train_episode_returns_RE", "env_steps_train_E")):
                if a in got and b in got:
                    x, y = (last_cut(resolve(got[z], val)) for z in (a, b))
                    c.decide(None if x is None or y is None else True if skey(x) == skey(y) else False, f"{con}/{a} cut/{lim}", n.where, "returns and steps are cut to different lengths")
    if not made:
        c.und(con, "the result is built elsewhere")


def root(t):
    while t.k == "attr":
        t = t.a[0]
    return t


def chain(t):
    out = []
    while t.k == "attr":
        out.append(t.a[1])
        t = t.a[0]
    return ".".join(reversed(out))


@rule("L02")
def evaluated_data_is_that_of_the_scope(c):
    """For a scope, the steps and returns handed to the evaluation library are those of that scope, under the algorithm's name."""
    if not c.p.has_cls(RES):
        return
    k = c.p.cls(RES)
    f = k.find("_get_rliable_data")
    if f is None:
        c.und(f"{RES}._get_rliable_data", "not found")
        return
    fl = c.flow(f, k)
    for s, steps, rets in (("TEST", "env_steps_E", "test_episode_returns_RE"), ("TRAIN", "env_steps_train_E", "train_episode_returns_RE")):
        def val(t):
            if t.k == "cmp" and t.a[0] in ("==", "!=", "is", "is not") and P("scope") in t.a:
                o = [x for x in t.a[1:] if x is not P("scope")]
                nm = o[0].a[0].rsplit(".", 1)[-1] if o and o[0].k == "global" else o[0].a[1] if o and o[0].k == "attr" else None
                if nm in SCOPES:
                    return (nm == s) == (t.a[0] in ("==", "is"))
            return None
        L = live(fl, val)
        for n in nodes(fl, "return"):
            if n in L and len(n.stack) == 1:
                v = resolve(n.d["value"], val)
                if v.k != "tuple" or len(v.a[0]) != 3:
                    c.und(f"{RES}._get_rliable_data/{s}", "returns another shape of result")
                    continue
                d, e, th = v.a[0]
                c.decide(e is Term("attr", SELF, steps) or (None if e.k != "attr" else False), f"{RES}._get_rliable_data/{s} steps", n.where, f"they are {e!r}")
                if d.k == "dict" and len(d.a[0]) == 1:
                    r = d.a[0][0][1]
                    c.decide(r is Term("attr", SELF, rets) or (None if r.k != "attr" else False), f"{RES}._get_rliable_data/{s} returns", n.where, f"they are {r!r}")
                else:
                    c.und(f"{RES}._get_rliable_data/{s} returns", "given in another form")
                ends = {x for x in subterms(th) if x.k == "attr" and x.a[0] is SELF and x.a[1] in FIELDS}
                c.decide(True if ends == {Term("attr", SELF, rets)} else None if not ends else False, f"{RES}._get_rliable_data/{s} thresholds", n.where, f"they are taken from {sorted(x.a[1] for x in ends)}")


@rule("L02")
def requests_are_forwarded(c):
    """Evaluation functions hand the caller's scope, name, thresholds and plotting choices on unchanged, save only when asked and show only when asked."""
    if not c.p.has_cls(RES):
        return
    k = c.p.cls(RES)
    mod = k.module.name
    fn = c.p.func(f"{mod}.load_and_eval_experiments")
    if fn is not None:
        fl = c.flow(fn, opaque=("load_from_disk", "eval_results"))
        tgt = k.find("eval_results")
        ns = calls(fl, "eval_results")
        if not ns:
            c.und("load_and_eval_experiments", "no evaluation found")
        for n in ns:
            ps = [q for q in tgt.params() if q != "self"]
            for want in ("show_plots", "save_plots"):
                v = arg(n, ps.index(want), want) if want in ps else None
                c.decide(True if v is P(want) else False if v is None or v.k == "const" or v.k == "param" else None, f"load_and_eval_experiments/{want}", n.where, f"the caller's {want} is not used")
            v = arg(n, ps.index("scope"), "scope")

            def both(t):
                return None
            guard = [b for b in nodes(fl, "branch") if any(x is const("both") for x in subterms(b.d["cond"]))]
            if v is not None and v is not P("scope") and v.k in ("global", "attr", "elem"):
                c.decide(bool(guard) or None, f"load_and_eval_experiments/scope", n.where, "the caller's scope is not used")
            else:
                c.decide(True if v is P("scope") else False if v is None else None, f"load_and_eval_experiments/scope", n.where, "the caller's scope is not used")
        both_scopes = {(v.a[0].rsplit(".", 1)[-1] if v.k == "global" else v.a[1]) for n in ns for v in [arg(n, ps.index("scope"), "scope")] if v is not None and v.k in ("global", "attr")}
        if both_scopes:
            c.decide(both_scopes == set(SCOPES), "load_and_eval_experiments/both", ns[0].where, f"both scopes means {sorted(both_scopes)}")
        for n in calls(fl, "load_from_disk"):
            ps = [q for q in k.find("load_from_disk").params() if q != "cls"]
            a = {x: arg(n, i, x) for i, x in enumerate(ps)}
            c.decide(a.get("exp_dir") is P(fl.entry.params()[0]) and a.get("max_env_step") is P("max_env_step"), "load_and_eval_experiments/load", n.where, "the directory or step limit is not the caller's")
    f = k.find("eval_results")
    if f is None:
        return
    fl = c.flow(f, k, opaque=("_get_rliable_data",))
    g = k.find("_get_rliable_data")
    for n in calls(fl, "_get_rliable_data"):
        ps = [q for q in g.params() if q != "self"]
        for i, q in enumerate(ps):
            v = arg(n, i, q)
            c.decide(True if v is P(q) else False if v is None or v.k in ("const", "param", "global") else None, f"{RES}.eval_results/{q}", n.where, f"{q} is not the caller's")
    for flag, names in (("save_plots", ("savefig",)), ("show_plots", ("show",))):
        L = live(fl, lambda t: False if t is P(flag) else None)
        ns = calls(fl, *names)
        for n in ns:
            c.decide(n not in L, f"{RES}.eval_results/{flag}", n.where, f"happens without {flag}")
        L = live(fl, lambda t: True if t is P(flag) else None)
        c.decide(sum(n in L for n in ns) >= 1 if ns else None, f"{RES}.eval_results/{flag} done", fl.entry.where, f"{flag} does nothing")
    paths = {}
    for n in calls(fl, "savefig"):
        fig = n.d["recv"]
        key = skey(n.d["args"][0]) if n.d["args"] else None
        paths.setdefault(key, []).append((fig, n))
    for key, xs in paths.items():
        c.decide(len({skey(x) for x, _ in xs}) == 1, f"{RES}.eval_results/files", xs[0][1].where, "two figures are saved under one name")


@rule("L02")
def restored_values_stand_under_their_own_name(c):
    """Each logged series is restored, complete and in order, at the place its name denotes, with the separator that was used to write it."""
    if not c.p.has_cls("TensorboardLogger"):
        return
    k = c.p.cls("TensorboardLogger")
    fl = c.flow("restore_logged_data", k)
    con = "TensorboardLogger.restore_logged_data"
    items = calls(fl, "Items", "Scalars")
    keys = calls(fl, "Keys", "Tags")
    if not items or not keys:
        c.und(con, "the series are read in another way")
        return
    sets = [n for n in nodes(fl, "setsub") if any(x is items[0].d["term"] for x in subterms(n.d["value"]))]
    if not sets:
        c.und(f"{con}/name", "the values are stored in another way")
    for n in sets:
        i = n.d["index"]
        key = items[0].d["args"][0] if items[0].d["args"] else None
        splits = [x for x in subterms(i) if is_call(x, "split", "rsplit")]
        own = splits and all(x.a[0].k == "attr" and x.a[0].a[0] is key for x in splits)
        last = i.k == "sub" and i.a[1] is const(-1) or i.k == "item" and i.a[1] == -1 or i.k == "un"
        c.decide(True if own and last else False if splits and (not own or i.k in ("sub", "item")) else None, f"{con}/name", n.where, "the values are stored under another name")
        vals = {x.a[1] for x in subterms(n.d["value"]) if x.k == "attr" and x.a[0].k == "elem"}
        c.decide(True if vals == {"value"} else None if not vals else False, f"{con}/value", n.where, f"what is stored is {sorted(vals)}")
        seps = {x.a[1][0] for x in splits if x.a[1]}
        # the intermediate levels are those before the last one
        its = [m for m in nodes(fl, "iter") if any(is_call(x, "split") for x in subterms(m.d["it"]))]
        for m in its:
            t = m.d["it"]
            while is_call(t, "enumerate", "list", "tuple", "iter") and t.a[1]:
                t = t.a[1][0]
            c.decide(True if t.k == "sub" and t.a[1].k == "slice" and t.a[1].a[1] is const(-1) and t.a[1].a[0] in (NONE, const(0)) else False if t.k == "sub" or is_call(t, "split") else None, f"{con}/levels", m.where, "the levels are not those before the last part of the name")
        wr = set()
        f = k.find("prepare_dict_for_logging")
        w = k.find("write")
        for g in (f, w):
            if g is None:
                continue
            gl = c.flow(g, k)
            for q in nodes(gl, "call"):
                if q.d["name"] == "join" and q.d["recv"] is not None and q.d["recv"].k == "const":
                    wr.add(q.d["recv"])
        kd = c.p.method(k, "prepare_dict_for_logging") if False else None
        sep = {x for x in wr if isinstance(x.a[0], str)}
        if sep:
            c.decide(bool(seps) and seps <= sep | {const("/")} and sep <= seps | {const("/")}, f"{con}/separator", n.where, "names are taken apart at another separator than they were put together with")
    # every level that is missing is made, existing ones are kept
    for n in nodes(fl, "setsub"):
        if n not in sets and n.d["value"].k == "dict" and not n.d["value"].a[0]:
            inside = [b for b in nodes(fl, "branch") if any(x.k == "cmp" and x.a[0] in ("in", "not in") for x in subterms(b.d["cond"]))]
            c.decide(True if inside else False, f"{con}/existing levels", n.where, "a level that exists already is replaced by an empty one")
