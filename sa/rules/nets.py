"""What the provided networks compute: the documented function of their parts, for every setting of their switches."""
from __future__ import annotations

import itertools

from ..canon import VIEWS, Canon, parse
from ..core import rule
from ..flow import NONE, Term, canon_cond, const, is_call, show, subterms
from ..query import arg, calls, closure, nodes, skey, values
from . import losses
from .losses import diff
from .util import P, SELF

NET = "tianshou.utils.net."
LSTM = "r = self.nn(x, (state['hidden'], state['cell'])) if has_state else self.nn(x)\n"
SIG = ("mu = self.mu(h) if self.unbounded else self.max_action * tanh(self.mu(h))\n"
       "sigma = exp(clamp(self.sigma(h), -20, 2)) if self.conditioned_sigma else exp(self.sigma_param + zeros_like(mu))\n")

# (class, method): (flags on self, flags on arguments being given, formula, what is checked: place -> name)
FORWARD = {
    ("common.MLP", "forward"): ((), (), "y = self.model(obs)", {"": "y"}),
    ("common.Net", "forward"): (("use_dueling", "softmax"), (), """
x = self.model(obs)
q = self.Q(x)
l = q - mean(q, dim=1) + self.V(x) if self.use_dueling else x
y = softmax(l, dim=-1) if self.softmax else l
""", {"0": "y", "1": "=state"}),
    ("common.Recurrent", "forward"): ((), ("state",), "x = self.fc1(obs)\n" + LSTM + "y = self.fc2(r[0][:, -1])\nh = r[1][0]\nk = r[1][1]", {"0": "y", "1.hidden": "h", "1.cell": "k"}),
    ("common.EnsembleLinear", "forward"): (("bias_weights",), (), "y = matmul(x, self.weight) + self.bias_weights if self.bias_weights else matmul(x, self.weight)", {"": "y"}),
    ("common.BranchingNet", "forward"): ((), (), "x = self.common(obs)\nb = each(elem(self.branches)(x))\ny = self.value(x) + b - mean(b, dim=2)", {"0": "y", "1": "=state"}),
    ("continuous.Actor", "forward"): ((), (), "p = self.preprocess(obs, state)\ny = self.max_action * tanh(self.last(p[0]))\ns = p[1]", {"0": "y", "1": "s"}),
    ("continuous.ActorProb", "forward"): (("unbounded", "conditioned_sigma"), (), "p = self.preprocess(obs, state)\nh = p[0]\n" + SIG + "s = p[1]", {"0.0": "mu", "0.1": "sigma", "1": "s"}),
    ("continuous.RecurrentActorProb", "forward"): (("unbounded", "conditioned_sigma"), ("state",), "x = obs\n" + LSTM + "h = r[0][:, -1]\n" + SIG + "n = r[1][0]\nk = r[1][1]", {"0.0": "mu", "0.1": "sigma", "1.hidden": "n", "1.cell": "k"}),
    ("continuous.Critic", "forward"): (("apply_preprocess_net_to_obs_only",), ("act",), """
o = self.preprocess(obs)[0] if self.apply_preprocess_net_to_obs_only else obs
j = cat([o, act]) if has_act else o
y = self.last(j) if self.apply_preprocess_net_to_obs_only else self.last(self.preprocess(j)[0])
""", {"": "y"}),
    ("continuous.RecurrentCritic", "forward"): ((), ("act",), "o = self.nn(obs)[0][:, -1]\ny = self.fc2(cat([o, act])) if has_act else self.fc2(o)", {"": "y"}),
    ("continuous.Perturbation", "forward"): ((), (), "n = self.phi * self.max_action * tanh(self.preprocess_net(cat([state, action]))[0])\ny = clamp(n + action, -self.max_action, self.max_action)", {"": "y"}),
    ("continuous.VAE", "forward"): ((), (), """
l = self.encoder(cat([state, action]))
mean = self.mean(l)
std = exp(clamp(self.log_std(l), -4, 15))
y = self.decode(state, mean + std * NORMAL)
""", {"0": "y", "1": "mean", "2": "std"}),
    ("continuous.VAE", "decode"): ((), ("latent_z",), "z = latent_z if has_latent_z else clamp(NORMAL, -0.5, 0.5)\ny = self.max_action * tanh(self.decoder(cat([state, z])))", {"": "y"}),
    ("discrete.Actor", "forward"): (("softmax_output",), (), "p = self.preprocess(obs, state)\nl = self.last(p[0])\ny = softmax(l, dim=-1) if self.softmax_output else l\ns = p[1]", {"0": "y", "1": "s"}),
    ("discrete.Critic", "forward"): ((), (), "y = self.last(self.preprocess(obs, state)[0])", {"": "y"}),
    ("discrete.ImplicitQuantileNetwork", "forward"): ((), (), "p = self.preprocess(obs, state)\ny = self.last(p[0] * self.embed_model(UNIFORM))\nu = UNIFORM\ns = p[1]", {"0.0": "y", "0.1": "u", "1": "s"}),
    ("discrete.FullQuantileFunction", "_compute_quantiles"): ((), (), "y = self.last(obs * self.embed_model(taus))", {"": "y"}),
    ("discrete.FullQuantileFunction", "forward"): (("training",), ("fractions",), """
p = self.preprocess(obs, state)
f = propose_model(p[0])
hats = fractions.tau_hats if has_fractions else f[1]
taus = fractions.taus if has_fractions else f[0]
q = self._compute_quantiles(p[0], hats)
t = self._compute_quantiles(p[0], taus[:, 1:-1]) if self.training else None
s = p[1]
""", {"0.0": "q", "0.2": "t", "1": "s"}),
    ("discrete.NoisyLinear", "forward"): (("training",), (), """
w = self.mu_W + self.sigma_W * outer(self.eps_q, self.eps_p) if self.training else self.mu_W
b = self.mu_bias + self.sigma_bias * self.eps_q if self.training else self.mu_bias
y = linear(x, w, b)
""", {"": "y"}),
    ("discrete.NoisyLinear", "f"): ((), (), "y = sign(NORMAL) * sqrt(abs(NORMAL))", {"": "y"}),
    ("discrete.IntrinsicCuriosityModule", "forward"): ((), (), """
a = self.feature_net(s1)
b = self.feature_net(s2)
h = self.forward_model(cat([a, one_hot(act, num_classes=self.action_dim)]))
e = 0.5 * sum((h - b) ** 2, 1)
i = self.inverse_model(cat([a, b]))
""", {"0": "e", "1": "i"}),
}
OPQ = ("forward", "decode", "_compute_quantiles", "to_torch")
# operations that are never just another way of writing what a formula has without them
MORE = {"sub", "cat", "softmax", "log_softmax", "tanh", "sigmoid", "sign", "sqrt", "dot", "logsumexp"}
DRAWS = {"randn": "NORMAL", "randn_like": "NORMAL", "normal": "NORMAL", "standard_normal": "NORMAL", "rand": "UNIFORM", "rand_like": "UNIFORM", "random_sample": "UNIFORM"}
# how the parts of a network name what they are called with
NAMED = {None: ("obs", "state", "info"), "decode": ("state", "latent_z"), "_compute_quantiles": ("obs", "taus")}
INPLACE = {"mul_", "sqrt_", "abs_", "add_", "sub_", "div_", "exp_", "clamp_", "sign_", "neg_", "tanh_"}


class Net(Canon):
    def call(self, t):
        f, args, kw = t.a[0], t.a[1], t.a[2]
        if f.k == "attr" and f.a[0].k == "param" and f.a[1] == "get" and args and args[0].k == "const" and isinstance(args[0].a[0], str):
            return self.form(P(args[0].a[0]))
        if (f.k == "attr" and f.a[0] is SELF or f.k == "param") and kw:
            d, out = dict(kw), list(args)
            for n in NAMED.get(f.a[1] if f.k == "attr" else None, NAMED[None])[len(out):]:
                if n not in d:
                    break
                out.append(d.pop(n))
            if len(out) != len(args):
                return self.form(Term("call", f, tuple(out), tuple(sorted(d.items())), t.a[3]))
        if f.k == "attr" and f.a[1] in INPLACE:
            return self.form(Term("call", Term("attr", f.a[0], f.a[1][:-1]), args, kw, t.a[3]))
        if f.k == "attr" and f.a[1] == "sign" and not args:
            return self.atom("sign", self.s(f.a[0]))
        return super().call(t)


def part(v, path):
    for p in path.split(".") if path else ():
        while is_call(v, "cast") and len(v.a[1]) == 2:
            v = v.a[1][1]
        if p.isdigit():
            if v.k not in ("tuple", "list") or len(v.a[0]) <= int(p):
                return None
            v = v.a[0][int(p)]
            continue
        if is_call(v, "Batch", "dict"):
            d = dict(v.a[2])
            if p in d:
                v = d[p]
                continue
            xs = list(v.a[1]) or [y for x, y in v.a[2] if x == "batch_dict"]
            if len(xs) != 1:
                return None
            v = xs[0]
        if v.k != "dict":
            return None
        got = [y for x, y in entries(v) if x is not None and x.k == "const" and x.a[0] == p]
        if len(got) != 1:
            return None
        v = got[0]
    return v


def entries(v):
    xs = v.a[0]
    return [(x[0], x[1]) for x in xs] if xs and isinstance(xs[0], tuple) else list(zip(v.a[0], v.a[1]))


def valuation(sett, given, extra, held):
    """Truth of a condition under a setting of switches; a switch is known by its attribute or by the constructor parameter kept in it."""
    name = lambda a: held.get(a, a)

    def val(t):
        if t.k == "boolop":
            vs = [cval(x) for x in t.a[1]]
            hard = t.a[0] != "and"
            return hard if hard in vs else None if None in vs else not hard
        if t.k == "un" and t.a[0] == "not":
            v = cval(t.a[1])
            return None if v is None else not v
        if t in extra:
            return extra[t]
        if t.k == "attr" and t.a[0] is SELF and name(t.a[1]) in sett:
            return sett[name(t.a[1])]
        if t.k == "param" and t.a[0] in given:
            return given[t.a[0]]
        if t.k == "cmp" and len(t.a) == 3 and NONE in t.a[1:]:
            x = t.a[1] if t.a[2] is NONE else t.a[2]
            v = None
            if x.k == "attr" and x.a[0] is SELF and name(x.a[1]) in sett:
                v = sett[name(x.a[1])]
            elif x.k == "param" and x.a[0] in given:
                v = given[x.a[0]]
            if v is not None and t.a[0] in ("is", "is not", "==", "!="):
                return v != (t.a[0] in ("is", "=="))
        return None

    def cval(t):
        x, pol = canon_cond(t)
        v = val(x)
        return None if v is None else v == pol
    return val


def companions(fl, known):
    """Conditions on the arguments alone, of unknown truth: the documented function does not depend on them."""
    out = set()
    for n in nodes(fl, "branch"):
        st = [n.d["cond"]]
        while st:
            t = canon_cond(st.pop())[0]
            if t.k == "boolop":
                st.extend(t.a[1])
            elif known(t) is None and t.k == "cmp":
                xs = list(subterms(t))
                parts = {x.a[0] for x in xs if x.k == "call"}
                if any(x.k == "param" and x is not SELF for x in xs) and not any(x.k == "attr" and x.a[0] is SELF and x.a[1] != "device" and x not in parts or is_call(x, "isinstance", "hasattr") for x in xs):
                    out.add(t)
    return sorted(out, key=skey)[:3]


def compare(fl, t, spec, val, alias, others=()):
    a, b = Net(fl, val, alias), Net(None, val, {})
    x, y = a.s(t), b.s(spec)
    if x == y:
        return True, x, y
    if "?" in x:
        return None, x, y
    for o in others:
        b.s(o)
    new = {h for h in a.heads if h not in b.heads and h[0] != "?" and h not in losses.SWAPS and h not in MORE and not h.startswith("self.")}
    return (None if new else False), x, y


@rule("P11")
def forwards(c):
    """The value a network returns is the documented function of its parts and arguments."""
    for (kq, m), (flags, gflags, text, what) in FORWARD.items():
        k = c.p.classes.get(NET + kq)
        if k is None:
            continue
        name = kq.rsplit(".", 1)[-1] if kq.count(".") and kq.rsplit(".", 1)[-1] not in ("Actor", "Critic") else kq
        f = k.find(m)
        if f is None:
            c.und(f"{name}.{m}", "not found")
            continue
        fl = c.flow(f, k, opaque=tuple(o for o in OPQ if o != m))
        held = losses.held_parameters(c, k)
        alias = {n.d["term"]: DRAWS[n.d["name"]] for n in calls(fl, *DRAWS)}
        rets = [n for n in nodes(fl, "return") if len(n.stack) == 1]
        if not rets:
            c.und(f"{name}.{m}", "returns nothing")
        for place, nm in what.items():
            con = f"{name}.{m}/{(nm[1:] if nm[0] == '=' else nm)}"
            oks, why, at = [], "", f.where
            for n in rets:
                v = part(n.d["value"], place)
                if v is None:
                    oks.append(None)
                    continue
                at = n.where
                free = companions(fl, valuation(dict.fromkeys(flags, True), dict.fromkeys(gflags, True), {}, held))
                for bits in itertools.product((True, False), repeat=len(flags) + len(gflags) + len(free)):
                    sett = dict(zip(flags, bits))
                    given = dict(zip(gflags, bits[len(flags):]))
                    val = valuation(sett, given, dict(zip(free, bits[len(flags) + len(gflags):])), held)
                    env = parse(text, {"self": SELF, "propose_model": P("propose_model")}, {**sett, **{f"self.{x}": y for x, y in sett.items()}, **{f"has_{x}": y for x, y in given.items()}})
                    want = P(nm[1:]) if nm[0] == "=" else env[nm]
                    ok, x, y = compare(fl, v, want, val, alias, [x for x in env.values() if isinstance(x, Term)])
                    oks.append(ok)
                    if ok is not True and (not why or ok is False and False not in oks[:-1]):
                        on = [x for x, y in {**sett, **given}.items() if y]
                        why = (f"with {', '.join(on)}: " if on else "") + diff(x, y)
            c.decide(False if False in oks else None if None in oks or not oks else True, con, at, why)


# ---------------------------------------------------------------- recurrent state
def chain(v):
    """The names of the view operations applied to a value, and the value under them."""
    ops = []
    while True:
        if v.k == "call" and v.a[0].k == "attr" and v.a[0].a[1] in VIEWS:
            ops.append((v.a[0].a[1], v.a[1]))
            v = v.a[0].a[0]
        elif v.k == "call" and v.a[0].k == "global" and v.a[0].a[0].rsplit(".", 1)[-1] in VIEWS and v.a[1]:
            ops.append((v.a[0].a[0].rsplit(".", 1)[-1], v.a[1][1:]))
            v = v.a[1][0]
        else:
            return ops, v


def swapped(ops):
    """Whether the first two axes end up exchanged (None: not known)."""
    odd = False
    for o, args in ops:
        ax = [x.a[0] for x in args if x.k == "const"]
        if o in ("transpose", "swapaxes") and len(ax) == 2:
            if set(ax) == {0, 1}:
                odd = not odd
            elif ax[0] != ax[1]:
                return None
        elif o == "permute" and ax[:2] == [1, 0]:
            odd = not odd
        elif o in ("transpose", "swapaxes", "permute", "reshape", "view", "T", "flatten", "squeeze", "unsqueeze"):
            return None
    return odd


@rule("P11")
def recurrent_state(c):
    """The state a recurrent network keeps is batch-first on both sides and carries no gradient from one call to the next."""
    for kn in ("common.Recurrent", "continuous.RecurrentActorProb"):
        k = c.p.classes.get(NET + kn)
        if k is None or k.find("forward") is None:
            continue
        f = k.find("forward")
        fl = c.flow(f, k)
        name = kn.rsplit(".", 1)[-1]
        for n in nodes(fl, "return"):
            if len(n.stack) != 1:
                continue
            for key in ("hidden", "cell"):
                v = part(n.d["value"], "1." + key)
                con = f"{name}/returned {key}"
                if v is None:
                    c.und(con, "not a dictionary or Batch written here")
                    continue
                for x in values(fl, v):
                    ops, src = chain(x)
                    known = any(z.k == "call" and z.a[0] == Term("attr", SELF, "nn") for z in subterms(src))
                    c.decide(True if any(o == "detach" for o, _ in ops) else False if known else None, con + "/no gradient", n.where, "the state is handed to the next call with its graph: the gradient of a later step reaches into earlier ones")
                    sw = swapped(ops)
                    c.decide(sw if sw is not False or known else None, con + "/batch first", n.where, "the state is returned with layers first, but is stored and given back with the batch first")
        for n in calls(fl, "nn", recv=lambda r: r is SELF):
            st = arg(n, 1, "hx")
            if st is None or st.k not in ("tuple", "list") or len(st.a[0]) != 2:
                continue
            for key, x in zip(("hidden", "cell"), st.a[0]):
                ops, src = chain(x)
                sw = swapped(ops)
                known = src.k == "sub" and src.a[1].k == "const"
                c.decide(sw if sw is not False or known else None, f"{name}/given {key}/layers first", n.where, "the stored state is batch-first, the recurrent layer expects layers first")


# ---------------------------------------------------------------- layers
def sequences(fl, t, busy=()):
    """The lists a value may be, as tuples of elements; None when not known."""
    if t in busy:
        return None
    if t.k == "phi":
        out = set()
        for x in t.a[0]:
            s = sequences(fl, x, busy)
            if s is None:
                return None
            out |= s
        return out
    if t.k in ("bin", "ibin") and t.a[0] == "+":
        a, b = sequences(fl, t.a[1], busy), sequences(fl, t.a[2], busy)
        return None if a is None or b is None or len(a) * len(b) > 400 else {x + y for x in a for y in b}
    if t.k in ("list", "tuple"):
        if any(n.d.get("name") in ("append", "extend", "insert") and n.d.get("recv") is t for n in nodes(fl, "call")):
            return None
        out = {()}
        for x in t.a[0]:
            if x.k == "star":
                s = sequences(fl, x.a[0], busy)
                if s is None:
                    return None
                out = {a + b for a in out for b in s}
            elif x.k == "phi":
                out = {a + (y,) for a in out for y in x.a[0]}
            else:
                out = {a + (x,) for a in out}
        return out
    return None


def maker(t):
    return t.a[0].a[0] if t.k == "call" and t.a[0].k == "param" else None


@rule("P11")
def blocks(c):
    """A block is the linear layer, then the normalisation it was given, then the activation it was given, each with its own arguments."""
    q = NET + "common.miniblock"
    if q in c.p.funcs:
        fl = c.flow(q)
        seqs = sequences(fl, fl.ret_value) if fl.ret_value is not None else None
        at = fl.entry.where
        if seqs is None or any(maker(x) is None for s in seqs for x in s):
            c.und("miniblock/order", "the list of layers is not recognised")
        else:
            names = {tuple(maker(x) for x in s) for s in seqs}
            L, N, A_ = "linear_layer", "norm_layer", "activation"
            bad = names - {(L,), (L, N), (L, A_), (L, N, A_)}
            c.decide(not bad, "miniblock/order", at, f"a block may be {sorted(bad)[:2]}")
            c.decide(names >= {(L,), (L, N), (L, A_), (L, N, A_)}, "miniblock/all parts", at, f"only {sorted(names)}")
            verdicts = {}

            def note(ok, con, why):
                verdicts.setdefault(con, []).append((ok, why))
            for s in seqs:
                for x in s:
                    own = {"norm_layer": "norm_args", "activation": "act_args"}.get(maker(x))
                    used = {y.a[0] for z in (*x.a[1], *[w for _, w in x.a[2]]) for y in subterms(z) if y.k == "param" and y.a[0] in ("norm_args", "act_args")}
                    note(not (used - {own}), f"miniblock/{maker(x)}/own arguments", f"{maker(x)} is made with {sorted(used - {own})}")
                    if maker(x) == "linear_layer":
                        note([y for y in x.a[1]] == [P("input_size"), P("output_size")] if len(x.a[1]) == 2 and not x.a[2] else None, "miniblock/linear/sizes", "the linear layer does not map the input to the output size")
                    if maker(x) == "norm_layer":
                        note((x.a[1][0] is P("output_size") or None if x.a[1][0] is not P("input_size") else False) if x.a[1] else None, "miniblock/norm/size", "the normalisation is not of the block's output")
            for con, vs in sorted(verdicts.items()):
                oks = [o for o, _ in vs]
                c.decide(False if False in oks else None if None in oks else True, con, at, next((w for o, w in vs if o is False), ""))
    k = c.p.classes.get(NET + "common.MLP")
    if k is None:
        return
    fl = c.flow("__init__", k, opaque=("miniblock",))
    opts = ("norm_layer", "norm_args", "activation", "act_args", "linear_layer")
    blk = calls(fl, "miniblock")
    if not blk:
        c.und("MLP/blocks", "no call of miniblock")
    for n in blk:
        for o in opts:
            v = arg(n, name=o)
            if v is None:
                c.bad(f"MLP/{o}", n.where, f"{o} does not reach the blocks")
                continue
            used = {x.a[0] for x in closure(fl, v) if x.k == "param" and x.a[0] in opts}
            c.decide(used == {o} if used else None, f"MLP/{o}", n.where, f"the blocks' {o} is made of {sorted(used)}")
        for o, want in (("input_size", (NONE, const(-1))), ("output_size", (const(1), NONE))):
            v = arg(n, name=o)
            ok = None
            if v is not None and v.k in ("elem", "item", "val"):
                for s in subterms(v):
                    if s.k == "sub" and s.a[1].k == "slice":
                        ok = tuple(s.a[1].a[:2]) == want
            c.decide(ok, f"MLP/{o}", n.where, f"the {o} of a block is {show(v) if v is not None else None}")
