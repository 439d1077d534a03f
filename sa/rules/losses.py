"""What each algorithm optimises: losses, bootstrap targets and derived per-transition quantities against their formulas.

Both the value found in the program and the formula are brought into the same normal form (sa/canon.py), separately for every
setting of the flags the formula depends on.  They differ only when the program computes something else.
"""
from __future__ import annotations

import itertools

from ..canon import Canon, parse
from ..core import rule
from ..flow import NONE, Term, canon_cond, const, is_call, subterms
from ..program import AnalysisBroken
from ..query import calls, nodes, reachable, setattrs
from .policies import NOGRAD, OPQ, init_flow, policies
from .util import A, P, SELF, live, resolve, returned

MSE = "mse_{0} = mean((self.{0}(batch.obs, batch.act) - batch.returns) ** 2 * batch.weight)\n"
QUANT = ("cur = take(self(batch).logits, batch.act)\nd = batch.returns - cur\n"
         "ql = mean(batch.weight * mean(sum(huber(batch.returns, cur, reduction='none') * abs({0} - (d <= 0)), dim=-1), dim=1))\n")
ALPHA = "alpha_loss = -mean(self.log_alpha * ({0} + self.target_entropy))\n"
PPO = """
dist = self(batch).dist
adv = (batch.adv - mean(batch.adv)) / (std(batch.adv) + self._eps) if self.norm_adv else batch.adv
ratio = exp(dist.log_prob(batch.act) - batch.logp_old)
surr = min(ratio * adv, clamp(ratio, 1 - self.eps_clip, 1 + self.eps_clip) * adv)
dual = where(adv < 0, max(surr, self.dual_clip * adv), surr) if self.dual_clip else surr
value = self.critic(batch.obs)
vclip = batch.v_s + clamp(value - batch.v_s, -self.eps_clip, self.eps_clip)
vf = max((batch.returns - value) ** 2, (batch.returns - vclip) ** 2) if self.value_clip else (batch.returns - value) ** 2
loss = mean(-dual) + self.vf_coef * mean(vf) - self.ent_coef * mean(dist.entropy())
"""
PPO_FLAGS = ("norm_adv", "dual_clip", "value_clip")
NEXT = "nxt = Batch(obs=buffer[indices].obs_next)\n"

# class: (flags, formula text, names of the losses in order of their back-propagation)
LOSSES = {
    "PGPolicy": ((), "loss = -mean(self(batch).dist.log_prob(batch.act) * batch.returns)", ("loss",)),
    "A2CPolicy": ((), "dist = self(batch).dist\nloss = -mean(dist.log_prob(batch.act) * batch.adv) + self.vf_coef * mse(batch.returns, self.critic(batch.obs)) - self.ent_coef * mean(dist.entropy())", ("loss",)),
    "PPOPolicy": (PPO_FLAGS, PPO, ("loss",)),
    "GAILPolicy": (PPO_FLAGS, PPO + "xb = self.expert_buffer.sample(len(batch) // self.disc_update_num)[0]\n"
                   "disc = -mean(logsigmoid(-self.disc(batch))) - mean(logsigmoid(self.disc(xb)))", ("disc", "loss")),
    "NPGPolicy": ((), "loss = mse(batch.returns, self.critic(batch.obs))", ("loss",)),
    "TRPOPolicy": ((), "loss = mse(batch.returns, self.critic(batch.obs))", ("loss",)),
    "DQNPolicy": (("clip_loss_grad",), "q = take(self(batch).logits, batch.act)\nloss = huber(q, batch.returns) if self.clip_loss_grad else mean((batch.returns - q) ** 2 * batch.weight)", ("loss",)),
    "C51Policy": ((), "loss = -mean(batch.weight * sum(self._target_dist(batch) * log(take(self(batch).logits, batch.act) + 1e-8), dim=1))", ("loss",)),
    "QRDQNPolicy": ((), QUANT.format("self.tau_hat"), ("ql",)),
    "IQNPolicy": ((), QUANT.format("self(batch).taus"), ("ql",)),
    "FQFPolicy": ((), QUANT.format("self(batch).fractions.tau_hats") + """
hats = take(self(batch).logits, batch.act)
qs = take(self(batch).quantiles_tau, batch.act)
v1 = qs - hats[:, :-1]
v2 = qs - hats[:, 1:]
s1 = qs > cat([hats[:, :1], qs[:, :-1]])
s2 = qs < cat([qs[:, 1:], hats[:, -1:]])
grad = where(s1, v1, -v1) + where(s2, v2, -v2)
fl = mean(sum(grad * self(batch).fractions.taus[:, 1:-1], dim=1)) - self.ent_coef * mean(self(batch).fractions.entropies)
""", ("fl", "ql")),
    "BranchingDQNPolicy": ((), "q = self(batch).logits\nm = zeros_like(q).scatter_(-1, batch.act, 1)\nloss = mean(mean(sum((batch.returns * m - q * m) ** 2, dim=-1), dim=-1) * batch.weight)", ("loss",)),
    "DDPGPolicy": ((), MSE.format("critic") + "al = -mean(self.critic(batch.obs, self(batch).act))", ("mse_critic", "al")),
    "TD3Policy": ((), MSE.format("critic") + MSE.format("critic2") + "al = -mean(self.critic(batch.obs, self(batch, eps=0.0).act))", ("mse_critic", "mse_critic2", "al")),
    "TD3BCPolicy": ((), MSE.format("critic") + MSE.format("critic2") + "act = self(batch, eps=0.0).act\nq = self.critic(batch.obs, act)\nal = -self.alpha / mean(abs(q)) * mean(q) + mse(act, batch.act)", ("mse_critic", "mse_critic2", "al")),
    "SACPolicy": ((), MSE.format("critic") + MSE.format("critic2") + "r = self(batch)\nal = mean(self.alpha * r.log_prob - min(self.critic(batch.obs, r.act), self.critic2(batch.obs, r.act)))\n" + ALPHA.format("r.log_prob"),
                  ("mse_critic", "mse_critic2", "al", "alpha_loss")),
    "REDQPolicy": ((), MSE.format("critic") + "r = self(batch)\nal = mean(self.alpha * r.log_prob - mean(self.critic(batch.obs, r.act), dim=0))\n" + ALPHA.format("r.log_prob"), ("mse_critic", "al", "alpha_loss")),
    "DiscreteSACPolicy": ((), "c1 = mean((take(self.critic(batch.obs), batch.act) - batch.returns) ** 2 * batch.weight)\nc2 = mean((take(self.critic2(batch.obs), batch.act) - batch.returns) ** 2 * batch.weight)\n"
                          "dist = self(batch).dist\nal = -mean(self.alpha * dist.entropy() + sum(dist.probs * min(self.critic(batch.obs), self.critic2(batch.obs)), dim=-1))\n" + ALPHA.format("-dist.entropy()"),
                          ("c1", "c2", "al", "alpha_loss")),
    "ImitationPolicy": ((("_action_type", ("continuous", "discrete")),), "loss = mse(self(batch).act, batch.act) if self._action_type == 'continuous' else nll(log_softmax(self(batch).logits, dim=-1), batch.act)", ("loss",)),
    "ICMPolicy": ((), "w = self.forward_loss_weight\nloss = self.lr_scale * ((1 - w) * nll(log_softmax(batch.policy.act_hat, dim=-1), batch.act) + w * mean(batch.policy.mse_loss))", ("loss",)),
    "DiscreteBCQPolicy": ((), "r = self(batch)\nloss = huber(take(r.q_value, batch.act), batch.returns) + nll(log_softmax(r.imitation_logits, dim=-1), batch.act) + self._imitation_logits_penalty * mean(r.imitation_logits ** 2)", ("loss",)),
    "DiscreteCQLPolicy": ((), QUANT.format("self.tau_hat") + "q = self.compute_q_value(self(batch).logits, None)\nloss = ql + self.min_q_weight * (mean(logsumexp(q, dim=1)) - mean(gather(q, 1, batch.act)))", ("loss",)),
    "DiscreteCRRPolicy": ((("_policy_improvement_mode", ("exp", "binary", "all")),), """
q = self.critic(batch.obs)
qa = take(q, batch.act)
tq = sum(self.critic_old(batch.obs_next) * Categorical(logits=self.actor_old(batch.obs_next)[0]).probs, dim=-1)
dist = Categorical(logits=self.actor(batch.obs)[0])
adv = qa - sum(q * dist.probs, dim=-1)
coef = (adv > 0) if self._policy_improvement_mode == 'binary' else clamp(exp(adv / self._beta), 0, self._ratio_upper_bound) if self._policy_improvement_mode == 'exp' else 1.0
loss = mean(-dist.log_prob(batch.act) * coef) + 0.5 * mse(qa, batch.rew + self.gamma * tq) + self._min_q_weight * mean(logsumexp(q, dim=1) - qa)
""", ("loss",)),
    "BCQPolicy": ((), """
recon, mu, sd = self.vae(batch.obs, batch.act)
vl = mse(batch.act, recon) + mean(-log(sd) + (sd ** 2 + mu ** 2 - 1) / 2) / 2
on = repeat(batch.obs_next)
an = self.vae.decode(on)
t1 = self.critic_target(on, an)
t2 = self.critic2_target(on, an)
tq = max(self.lmbda * min(t1, t2) + (1 - self.lmbda) * max(t1, t2), dim=1)
y = batch.rew + (1 - batch.terminated) * self.gamma * tq
c1 = mse(self.critic(batch.obs, batch.act), y)
c2 = mse(self.critic2(batch.obs, batch.act), y)
al = -mean(self.critic(batch.obs, self.actor_perturbation(batch.obs, self.vae.decode(batch.obs))))
""", ("vl", "c1", "c2", "al")),
    "CQLPolicy": (("calibrated", "with_lagrange", "_is_auto_alpha"), """
r = self(Batch(obs=batch.obs))
al = mean(self.alpha * r.log_prob - min(self.critic(batch.obs, r.act), self.critic2(batch.obs, r.act)))
alpha_loss = -mean(self.log_alpha * (r.log_prob + self.target_entropy))
n = self(Batch(obs=batch.obs_next))
al2 = exp(self.log_alpha) if self._is_auto_alpha else self.alpha
tq = min(self.critic_old(batch.obs_next, n.act), self.critic2_old(batch.obs_next, n.act)) - al2 * n.log_prob
y = batch.rew + (1 - batch.terminated) * self.gamma * tq
o = repeat(batch.obs)
on = repeat(batch.obs_next)
cur = self(Batch(obs=o))
nx = self(Batch(obs=on))
ra = RANDACT
rl = log(0.5 ** RANDACT.shape[-1])
ret = repeat(batch.calibration_returns)
p1 = self.critic(o, cur.act) - cur.log_prob
p2 = self.critic2(o, cur.act) - cur.log_prob
n1 = self.critic(o, nx.act) - nx.log_prob
n2 = self.critic2(o, nx.act) - nx.log_prob
r1 = self.critic(o, ra) - rl
r2 = self.critic2(o, ra) - rl
u1 = cat([max(r1, ret), max(p1, ret), max(n1, ret)]) if self.calibrated else cat([r1, p1, n1])
u2 = cat([max(r2, ret), max(p2, ret), max(n2, ret)]) if self.calibrated else cat([r2, p2, n2])
q1 = self.critic(batch.obs, batch.act)
q2 = self.critic2(batch.obs, batch.act)
s1 = mean(logsumexp(u1 / self.temperature, dim=1)) * self.cql_weight * self.temperature - mean(q1) * self.cql_weight
s2 = mean(logsumexp(u2 / self.temperature, dim=1)) * self.cql_weight * self.temperature - mean(q2) * self.cql_weight
ca = clamp(exp(self.cql_log_alpha), self.alpha_min, self.alpha_max)
l1 = ca * (s1 - self.lagrange_threshold) if self.with_lagrange else s1
l2 = ca * (s2 - self.lagrange_threshold) if self.with_lagrange else s2
lag = -0.5 * (l1 + l2)
c1 = mse(q1, y) + l1
c2 = mse(q2, y) + l2
""", ("al", "alpha_loss?_is_auto_alpha", "lag?with_lagrange", "c1", "c2")),
}
LOSS_OPQ = ("forward", "_compute_returns", "process_fn", "sync_weight", "_target_dist", "_target_q", "compute_q_value", "disc", "exploration_noise")


def settings(flags):
    names = [f if isinstance(f, str) else f[0] for f in flags]
    opts = [(True, False) if isinstance(f, str) else f[1] for f in flags]
    for vs in itertools.product(*opts):
        yield dict(zip(names, vs))


def valuation(sett):
    """Truth of a condition under a setting of flags (None: not decided by it)."""
    def val(t):
        if t.k == "attr" and t.a[0] is SELF and t.a[1] in sett:
            v = sett[t.a[1]]
            return v if isinstance(v, bool) else None
        if t.k == "cmp" and len(t.a) == 3:
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if x.k == "attr" and x.a[0] is SELF and x.a[1] in sett:
                    v = sett[x.a[1]]
                    if t.a[0] in ("is", "is not") and y is NONE and isinstance(v, bool):
                        return (not v) == (t.a[0] == "is")
                    if t.a[0] in ("==", "!=") and y.k == "const" and isinstance(v, str):
                        return (y.a[0] == v) == (t.a[0] == "==")
                    if t.a[0] in ("in", "not in") and y.k in ("tuple", "list", "set") and isinstance(v, str) and all(z.k == "const" for z in y.a[0]):
                        return (v in [z.a[0] for z in y.a[0]]) == (t.a[0] == "in")
                    if t.a[0] in ("<", ">") and y is const(0) or t.a[0] in ("<", ">") and y is const(0.0):
                        if isinstance(v, bool):
                            return v if (t.a[0] == "<") == (y is t.a[1]) else None
        return None
    return val


def given(sett):
    out = {}
    for k, v in sett.items():
        out[k] = v
        if isinstance(v, str):
            for w in ("exp", "binary", "all", "continuous", "discrete", "min", "mean"):
                out[f"self.{k} == '{w}'"] = v == w
    return out


class Formula:
    def __init__(self, text, sett, env=None):
        env = {"self": SELF, **(env or {})}
        self.env = parse(text, env, given(sett))


# operations whose presence in the program but not in the formula is a different computation, not another way of writing it
SWAPS = {"mean", "sum", "dmean", "min", "amin", "clamp", "exp", "log", "huber", "abs", "take", "item", "log_prob", "entropy", "std", "var", "argmax", "prod", "flip", "outer", "arange", "linspace", "cos", "sin"}


def held_parameters(c, k):
    """Private attributes in which the constructors of k keep one of their parameters as it is."""
    if not hasattr(k, "_held"):
        k._held = {}
        try:
            fl = init_flow(c, k)
        except Exception:
            return k._held
        for n in setattrs(fl):
            v = n.d["value"]
            if n.d["base"] is SELF and n.d["attr"].startswith("_") and v.k == "param":
                k._held[n.d["attr"]] = v.a[0]
    return k._held


def compare(fl, t, spec, val, same=(), alias=None):
    """True / False / None and the two normal forms."""
    a, b = Canon(fl, val, alias, same=same), Canon(None, val, alias, same=same)
    x, y = a.s(t), b.s(spec)
    if x == y:
        return True, x, y
    if "?" in x:
        return None, x, y
    new = {h for h in a.heads if h not in b.heads and h[0] != "?" and h not in SWAPS and not h.startswith("self.")}
    if new:
        return None, x, y
    p, q = Canon(fl, val, alias, dims=False, same=same), Canon(None, val, alias, dims=False, same=same)
    if p.s(t) == q.s(spec):
        return None, x, y
    return False, x, y


def diff(x, y):
    """The parts of two normal forms that differ."""
    i = 0
    while i < min(len(x), len(y)) and x[i] == y[i]:
        i += 1
    i = max(0, i - 40)
    return f"…{x[i:i + 160]} instead of …{y[i:i + 160]}"


def spec_of(k, table):
    for kk in k.mro_classes():
        if kk.name in table:
            return kk
    return None


def evaluated_without_gradients(fl):
    if not hasattr(fl, "_nograd_terms"):
        fl._nograd_terms = {n.d["term"] for n in nodes(fl, "call") if set(n.ctx or ()) & set(NOGRAD)}
    return fl._nograd_terms


STOPS = ("detach", "item", "to_numpy", "numpy", "no_grad", "tolist")


def gradient_calls(fl, t, val):
    """Names of the networks through which gradients of t flow."""
    ng, seen, out = evaluated_without_gradients(fl), set(), set()
    st = [resolve(t, val)]
    from ..flow import children
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "call":
            f = x.a[0]
            nm = f.a[1] if f.k == "attr" else f.a[0].rsplit(".", 1)[-1] if f.k == "global" else ""
            if x in ng or nm in STOPS:
                continue
            if f is SELF:
                out.add("forward")
            elif f.k == "attr" and f.a[0] is SELF:
                out.add(f.a[1])
        if x.k == "attr" and x.a[0] is SELF:
            out.add(x.a[1])
        if x.k == "attr" and x.a[1] == "data":
            continue
        if x.k == "cmp":
            continue
        if x.k == "loopphi":
            st += list(fl.loops.get(x, ()))
        st += [y for y in children(x) if isinstance(y, Term)]
    return out


# networks a loss has to send gradients into
TRAINS = {
    "al": {"forward"}, "alpha_loss": {"log_alpha"}, "mse_critic": {"critic"}, "mse_critic2": {"critic2"}, "c1": {"critic"}, "c2": {"critic2"}, "ql": {"forward"}, "fl": {"forward"}, "vl": {"vae"},
    "alpha_loss?_is_auto_alpha": {"log_alpha"}, "lag?with_lagrange": {"cql_log_alpha"}, "disc": {"disc"},
}
TRAINS_OF = {("BCQPolicy", "al"): {"actor_perturbation"}, ("DiscreteCRRPolicy", "loss"): {"critic", "actor"}, ("PPOPolicy", "loss"): {"forward", "critic"}, ("GAILPolicy", "loss"): {"forward", "critic"},
             ("A2CPolicy", "loss"): {"forward", "critic"}, ("NPGPolicy", "loss"): {"critic"}, ("TRPOPolicy", "loss"): {"critic"}, ("ICMPolicy", "loss"): set()}


@rule("P10")
def losses_are_those_of_the_algorithm(c):
    """Every loss that is back-propagated is the algorithm's documented formula, for every setting of its flags, and sends gradients into the networks it is meant to train."""
    tot = 0
    for k in policies(c.p):
        f = k.find("learn")
        s = spec_of(k, LOSSES)
        if f is None or f.is_abstract or s is None or k.name not in LOSSES and f.cls is not k and s.find("learn") is f and k.name != s.name and k.name not in ("RainbowPolicy",):
            continue
        flags, text, names = LOSSES[s.name]
        Canon.held = held_parameters(c, k)
        fl = c.flow(f, k, opaque=OPQ + LOSS_OPQ)
        backs = [n for n in calls(fl, "backward") if n.d["recv"] is not None]
        if not backs:
            c.und(f"{k.name}.learn", "no loss is back-propagated")
            continue
        alias = {x.a[0]: "RANDACT" for n in nodes(fl, "call") for x in [n.d["term"]] if False}
        for t in {x for n in nodes(fl, "call") for x in subterms(n.d["term"])}:
            if is_call(t, "uniform_", "rand_like", "uniform") and s.name == "CQLPolicy":
                alias[t] = "RANDACT"
        for sett in settings(flags):
            val = valuation(sett)
            L = live(fl, val)
            env = Formula(text, sett).env
            want = [n.split("?")[0] for n in names if "?" not in n or sett[n.split("?")[1]]]
            full = {n.split("?")[0]: n for n in names}
            mine = [n for n in backs if n in L]
            con = f"{k.name}.learn" + ("" if not sett else "/" + ",".join(f"{a}={b}" for a, b in sett.items()))
            left, rest, how = list(want), [], {}
            for n in mine:
                hit = next((w for w in left if compare(fl, n.d["recv"], env[w], val, ("_compute_returns",), alias)[0]), None)
                if hit is None:
                    again = next((w for w in want if compare(fl, n.d["recv"], env[w], val, ("_compute_returns",), alias)[0]), None)
                    if again is None:
                        rest.append(n)
                        continue
                    hit = again
                else:
                    left.remove(hit)
                tot += 1
                c.ok(f"{con}/{hit}", n.where)
                need = TRAINS_OF.get((s.name, hit), TRAINS.get(full[hit], {"forward"}))
                got = gradient_calls(fl, n.d["recv"], val)
                c.decide(need <= got, f"{con}/{hit} gradients", n.where, f"no gradient reaches {sorted(need - got)}")
            for i, n in enumerate(rest):
                if i < len(left):
                    ok, x, y = compare(fl, n.d["recv"], env[left[i]], val, ("_compute_returns",), alias)
                    tot += 1
                    c.decide(ok, f"{con}/{left[i]}", n.where, f"the loss is {diff(x, y)}")
                else:
                    c.und(f"{con}/further loss", f"at {n.where}")
            for w in left[len(rest):]:
                c.und(f"{con}/{w}", "this loss was not found")
    if tot < 25:
        raise AnalysisBroken(f"only {tot} losses compared")


# ---------------------------------------------------------------- derived quantities
NXT = "nxt = Batch(obs=buffer[indices].obs_next)\nr = self(nxt)\nold = self(nxt, model='model_old')\n"
GAUSS = ("out = self.actor(batch.obs, state=state, info=batch.info)\ndist = Independent(Normal(loc=out[0][0], scale=out[0][1]), 1)\n"
         "raw = (dist.rsample() if self.is_within_training_step else dist.mode) if self.deterministic_eval else dist.rsample()\nact = tanh(raw)\n"
         "logp = dist.log_prob(raw) - sum(log(1 - act ** 2 + EPS), dim=-1)\n")
ACTING = ("deterministic_eval", "is_within_training_step")
EPISODIC = "g = self.compute_episodic_return(batch, buffer, indices, v_s_=vn, v_s=v, gamma=self.gamma, gae_lambda=self.gae_lambda)\n"
# (class, method): (flags, formula text, {what: name}); what is `return`, `<attribute>` that is stored, or `return.<field>` of the returned batch
VALUES = {
    ("DQNPolicy", "_target_q"): (("_target", "is_double"), NXT + "t = old.logits if self._target else r.logits\ny = take(t, r.act) if self.is_double else max(t, dim=1)", {"return": "y"}),
    ("QRDQNPolicy", "_target_q"): (("_target",), NXT + "y = take(old.logits if self._target else r.logits, r.act)", {"return": "y"}),
    ("FQFPolicy", "_target_q"): (("_target",), NXT + "old = self(nxt, model='model_old', fractions=r.fractions)\ny = take(old.logits if self._target else r.logits, r.act)", {"return": "y"}),
    ("C51Policy", "_target_q"): ((), "y = repeat(self.support)", {"return": "y"}),
    ("C51Policy", "compute_q_value"): ((), "y = BASE", {"return": "y"}),
    ("QRDQNPolicy", "compute_q_value"): ((), "y = BASE", {"return": "y"}),
    ("C51Policy", "_target_dist"): (("_target",), "nxt = Batch(obs=batch.obs_next)\nr = self(nxt)\nold = self(nxt, model='model_old')\nd = take(old.logits if self._target else r.logits, r.act)\n"
                                    "s = clamp(batch.returns, self._v_min, self._v_max)\ny = sum(clamp(1 - abs(s - self.support) / self.delta_z, 0, 1) * d, dim=-1)", {"return": "y"}),
    ("BranchingDQNPolicy", "_target_q"): (("_target", "is_double"), NXT + "t = old.logits if self._target else r.logits\ny = take(t, r.act) if self.is_double else take(t, argmax(t, dim=-1))", {"return": "y"}),
    ("DDPGPolicy", "_target_q"): ((), "nxt = Batch(obs=buffer[indices].obs_next)\ny = self.critic_old(nxt.obs, self(nxt, model='actor_old').act)", {"return": "y"}),
    ("TD3Policy", "_target_q"): (("noise_clip",), "nxt = Batch(obs=buffer[indices].obs_next)\na = self(nxt, model='actor_old').act\nn = NOISE * self.policy_noise\n"
                                 "act = a + (clamp(n, -self.noise_clip, self.noise_clip) if self.noise_clip else n)\ny = min(self.critic_old(nxt.obs, act), self.critic2_old(nxt.obs, act))", {"return": "y"}),
    ("SACPolicy", "_target_q"): ((), NXT + "y = min(self.critic_old(nxt.obs, r.act), self.critic2_old(nxt.obs, r.act)) - self.alpha * r.log_prob", {"return": "y"}),
    ("REDQPolicy", "_target_q"): ((("target_mode", ("min", "mean")),), NXT + "qs = self.critic_old(nxt.obs, r.act)[SUBSET]\ny = (min(qs, dim=0) if self.target_mode == 'min' else mean(qs, dim=0)) - self.alpha * r.log_prob", {"return": "y"}),
    ("DiscreteSACPolicy", "_target_q"): ((), NXT + "y = sum(r.dist.probs * min(self.critic_old(nxt.obs), self.critic2_old(nxt.obs)), dim=-1) + self.alpha * r.dist.entropy()", {"return": "y"}),
    ("DiscreteBCQPolicy", "_target_q"): ((), "nxt = Batch(obs=buffer[indices].obs_next)\nr = self(nxt)\ny = take(self.model_old(nxt.obs)[0], r.act)", {"return": "y"}),
    ("PGPolicy", "process_fn"): (("rew_norm",), "g = self.compute_episodic_return(batch, buffer, indices, v_s_=V0, gamma=self.gamma, gae_lambda=1.0)[0]\n"
                                 "y = (g - self.ret_rms.mean) / sqrt(self.ret_rms.var + self._eps) if self.rew_norm else g", {"returns": "y"}),
    ("A2CPolicy", "_compute_returns"): (("rew_norm",), "mb = batch\nv0 = each(self.critic(batch.obs))\nsc = sqrt(self.ret_rms.var + self._eps) if self.rew_norm else 1.0\nv = v0 * sc\nvn = each(self.critic(batch.obs_next)) * sc\n" + EPISODIC
                                        + "y = g[0] / sc\nadv = g[1]", {"returns": "y", "adv": "adv", "v_s": "v0"}),
    ("PPOPolicy", "process_fn"): ((), "b = self._compute_returns(batch, buffer, indices)\ny = each(self(b).dist.log_prob(b.act))", {"logp_old": "y"}),
    ("NPGPolicy", "process_fn"): (("norm_adv",), "b = BASE\ny = each(self(b).dist.log_prob(b.act))\nadv = (b.adv - mean(b.adv)) / std(b.adv)", {"logp_old": "y", "adv?norm_adv": "adv"}),
    ("GAILPolicy", "process_fn"): ((), "y = -logsigmoid(-self.disc(batch))", {"rew": "y"}),
    ("ICMPolicy", "process_fn"): ((), "y = batch.rew + self.model(batch.obs, batch.act, batch.obs_next)[0] * self.reward_scale", {"rew": "y"}),
    ("SACPolicy", "forward"): (ACTING, GAUSS, {"return.act": "act", "return.log_prob": "logp"}),
    ("REDQPolicy", "forward"): (ACTING, GAUSS, {"return.act": "act", "return.log_prob": "logp"}),
    ("SACPolicy", "learn"): ((), "y = exp(self.log_alpha)", {"alpha": "y"}),
    ("REDQPolicy", "learn"): ((), "y = exp(self.log_alpha)", {"alpha": "y"}),
    ("DiscreteSACPolicy", "learn"): ((), "y = exp(self.log_alpha)", {"alpha": "y"}),
    ("CQLPolicy", "learn"): ((), "y = exp(self.log_alpha)", {"alpha": "y"}),
}


# constants and networks of the distributional algorithms: (class, function): (parameters standing for themselves, alternative formula texts, {what: name})
LEVELS = {
    ("QRDQNPolicy", "__init__"): ({"N": "num_quantiles"}, ("t = linspace(0, 1, N + 1)\ny = (t[:-1] + t[1:]) / 2", "y = (arange(0, N) + 0.5) / N", "y = (2 * arange(0, N) + 1) / (2 * N)", "t = arange(0, N + 1) / N\ny = (t[:-1] + t[1:]) / 2"), {"tau_hat": "y"}),
    ("C51Policy", "__init__"): ({"N": "num_atoms", "lo": "v_min", "hi": "v_max"}, ("support = linspace(lo, hi, N)\ndz = (hi - lo) / (N - 1)",), {"support": "support", "delta_z": "dz"}),
    ("FractionProposalNetwork", "forward"): ({"x": "obs_embeddings"}, ("d = Categorical(logits=self.net(x))\nt = pad(cumsum(d.probs, dim=1), (1, 0))\nh = (t[:, :-1] + t[:, 1:]) / 2\ne = entropy(d)",), {"return[0]": "t", "return[1]": "h", "return[2]": "e"}),
    ("CosineEmbeddingNetwork", "forward"): ({"taus": "taus"}, ("y = self.net(cos(taus * PI * arange(1, self.num_cosines + 1)))",), {"return": "y"}),
}


@rule("P10")
def quantile_levels_and_atoms(c):
    """Quantile midpoints, the atoms of a categorical return, proposed fractions and the cosine embedding are the documented ones."""
    for (kn, m), (params, texts, what) in LEVELS.items():
        if not c.p.has_cls(kn):
            continue
        k = c.p.cls(kn)
        f = k.find(m)
        if f is None:
            c.und(f"{kn}.{m}", "not found")
            continue
        fl = c.flow(f, k, opaque=("forward",))
        pi = Term("global", "numpy.pi")
        envs = [parse(t, {"self": SELF, "PI": pi, **{n: P(v) for n, v in params.items()}}) for t in texts]
        for w, name in what.items():
            con = f"{kn}/{w}"
            i = None
            if w.startswith("return"):
                got = [(n.d["value"], n) for n in nodes(fl, "return") if len(n.stack) == 1]
                if w != "return":
                    i = int(w[7:-1])
            else:
                got = [(n.d["value"], n) for n in setattrs(fl, w) if n.d["base"] is SELF]
            if not got:
                c.und(con, "not found in the program")
            for v, n in got:
                if i is not None:
                    if v.k != "tuple" or len(v.a[0]) <= i:
                        c.und(con, show(v)[:100])
                        continue
                    v = v.a[0][i]
                rs = [compare(fl, v, env[name], lambda t: None) for env in envs]
                ok = True if any(r[0] is True for r in rs) else None if any(r[0] is None for r in rs[:1]) else False
                c.decide(ok, con, n.where, f"it is {diff(rs[0][1], rs[0][2])}")


def last_stores(fl, attr, L):
    # a store of what the attribute already holds changes nothing
    ns = [n for n in setattrs(fl, attr) if n in L and not (attr == "alpha" and Term("attr", SELF, attr) in set(subterms(n.d["value"])))]
    out = []
    for n in ns:
        later = set(reachable([n], edge_ok=lambda a, b, l: b in L and l not in ("back", "exc")))
        if not any(m is not n and m in later and m.d["base"] is n.d["base"] for m in ns):
            out.append(n)
    return out


@rule("P10")
def quantities_are_those_of_the_algorithm(c):
    """Bootstrap targets, returns, advantages, log-probabilities, intrinsic and adversarial rewards and the entropy coefficient are computed by the documented formula, for every setting of the flags they depend on."""
    for (kn, m), (flags, text, what) in VALUES.items():
        if not c.p.has_cls(kn):
            continue
        k = c.p.cls(kn)
        f = k.find(m)
        if f is None or f.is_abstract:
            c.und(f"{kn}.{m}", "not found")
            continue
        Canon.held = held_parameters(c, k)
        fl = c.flow(f, k, opaque=OPQ + LOSS_OPQ + ("to_numpy", "to_torch_as", "to_torch"))
        for sett in settings(flags):
            val = valuation(sett)
            L = live(fl, val)
            env = dict(parse("", {"self": SELF}))
            env = Formula(text, sett).env
            con0 = f"{kn}.{m}" + ("" if not sett else "/" + ",".join(f"{a}={b}" for a, b in sett.items()))
            for w, name in what.items():
                if "?" in w:
                    w, fg = w.split("?")
                    if not sett[fg]:
                        continue
                con = f"{con0}/{w}"
                if w == "return":
                    got = [(n.d["value"], n) for n in nodes(fl, "return") if n in L and len(n.stack) == 1]
                elif w.startswith("return."):
                    got = []
                    for n in nodes(fl, "return"):
                        if n in L and len(n.stack) == 1:
                            v = n.d["value"]
                            while is_call(v, "cast") and len(v.a[1]) == 2:
                                v = v.a[1][1]
                            kw = dict(v.a[2]) if v.k == "call" else {}
                            if w[7:] in kw:
                                got.append((kw[w[7:]], n))
                else:
                    got = [(n.d["value"], n) for n in last_stores(fl, w, L)]
                if not got:
                    c.und(con, "not found in the program")
                for v, n in got:
                    ok, x, y = compare(fl, v, env[name], val, (), leaves(fl, (kn, m)))
                    c.decide(ok, con, n.where, f"it is {diff(x, y)}")


LEAVES = {("TD3Policy", "_target_q"): ("NOISE", ("randn", "randn_like", "normal")), ("REDQPolicy", "_target_q"): ("SUBSET", ("choice",)), ("PGPolicy", "process_fn"): ("V0", ("full", "full_like"))}


def leaves(fl, key):
    """Terms that stand for themselves: random draws, and what the overridden method returns."""
    out = {}
    for n in nodes(fl, "call"):
        if key in LEAVES and n.d["name"] in LEAVES[key][1]:
            out[n.d["term"]] = LEAVES[key][0]
        if n.d["is_super"] and n.d["name"] == key[1]:
            out[n.d["term"]] = "BASE"
        if key[1] == "forward" and n.d["name"] == "log":
            # the constant that keeps the logarithm finite
            for t in subterms(n.d["term"]):
                if t.k == "unknown" or t.k == "attr" and t.a[0] is SELF and "eps" in t.a[1]:
                    out[t] = "EPS"
    return out


# ---------------------------------------------------------------- natural-gradient steps
NATURAL = """
dist = self(batch).dist
kl = mean(kl_divergence(dist, dist))
g = self._get_flat_grad(loss, self.actor)
gk = self._get_flat_grad(kl, self.actor)
d = -self._conjugate_gradients(g, gk, nsteps=10)
p = each(elem(self.actor.parameters()))
"""
STEPS = {
    "NPGPolicy": "loss = -mean(self(batch).dist.log_prob(batch.act) * batch.adv)\n" + NATURAL + "new = p + self.actor_step_size * d",
    "TRPOPolicy": "loss = -mean(exp(self(batch).dist.log_prob(batch.act) - batch.logp_old) * batch.adv)\n" + NATURAL + "s0 = sqrt(2 * self.max_kl / sum(d * self._MVP(d, gk), dim=0))\nnew = p + STEP * d\nstep = STEP * self.backtrack_coeff",
}
STEP_OPQ = OPQ + LOSS_OPQ + ("_get_flat_grad", "_conjugate_gradients", "_set_from_flat_params", "_MVP")


class Plain(Canon):
    """Graph bookkeeping arguments do not change what is computed."""

    def call(self, t):
        if t.a[0].k == "attr" and t.a[0].a[1] == "_get_flat_grad":
            t = Term("call", t.a[0], t.a[1], tuple(x for x in t.a[2] if x[0] not in ("retain_graph", "create_graph")), t.a[3])
        return super().call(t)


def same_form(fl, t, spec, alias):
    a, b = Plain(fl, None, alias, dims=False), Plain(None, None, alias, dims=False)
    x, y = a.s(t), b.s(spec)
    if x == y:
        return True, x, y
    if "?" in x or {h for h in a.heads if h not in b.heads and h[0] != "?" and h not in SWAPS and not h.startswith("self.")}:
        return None, x, y
    return False, x, y


def recurrences(fl, phis, inits, steps):
    """Whether the loop-carried values phis follow the recurrences (name -> initial value, next value) under some matching of names; None when a form is not known."""
    names, unsure, best = list(inits), False, None
    if len(phis) < len(names):
        return None, "loop-carried values not recognised"
    for perm in itertools.permutations(phis, len(names)):
        alias = dict(zip(perm, names))
        cn, bad = Plain(fl, None, alias, dims=False), []
        for q, nm in alias.items():
            sp = Plain(None, None, {}, dims=False)
            want = {sp.s(inits[nm]), sp.s(steps[nm])}
            got = {cn.s(v) for v in fl.loops.get(q, ()) if v is not q}
            got.discard(nm)
            if got != want:
                bad.append((nm, got, want))
        if not bad:
            return True, ""
        if any(h.startswith("?") for h in cn.heads):
            unsure = True
        if best is None or len(bad) < len(best):
            best = bad
    return (None if unsure else False), "; ".join(f"{n} is {sorted(g)} instead of {sorted(w)}" for n, g, w in best)[:400]


def leaves_of(t):
    return [y for x in t.a[0] for y in leaves_of(x)] if t.k == "phi" else [t]


@rule("P10")
def natural_gradient_steps(c):
    """NPG and TRPO move the actor from its current parameters along the negated conjugate-gradient direction of their loss, by the documented step."""
    for kn, text in STEPS.items():
        if not c.p.has_cls(kn):
            continue
        k = c.p.cls(kn)
        Canon.held = held_parameters(c, k)
        fl = c.flow("learn", k, opaque=STEP_OPQ)
        env = Formula(text, {}).env
        gs = calls(fl, "_get_flat_grad")
        for want in ("loss", "kl"):
            res = [(same_form(fl, n.d["args"][0], env[want], {}), n) for n in gs if n.d["args"]]
            if any(r[0] for r, _ in res):
                c.ok(f"{kn}.learn/{want}", fl.entry.where)
            elif len(gs) == 2 and all(r[0] is False for r, _ in res):
                # the other of the two is the one that matches the other formula
                other = "kl" if want == "loss" else "loss"
                rest = [(r, n) for (r, n), n2 in zip(res, gs) if not same_form(fl, n.d["args"][0], env[other], {})[0]]
                c.decide(False if len(rest) == 1 else None, f"{kn}.learn/{want}", gs[0].where, f"the gradient is that of {diff(rest[0][0][1], rest[0][0][2]) if rest else '?'}")
            else:
                c.und(f"{kn}.learn/{want}", "its gradient was not found")
        alias = {}
        if kn == "TRPOPolicy":
            for q, vs in fl.loops.items():
                a = Plain(fl, None, {q: "STEP"}, dims=False)
                fs = {a.s(x) for v in vs for x in leaves_of(v) if x is not q} - {"STEP"}
                if any("STEP" in x for x in fs) and any("sqrt" in x for x in fs):
                    alias[q] = "STEP"
                    want = {Plain(dims=False).s(env["s0"]), Plain(dims=False).s(env["step"])}
                    odd = sorted(x for x in fs if x not in want and not x.replace("[", "").replace("]", "").replace(".", "").isdigit() and "tensor" not in x)
                    c.decide(True if not odd else None if any("?" in x for x in odd) else False, f"{kn}.learn/step size", fl.entry.where, f"it is {odd} instead of {sorted(want)}")
        sets = [n for n in calls(fl, "_set_from_flat_params") if len(n.d["args"]) >= 2]
        if not sets:
            c.und(f"{kn}.learn/new parameters", "the parameters are set elsewhere")
        here = Plain(dims=False).s(env["p"])
        back = [n for n in sets if Plain(fl, None, alias, dims=False).s(n.d["args"][1]) == here]
        if alias:
            # a line search that can fail puts the actor back where it was, and only when it failed
            tried = [n for n in sets if n not in back]
            c.decide(bool(back), f"{kn}.learn/failed line search", (tried or sets)[0].where, "when no step is accepted, the actor keeps the last step that was rejected")
            acc = [b for b in nodes(fl, "branch") if any(x is A(SELF, "max_kl") or x is Term("attr", SELF, "max_kl") for x in subterms(b.d["cond"])) and any(is_call(x, "kl_divergence") for x in subterms(b.d["cond"]))]
            for b in acc:
                q, pol = canon_cond(b.d["cond"])
                below = q.k == "cmp" and (q.a[0] in ("<", "<=")) == (q.a[2] is Term("attr", SELF, "max_kl"))
                good = "T" if below == pol else "F"
                stop = {h for h in nodes(fl, "iter")}
                r = reachable([b], avoid=lambda z: z in stop, edge_ok=lambda u, v, l: not (u is b and l == good))
                c.decide(not back or all(n in r for n in back), f"{kn}.learn/accepted step", b.where, "an accepted step is taken back")
        for n in sets:
            ok, x, y = same_form(fl, n.d["args"][1], env["new"], alias)
            if not ok and Plain(fl, None, alias, dims=False).s(n.d["args"][1]) == Plain(dims=False).s(env["p"]):
                ok = True  # restores the current parameters
            c.decide(ok, f"{kn}.learn/new parameters", n.where, f"they are {diff(x, y)}")
    if not c.p.has_cls("NPGPolicy"):
        return
    k = c.p.cls("NPGPolicy")
    f = k.find("_conjugate_gradients")
    if f is not None:
        fl = c.flow(f, k, opaque=STEP_OPQ)
        ps = [q for q in fl.entry.params() if q != "self"]
        env = parse(f"z = self._MVP(P, {ps[1]})\na = RR / P.dot(z)\nx = X + a * P\nr = R - a * z\nrr = r.dot(r)\np = r + rr / RR * P\ng = {ps[0]}\nx0 = zeros_like(g)\nrr0 = g.dot(g)", {"self": SELF})
        ok, why = recurrences(fl, list(fl.loops), {"X": env["x0"], "R": env["g"], "P": env["g"], "RR": env["rr0"]}, {"X": env["x"], "R": env["r"], "P": env["p"], "RR": env["rr"]})
        c.decide(ok, "NPGPolicy._conjugate_gradients", fl.entry.where, why)
    f = k.find("_MVP")
    if f is not None:
        fl = c.flow(f, k, opaque=STEP_OPQ)
        ps = [q for q in fl.entry.params() if q != "self"]
        env = parse(f"y = self._get_flat_grad(sum({ps[1]} * {ps[0]}), self.actor) + {ps[0]} * self._damping", {"self": SELF})
        for n in nodes(fl, "return"):
            if len(n.stack) == 1:
                ok, x, y = same_form(fl, n.d["value"], env["y"], {})
                c.decide(ok, "NPGPolicy._MVP", n.where, f"it is {diff(x, y)}")
    f = k.find("_get_flat_grad")
    if f is not None:
        fl = c.flow(f, k)
        ps = [q for q in fl.entry.params() if q != "self"]
        for n in nodes(fl, "return"):
            if len(n.stack) == 1:
                x = Plain(fl, dims=False).s(n.d["value"])
                want = f"each(elem(grad({ps[0]},{ps[1]}.parameters()"
                c.decide(True if x.startswith(want) else None, "NPGPolicy._get_flat_grad", n.where, x[:200])
    f = k.find("_set_from_flat_params")
    if f is not None:
        fl = c.flow(f, k)
        ps = [q for q in fl.entry.params() if q != "self"]
        for n in calls(fl, "copy_"):
            v = n.d["args"][0] if n.d["args"] else None
            for q in fl.loops:
                al = {q: "PREV"}
                cn = Plain(fl, None, al, dims=False)
                size = f""
                got = {cn.s(y) for y in fl.loops[q] if y is not q}
                x = cn.s(v)
                if "PREV" in x:
                    m = next((g for g in got if g.startswith("PREV+") or g.endswith("+PREV")), None)
                    if m is None:
                        c.und("NPGPolicy._set_from_flat_params", f"{got} {x}")
                        continue
                    good = got == {"0", m} and x == f"sub({ps[1]},PREV:{m}:)"
                    c.decide(good or (None if "?" in x + str(got) else False), "NPGPolicy._set_from_flat_params", n.where, f"{got} {x}")
