"""Return and advantage targets: bootstrapping, episode ends, formulas, gradients."""
from __future__ import annotations

from ..core import rule
from ..flow import FALSE, NONE, TRUE, Term, canon_cond, children, const, is_call, show, subterms
from ..program import AnalysisBroken
from ..query import Poly, arg, calls, closure, describe, find_path, nodes, setattrs, setsubs, skey, strip, values
from .policies import NOGRAD, grad_stop, gclosure, init_flow, policies, self_attr, targets
from .util import A, P, SELF, loop_of, params_of, rat, rat_eq

# calls that only change shape, type or place of an array
NEUTRAL = ("reshape", "flatten", "unsqueeze", "squeeze", "view", "view_as", "to_numpy", "to_torch", "to_torch_as", "astype", "float", "double", "cpu", "numpy", "detach", "clone",
           "copy", "expand_dims", "asarray", "array", "as_tensor", "to", "ravel", "item", "deepcopy", "repeat", "tensor", "from_numpy", "bool", "cast", "ascontiguousarray", "int")
OPQ = ("to_numpy", "to_torch_as", "to_torch", "_nstep_return", "_gae_return", "next", "split")


def callname(t):
    f = t.a[0]
    return f.a[1] if f.k == "attr" else (f.a[0].rsplit(".", 1)[-1] if f.k == "global" else "")


def operands(t):
    f = t.a[0]
    return ([f.a[0]] if f.k == "attr" and f.a[0].k != "global" else []) + list(t.a[1])


def newaxis(i):
    if i is NONE or i.k == "const" and i.a[0] is Ellipsis or i.k == "global" and i.a[0].endswith("newaxis"):
        return True
    if i.k == "slice":
        return all(x is NONE or x is None for x in i.a)
    return i.k == "tuple" and all(newaxis(x) for x in i.a[0])


def bare(t):
    """The array behind shape, type and device changes."""
    while True:
        if t.k == "call" and callname(t) in NEUTRAL:
            ops = operands(t)
            if callname(t) == "cast":
                ops = ops[1:]
            if not ops:
                return t
            t = ops[0]
        elif t.k == "sub" and newaxis(t.a[1]):
            t = t.a[0]
        elif t.k == "attr" and t.a[1] in ("T", "data"):
            t = t.a[0]
        else:
            return t


def ew(t, leaf, idx=None):
    """Element-wise rational normal form (num, den). leaf(term, index) names an atom (or None); comparisons with 0 keep a 0/1 mask, not/~ complement it, indexing by a term distributes."""
    one = Poly.c(1)

    def atom(x):
        x0 = x
        x = bare(x)
        r = leaf(x, idx)
        if r is not None:
            return r
        if x.k == "un" and x.a[0] in ("not", "~") or x.k == "call" and callname(x) in ("logical_not", "invert", "bitwise_not") and len(operands(x)) == 1:
            y = x.a[1] if x.k == "un" else operands(x)[0]
            n, d = ew(y, leaf, idx)
            return one - n if d == one else None
        if x.k == "cmp" and (const(0) in x.a[1:] or const(1) in x.a[1:] or TRUE in x.a[1:] or FALSE in x.a[1:]):
            l, r_ = x.a[1], x.a[2]
            op = x.a[0]
            if l.k == "const":
                l, r_ = r_, l
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            n, d = ew(l, leaf, idx)
            pos = op in (">", "!=") and r_ in (const(0), FALSE) or op in ("==", ">=", "is") and r_ in (const(1), TRUE)
            neg = op in ("==", "<=", "is") and r_ in (const(0), FALSE) or op in ("<", "!=") and r_ in (const(1), TRUE)
            if (pos or neg) and d == one:
                return n if pos else one - n
            return None
        if x.k == "call" and callname(x) in ("logical_or", "bitwise_or") or x.k in ("bin", "ibin") and x.a[0] == "|":
            ops = operands(x) if x.k == "call" else x.a[1:3]
            (a, da), (b, db) = ew(ops[0], leaf, idx), ew(ops[1], leaf, idx)
            return a + b - a * b if da == db == one else None
        if x.k == "call" and callname(x) in ("logical_and", "bitwise_and") or x.k in ("bin", "ibin") and x.a[0] == "&":
            ops = operands(x) if x.k == "call" else x.a[1:3]
            (a, da), (b, db) = ew(ops[0], leaf, idx), ew(ops[1], leaf, idx)
            return a * b if da == db == one else None
        if x.k == "call" and callname(x) == "where" and len(operands(x)) == 3:
            c_, a, b = (ew(y, leaf, idx) for y in operands(x))
            if c_[1] == a[1] == b[1] == one:
                return c_[0] * a[0] + (one - c_[0]) * b[0]
            return None
        if x.k == "call" and callname(x) in ("zeros", "zeros_like"):
            return Poly({})
        if x.k == "call" and callname(x) in ("ones", "ones_like"):
            return one
        if x.k == "call" and callname(x) in ("full", "full_like") and len(operands(x)) >= 2:
            n, d = ew(operands(x)[1], leaf, None)
            return n if d == one else None
        if x.k == "sub" and idx is None and x.a[1].k != "slice":
            n, d = ew(x.a[0], leaf, x.a[1])
            if d == one:
                return n
            return None
        if x.k in ("bin", "ibin", "un") or x.k == "call" and callname(x) in ("add", "sub", "mul", "div", "multiply", "subtract", "divide", "square"):
            if x is not x0:
                n, d = ew(x, leaf, idx)
                return n if d == one else None
            return None
        if x.k == "const":
            v = x.a[0]
            return Poly.c(int(v) if isinstance(v, bool) else v) if isinstance(v, int | float) else None
        return None
    return rat(bare(t), atom)


def known(poly_pair, names):
    """Only the named atoms occur."""
    n, d = poly_pair
    return all(a in names or any(str(a).startswith(x + "@") for x in names) for a in n.atoms() | d.atoms())


def judge(c, got, want, names, con, where, msg):
    if rat_eq(got, want):
        c.ok(con)
    elif known(got, names):
        c.bad(con, where, f"{msg}: {got[0]!r}" + ("" if got[1] == Poly.c(1) else f" / {got[1]!r}"))
    else:
        c.und(con, f"unrecognised terms in {got[0]!r}"[:300])


X = Poly.x
ONE = Poly.c(1)


def pair(p):
    return (p, ONE)


# ------------------------------------------------------------------------------------ masks
@rule("P03")
def bootstrap_mask_is_not_terminated(c):
    """value_mask is one minus the terminated flag of the given rows."""
    for k in [c.p.cls("BasePolicy"), *policies(c.p)]:
        f = k.find("value_mask")
        if f is None or (k.name != "BasePolicy" and f.cls.name == "BasePolicy"):
            continue
        fl = c.flow(f, k)
        r = fl.ret_value

        def leaf(t, idx):
            for nm in ("terminated", "truncated", "done"):
                if t.k == "attr" and t.a[1] == nm and (t.a[0] is P("buffer") and idx is P("indices") or idx is None and t.a[0].k == "sub" and t.a[0].a[0] is P("buffer") and t.a[0].a[1] is P("indices")):
                    return nm
            return None
        judge(c, ew(r, leaf), pair(ONE - X("terminated")), ("terminated", "truncated", "done"), f"{k.name}.value_mask", fl.entry.where, "bootstrapped values are masked by")


# ------------------------------------------------------------------------------------ kernels
def loop_dir(t, n_ok):
    """'down' when range runs over n-1..0, 'up' when it runs over 0..n-1, 'bad' for another range, None unknown."""
    if t is None:
        return None
    if is_call(t, "reversed") and t.a[1]:
        d = loop_dir(t.a[1][0], n_ok)
        return {"up": "down", "down": "up"}.get(d, d)
    if t.k == "sub" and t.a[1].k == "slice":
        return None
    if not is_call(t, "range"):
        return None
    a = list(t.a[1])
    lo, hi, st = (const(0), a[0], const(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else const(1))

    def lin(x):
        def leaf(y, idx):
            return "n" if n_ok(y) else None
        return ew(x, leaf)[0]
    lo, hi, st = lin(lo), lin(hi), lin(st)
    if st == ONE and lo == Poly({}) and hi == X("n"):
        return "up"
    if st == Poly.c(-1) and lo == X("n") - ONE and hi == Poly.c(-1):
        return "down"
    if lo.atoms() | hi.atoms() | st.atoms() <= {"n"}:
        return "bad"
    return None


def is_len_of(t, *ps):
    if is_call(t, "len") and t.a[1]:
        return t.a[1][0] in ps
    if t.k == "attr" and t.a[1] == "size":
        return t.a[0] in ps
    if t.k in ("sub", "item") and t.a[0].k == "attr" and t.a[0].a[1] == "shape":
        return t.a[0].a[0] in ps
    return False


@rule("P03")
def advantages_follow_the_recursion(c):
    """The advantage kernel runs backwards over all steps: A_t = r_t + gamma V(s_t+1) - V(s_t) + gamma lambda (1 - end_t) A_t+1, and stores A_t at t."""
    fl = c.flow("tianshou.policy.base._gae_return")
    ps = params_of(fl.entry)
    if len(ps) < 6:
        raise AnalysisBroken("parameters of _gae_return changed")
    names = ps[:6]
    con = "_gae_return"
    st = [n for n in setsubs(fl) if n.d["index"].k in ("elem", "bin")]
    if len(st) != 1:
        c.und(con, f"{len(st)} element stores")
        return
    n = st[0]
    i = n.d["index"]
    out = n.d["base"]
    it = loop_of(fl, i)
    scal = names[4:]

    def is_next(x):
        if x.k == "loopphi":
            vs = fl.loops.get(x, ())
            return len(vs) == 2 and vs[1] is n.d["value"] and (vs[0].k == "const" and vs[0].a[0] == 0)
        return False

    def leaf(x, idx):
        if x.k == "param" and x.a[0] in names:
            if x.a[0] in scal:
                return x.a[0]
            return x.a[0] if idx is None or idx is i else f"{x.a[0]}@{skey(idx)}"
        if is_next(x):
            return "next"
        if x.k == "loopphi":
            return None
        return None
    v, v_, r, e, g, l = (X(x) for x in names)
    got = ew(n.d["value"], leaf)
    # every per-step array must have been read at step i
    judge(c, got, pair(r + g * v_ - v + (ONE - e) * g * l * X("next")), (*names, "next"), con + "/formula", n.where, "the advantage recursion is not delta + gamma*lambda*(1-end)*next")
    d = loop_dir(i.a[0] if i.k == "elem" else None, lambda t: is_len_of(t, *(P(x) for x in names[:4])))
    c.decide(None if d is None else d == "down", con + "/backwards", n.where, f"the recursion runs {d} instead of from the last step to the first")
    rv = fl.ret_value
    c.decide(True if bare(rv) is bare(out) else None, con + "/result", fl.entry.where, "the stored advantages are not what is returned")
    if it is not None:
        p = find_path(edge(it, "next"), it, [n], skip_start=False)
        c.decide(p is None, con + "/every step", n.where, f"a step can be left without its advantage: {describe(p)}")


def edge(n, label):
    return [m for m, l in n.succ if l == label]


@rule("P03")
def monte_carlo_returns_follow_the_recursion(c):
    """episode_mc_return_to_go runs backwards: G_t = r_t + gamma G_t+1 with G at the last step equal to its reward."""
    fl = c.flow("tianshou.policy.base.episode_mc_return_to_go")
    ps = params_of(fl.entry)
    r, g = ps[0], ps[1]
    st = setsubs(fl)
    body = [n for n in st if n.d["index"].k == "elem"]
    con = "episode_mc_return_to_go"
    if len(body) != 1:
        c.und(con, "recursion not found")
        return
    n = body[0]
    i, out = n.d["index"], n.d["base"]

    def leaf(x, idx):
        if x is P(r):
            return "r" if idx is i else None if idx is None else f"r@{skey(idx)}"
        if x is P(g):
            return "g"
        if x is out and idx is not None:
            def lf(y, _):
                return "i" if y is i else None
            if ew(idx, lf)[0] == X("i") + ONE:
                return "next"
            return f"out@{skey(idx)}"
        if x.k == "loopphi":
            vs = fl.loops.get(x, ())
            if len(vs) == 2 and vs[1] is n.d["value"]:
                return "next"
        return None
    judge(c, ew(n.d["value"], leaf), pair(X("r") + X("g") * X("next")), ("r", "g", "next", "out"), con + "/formula", n.where, "the return recursion is not r + gamma*next")
    a = list(i.a[0].a[1]) if is_call(i.a[0], "range") else []

    def lin(x):
        return ew(x, lambda y, _: "n" if is_len_of(y, P(r)) else None)[0]
    if len(a) == 3:
        lo, hi, sp = (lin(x) for x in a)
        ok = hi == Poly.c(-1) and sp == Poly.c(-1) and lo in (X("n") - Poly.c(2), X("n") - ONE)
        bad = (lo.atoms() | hi.atoms()) <= {"n"}
        c.decide(True if ok else (False if bad else None), con + "/backwards", n.where, f"the recursion runs over {show(i.a[0])}")
        if lo == X("n") - Poly.c(2):
            last = [m for m in st if m is not n and m.d["base"] is out]
            ok = [m for m in last if (lin(m.d["index"]) in (Poly.c(-1), X("n") - ONE)) and m.d["value"].k == "sub" and m.d["value"].a[0] is P(r) and lin(m.d["value"].a[1]) in (Poly.c(-1), X("n") - ONE)]
            p = find_path([fl.entry_node], n, ok)
            c.decide(p is None if ok or not last else None, con + "/last", n.where, f"the return of the last step is not its reward: {describe(p)}")
    elif loop_dir(i.a[0], lambda t: is_len_of(t, P(r))) is not None or a and all(not lin(x).atoms() - {"n"} for x in a):
        d = loop_dir(i.a[0], lambda t: is_len_of(t, P(r)))
        c.decide(d == "down", con + "/backwards", n.where, f"the recursion runs over {show(i.a[0])}")
    else:
        c.und(con + "/backwards", show(i.a[0]))


@rule("P03")
def nstep_returns_follow_the_recursion(c):
    """The n-step kernel restarts the reward sum and the discount exponent at an episode end, and adds gamma^count times the target value."""
    fl = c.flow("tianshou.policy.base._nstep_return")
    ps = params_of(fl.entry)
    if len(ps) < 6:
        raise AnalysisBroken("parameters of _nstep_return changed")
    rew, end, tq, idxs, gam, nst = (P(x) for x in ps[:6])
    con = "_nstep_return"
    mus = [lp for lp, vs in fl.loops.items() if len(vs) == 2 and any(x is rew for x in subterms(vs[1]))]
    if len(mus) != 1:
        c.und(con, "reward recursion not found")
        return
    mu = mus[0]
    init, nxt = fl.loops[mu]
    c.decide(ew(init, lambda x, i: None) == (Poly({}), ONE) or None, con + "/start", fl.entry.where, "the reward sum does not start at zero")
    now = {x.a[1] for x in subterms(nxt) if x.k == "sub" and x.a[0] is rew}
    if len(now) != 1:
        c.und(con, "rows of the recursion not found")
        return
    now = next(iter(now))
    el = now.a[1] if now.k == "sub" and now.a[0] is idxs else (now if now.k == "elem" else None)
    if el is None or el.k != "elem":
        c.und(con + "/rows", f"rewards are read at {show(now)}")
        return
    src = el.a[0]
    if now.k == "elem":     # for now in reversed(stacked)
        d = "down" if is_call(src, "reversed") and src.a[1] and src.a[1][0] is idxs or src.k == "sub" and src.a[0] is idxs and src.a[1].k == "slice" and list(src.a[1].a)[2] is const(-1) else (False if src is idxs else None)
        d = "up" if d is False else d
    else:
        d = loop_dir(src, lambda t: t is nst or is_len_of(t, idxs))
    it = loop_of(fl, el)
    c.decide(None if d is None else d == "down", con + "/backwards", it.where if it else fl.entry.where, f"the recursion over the following rows runs {d}")

    def leaf(x, idx):
        if x is rew and idx is now:
            return "r"
        if x is end and idx is now:
            return "e"
        if x is gam:
            return "g"
        if x is mu:
            return "mu"
        if x is tq:
            return "q"
        return None

    def is_end(t):
        return ew(t, leaf) == (X("e"), ONE)
    # zeroing of the running sum before it is used
    zero = [n for n in setsubs(fl) if n.d["base"] is mu]
    got = ew(nxt, leaf)
    if zero:
        m = None
        for n in zero:
            v = ew(n.d["value"], leaf)
            k_, dd = ew(n.d["index"], leaf)
            if not known((k_, dd), ("e", "r", "g", "mu", "q")):
                c.und(con + "/ends", show(n.d["index"]))
                return
            m = (v, k_)
            p = find_path(edge(it, "next"), it, [n], skip_start=False)
            if p is not None:
                c.bad(con + "/ends", n.where, f"the sum is not restarted on {describe(p)}")
        (v, _), k_ = m
        num, den = got
        got = (num.without("mu") + num.coeff("mu") * ((ONE - k_) * X("mu") + k_ * v), den)
    judge(c, got, pair(X("r") + X("g") * (ONE - X("e")) * X("mu")), ("r", "e", "g", "mu", "q"), con + "/rewards", (zero[0] if zero else it).where, "the reward sum is not r + gamma*(1-end)*next")
    # exponent of the discount
    r = fl.ret_value
    pw = [x for x in subterms(r) if gpow_count(fl, x, gam, nst) is not None]
    if not pw:
        c.und(con + "/discount", "power of gamma not found")
        return
    counts = {gpow_count(fl, x, gam, nst)[0] for x in pw}
    okp = all(gpow_count(fl, x, gam, nst)[1] for x in pw)
    c.decide(okp, con + "/powers", fl.entry.where, "the table of discounts does not hold the powers of gamma")

    def leaf2(x, idx):
        if any(x is y for y in pw):
            return "G"
        if x is mu:
            return "mu"
        if x is tq:
            return "q"
        return None
    judge(c, ew(r, leaf2), pair(X("q") * X("G") + X("mu")), ("q", "G", "mu"), con + "/value", fl.entry.where, "the result is not gamma^n * value + reward sum")
    if len(counts) != 1:
        c.und(con + "/count", "several exponents")
        return
    cnt = counts.pop()

    def steps(x):
        def lf(y, idx):
            return "n" if y is el and y is not now else None
        return ew(x, lf)[0]
    lp = cnt
    base = bare(lp)
    if base.k == "loopphi":
        i0, i1 = fl.loops[base]
        v = ew(i1, lambda y, idx: "e" if (y is end and idx is now) else ("n" if y is el else ("cnt" if y is base else None)))
        judge(c, v, pair(X("e") * (X("n") + ONE) + (ONE - X("e")) * X("cnt")), ("e", "n", "cnt"), con + "/count", fl.entry.where, "the exponent at an episode end is not the number of rewards summed")
        i0 = bare(i0)
    else:
        i0 = base
        ss = [n for n in setsubs(fl) if bare(n.d["base"]) is base]
        if len(ss) != 1:
            c.und(con + "/count", f"{len(ss)} stores into the exponent") if ss else c.bad(con + "/count", fl.entry.where, "the exponent of the discount is not cut at episode ends")
        else:
            n = ss[0]
            kx = ew(n.d["index"], leaf)
            if not known(kx, ("e", "r", "g", "mu")):
                c.und(con + "/count", show(n.d["index"]))
            else:
                c.decide(kx == (X("e"), ONE), con + "/count at ends", n.where, f"the exponent is cut where {show(n.d['index'])}")
                s = steps(n.d["value"])
                c.decide(s == X("n") + ONE if s.atoms() <= {"n"} else None, con + "/count", n.where, f"the exponent at an episode end is {show(n.d['value'])}, not the number of rewards summed")
                p = find_path(edge(it, "next"), it, [n], skip_start=False)
                c.decide(p is None, con + "/count every row", n.where, f"exponent not updated on {describe(p)}")
    if is_call(i0, "full") and len(operands(i0)) >= 2:
        c.decide(operands(i0)[1] is nst or is_len_of(operands(i0)[1], idxs), con + "/count start", fl.entry.where, f"without an episode end the exponent is {show(operands(i0)[1])}, not the number of steps")
    else:
        c.und(con + "/count start", show(i0))


def gpow_count(fl, x, gam, nst):
    """(exponent, table is right) when x is gamma to some power."""
    if x.k == "bin" and x.a[0] == "**" and x.a[1] is gam:
        return x.a[2], True
    if x.k == "call" and callname(x) in ("power", "pow") and len(operands(x)) == 2 and operands(x)[0] is gam:
        return operands(x)[1], True
    if x.k != "sub" or x.a[1].k in ("slice", "const"):
        return None
    b = x.a[0]
    if b.k == "bin" and b.a[0] == "**" and b.a[1] is gam and is_call(b.a[2], "arange"):
        return x.a[1], True
    if is_call(b, "ones", "full") and b.k == "call":
        ss = [n for n in setsubs(fl) if n.d["base"] is b]
        if len(ss) != 1 or not any(y is gam for y in subterms(ss[0].d["value"])):
            return None
        n = ss[0]
        i = n.d["index"]
        if i.k != "elem" or not is_call(i.a[0], "range"):
            return None

        def leaf(y, idx):
            if y is gam:
                return "g"
            if y is b and idx is not None:
                q = ew(idx, lambda z, _: "i" if z is i else None)[0]
                return "prev" if q == X("i") - ONE else f"tab@{skey(idx)}"
            return None
        ok = ew(n.d["value"], leaf) == (X("g") * X("prev"), ONE)
        a = list(i.a[0].a[1])
        ok = ok and len(a) == 2 and a[0] is const(1)
        if ok:
            hi = ew(a[1], lambda z, _: "n" if z is nst or is_call(z, "len") else None)[0]
            ok = hi == X("n") + ONE or not hi.atoms() <= {"n"}
        return x.a[1], ok
    return None


# ------------------------------------------------------------------------------------ callers of the kernels
def by_names(n, ps):
    """Arguments of a call by the callee's parameter names (a leading self in ps is dropped by the caller)."""
    d = {x: a for x, a in zip(ps, n.d["args"])}
    d.update(n.d["kw"])
    return d


def row_leaf(rows):
    """Names the flags of the given rows of the buffer and of the batch."""
    def leaf(t, idx):
        if t.k != "attr" or t.a[1] not in ("terminated", "truncated", "done", "rew"):
            return None
        b = t.a[0]
        if b is P("batch") and idx is None:
            return t.a[1]
        if b is P("buffer") and idx is not None and idx in rows or idx is None and b.k == "sub" and b.a[0] is P("buffer") and b.a[1] in rows:
            return t.a[1]
        if b is P("buffer") or b.k == "sub" and b.a[0] is P("buffer"):
            return f"{t.a[1]}@{skey(idx if idx is not None else b.a[1] if b.k == 'sub' else NONE)}"
        return None
    return leaf


FLAGS = ("terminated", "truncated", "done", "rew")


def end_flags(c, fl, t, con, where, rows, at, mask_of):
    """t is terminated-or-truncated of the given rows plus the unfinished steps, in an array of its own, set before node `at`."""
    b = t
    while b.k == "call" and callname(b) in ("astype", "asarray", "reshape", "flatten") and operands(b):
        b = operands(b)[0]
    extra = None
    if b.k == "call" and callname(b) in ("logical_or", "bitwise_or") or b.k in ("bin",) and b.a[0] == "|":
        ops = operands(b) if b.k == "call" else list(b.a[1:3])
        un = [o for o in ops if any(x.k == "call" and callname(x) == "unfinished_index" for x in subterms(o))]
        if len(un) == 1 and len(ops) == 2:
            extra = un[0]
            b = [o for o in ops if o is not extra][0]
    got = ew(b, row_leaf(rows))
    T, U, D = X("terminated"), X("truncated"), X("done")
    if got[0] in (T + U - T * U, D) and got[1] == ONE:
        c.ok(con + "/ends")
    elif known(got, FLAGS):
        c.bad(con + "/ends", where, f"episode ends are taken to be {got[0]!r}, not terminated or truncated")
    else:
        c.und(con + "/ends", show(b))
    if extra is not None:
        c.decide(mask_of(extra), con + "/unfinished", where, f"unfinished steps are marked by {show(extra)}")
        return
    ss = [n for n in setsubs(fl) if n.d["base"] is t and (n.d["value"] is TRUE or n.d["value"] is const(1))]
    good = [n for n in ss if mask_of(n.d["index"])]
    p = find_path([fl.entry_node], at, good)
    c.decide(p is None, con + "/unfinished", where, f"steps of unfinished episodes do not end the accumulation: {describe(p)}")
    if ss:
        own = t.k in ("call", "bin", "un") and not (t.k == "call" and callname(t) in ("asarray", "reshape", "flatten", "ravel", "view"))
        c.decide(True if own else False, con + "/own array", ss[0].where, f"the stored flags {show(t)} are overwritten")


def unfinished_rows(idx):
    """Is idx the buffer positions (or the mask over `indices`) of unfinished steps?"""
    def f(t):
        u = strip(t, "copy", "array", "asarray")
        if u.k == "call" and callname(u) == "unfinished_index" and u.a[0].a[0] is P("buffer"):
            return idx is None
        if u.k == "call" and callname(u) in ("isin", "in1d") and idx is not None and len(operands(u)) >= 2:
            if any(k in ("invert",) for k, _ in u.a[2]):
                return False
            a, b = operands(u)[-2:]
            b = strip(b, "copy", "array", "asarray")
            return a is idx and b.k == "call" and callname(b) == "unfinished_index" and b.a[0].a[0] is P("buffer")
        return False
    return f


@rule("P03")
def episodic_returns_use_the_right_data(c):
    """compute_episodic_return masks the next values by termination, ends at done or unfinished steps, and returns advantage plus value, and advantage."""
    fl = c.flow("compute_episodic_return", "BasePolicy", opaque=OPQ)
    con = "compute_episodic_return"
    k = calls(fl, "_gae_return")
    if len(k) != 1:
        raise AnalysisBroken("call of _gae_return not found")
    n = k[0]
    ps = params_of(c.p.func("tianshou.policy.base._gae_return"))
    a = by_names(n, ps)
    v, v_, rew, end, g, lam = (a.get(x) for x in ps[:6])
    c.decide(g is P("gamma") and lam is P("gae_lambda"), con + "/discounts", n.where, f"gamma, lambda = {show(g)}, {show(lam)}")
    c.decide(rew is A("rew", P("batch")) if bare(rew) is A("rew", P("batch")) or rew.k == "attr" else None, con + "/reward", n.where, f"reward = {show(rew)}")
    rl = row_leaf([P("indices")])

    def leaf(t, idx):
        if t is P("v_s_"):
            return "v_"
        if t is P("v_s"):
            return "v"
        return rl(t, idx)
    M = ONE - X("terminated")
    for x in values(fl, v_):
        z = ew(x, leaf)
        if z == (Poly({}), ONE):
            continue
        judge(c, z, pair(X("v_") * M), ("v", "v_", *FLAGS), con + "/next value", n.where, "the next value is")
    for x in values(fl, v):
        if is_call(x, "roll"):
            sh = operands(x)[1] if len(operands(x)) > 1 else dict(x.a[2]).get("shift")
            c.decide(sh is const(1), con + "/value by shift", n.where, f"values are derived by {show(x)}")
            continue
        judge(c, ew(x, leaf), pair(X("v")), ("v", "v_", *FLAGS), con + "/value", n.where, "the value is")
    end_flags(c, fl, end, con, n.where, [P("indices")], n, unfinished_rows(P("indices")))
    r = fl.ret_value
    items = r.a[0] if r.k == "tuple" else ()
    if len(items) != 2:
        c.und(con + "/result", show(r))
        return
    adv = n.d["term"]
    lf = lambda t, idx: "adv" if t is adv else ("v" if t is v else ("v_" if t is v_ else None))
    judge(c, ew(items[0], lf), pair(X("adv") + X("v")), ("adv", "v", "v_"), con + "/returns", fl.entry.where, "the returns are not advantage plus value")
    c.decide(bare(items[1]) is adv, con + "/advantage", fl.entry.where, f"the advantage returned is {show(items[1])}")


@rule("P03")
def nstep_returns_use_the_right_data(c):
    """compute_nstep_return walks n-1 successors, evaluates the target without gradients at the last of them, masks it by that row's termination and cuts at done or unfinished steps."""
    fl = c.flow("compute_nstep_return", "BasePolicy", opaque=OPQ)
    con = "compute_nstep_return"
    k = calls(fl, "_nstep_return")
    if len(k) != 1:
        raise AnalysisBroken("call of _nstep_return not found")
    n = k[0]
    ps = params_of(c.p.func("tianshou.policy.base._nstep_return"))
    a = by_names(n, ps)
    rew, end, tq, st, g, ns = (a.get(x) for x in ps[:6])
    c.decide(g is P("gamma") and ns is P("n_step"), con + "/parameters", n.where, f"gamma, n_step = {show(g)}, {show(ns)}")
    c.decide(rew is A("rew", P("buffer")), con + "/reward", n.where, f"reward = {show(rew)}")
    # rows: indices, then successors
    lst = None
    for x in subterms(st):
        if x.k == "list":
            lst = x
    ap = [m for m in calls(fl, "append") if m.d["recv"] is lst] if lst is not None else []
    if lst is None or len(ap) != 1 or len(lst.a[0]) != 1:
        c.und(con + "/rows", show(st))
        rows = set()
    else:
        c.decide(lst.a[0][0] is P("indices"), con + "/first rows", n.where, f"the first rows are {show(lst.a[0][0])}")
        m = ap[0]
        x = m.d["args"][0]
        arg0 = operands(x)[1] if x.k == "call" and callname(x) == "next" and len(operands(x)) == 2 else None
        last = arg0 is not None and (arg0.k == "sub" and arg0.a[0] is lst and arg0.a[1] is const(-1) or arg0.k == "loopphi" and [strip(q) for q in fl.loops.get(arg0, ())] == [P("indices"), x])
        c.decide(last if arg0 is not None else None, con + "/next rows", m.where, f"following rows are {show(x)}")
        it = [h for h in nodes(fl, "iter") if any(find_path([z], m, [h], skip_start=False) is not None for z in edge(h, "next"))]
        if len(it) == 1:
            rng = it[0].d.get("it")
            cnt = None
            if rng is not None and is_call(rng, "range"):
                aa = list(rng.a[1])
                lin = [ew(q, lambda y, _: "n" if y is P("n_step") else None)[0] for q in aa]
                cnt = lin[0] if len(lin) == 1 else (lin[1] - lin[0] if len(lin) == 2 else None)
            c.decide(None if cnt is None or not cnt.atoms() <= {"n"} else cnt == X("n") - ONE, con + "/number of rows", m.where, f"{cnt!r} successors are taken for n steps")
            p = find_path(edge(it[0], "next"), it[0], [m], skip_start=False)
            c.decide(p is None, con + "/every row", m.where, f"row left out: {describe(p)}")
        else:
            c.und(con + "/number of rows", "loop not found")
    fn = [m for m in nodes(fl, "call") if m.d["term"].a[0] is P("target_q_fn")]
    if len(fn) != 1:
        c.und(con + "/target", f"{len(fn)} target calls")
        return
    f = fn[0]
    c.decide(bool(set(f.ctx or ()) & set(NOGRAD)), con + "/no gradient", f.where, "the target is computed with gradients recorded")
    c.decide(f.d["args"][0] is P("buffer") if f.d["args"] else None, con + "/target buffer", f.where, show(f.d["term"]))
    at = f.d["args"][1] if len(f.d["args"]) > 1 else None

    def is_last(t):
        return t is not None and t.k == "sub" and t.a[1] is const(-1) and (t.a[0] is lst or t.a[0] is st or bare(t.a[0]) is st)
    lastrow = is_last(at) or at is not None and at.k == "loopphi" and any(x.k == "call" and callname(x) == "next" for x in fl.loops.get(at, ()))
    c.decide(True if lastrow else (False if at is P("indices") or at is not None and at.k == "sub" and at.a[0] in (lst, st) else None), con + "/target rows", f.where, f"the target is evaluated at {show(at)}, not at the last row")
    rl = row_leaf([x for x in [at] if x is not None])

    def leaf(t, idx):
        return "q" if t is f.d["term"] else rl(t, idx)
    judge(c, ew(tq, leaf), pair(X("q") * (ONE - X("terminated"))), ("q", *FLAGS), con + "/bootstrap", n.where, "the bootstrapped value is")

    class AllRows:
        def __contains__(self, x):
            return False

    def leaf2(t, idx):
        return t.a[1] if idx is None and t.k == "attr" and t.a[0] is P("buffer") and t.a[1] in FLAGS else None
    b = strip(end, "astype")
    got = ew(b, leaf2)
    extra = None
    T, U, D = X("terminated"), X("truncated"), X("done")
    if known(got, FLAGS):
        c.decide(got in ((D, ONE), (T + U - T * U, ONE)), con + "/ends", n.where, f"episode ends are taken to be {got[0]!r}")
    else:
        c.und(con + "/ends", show(end))
    ss = [m for m in setsubs(fl) if m.d["base"] is end and (m.d["value"] is TRUE or m.d["value"] is const(1))]
    good = [m for m in ss if unfinished_rows(None)(m.d["index"])]
    p = find_path([fl.entry_node], n, good)
    c.decide(p is None, con + "/unfinished", n.where, f"steps of unfinished episodes do not end the accumulation: {describe(p)}")
    for m in setsubs(fl):
        b_ = m.d["base"]
        while b_.k == "call" and callname(b_) in ("asarray", "reshape", "view", "ravel"):
            b_ = operands(b_)[0]
        if b_.k == "attr" and b_.a[0] is P("buffer"):
            c.bad(con + "/own array", m.where, f"the stored {b_.a[1]} of the buffer is overwritten")
    c.ok(con + "/own array")
    w = [m for m in setattrs(fl, "returns") if m.d["base"] is P("batch")]
    good = [m for m in w if bare(m.d["value"]) is n.d["term"]]
    p = find_path([fl.entry_node], [fl.exit_node], good)
    c.decide(p is None, con + "/stored", n.where, f"the returns are not stored in the batch: {describe(p)}")
    c.decide(all(x is P("batch") for x in values(fl, fl.ret_value)) or None, con + "/result", fl.entry.where, show(fl.ret_value))


GAMMA = ("gamma", "discount_factor")


def configured(c, k, t):
    """Constructor parameter a self attribute holds, for class k (None: unknown)."""
    a = self_attr(t) if t is not None else None
    if a is None:
        return None
    fl = init_flow(c, k)
    vs = [v for n in setattrs(fl, a, base=SELF) for v in values(fl, n.d["value"])]
    vs = [v for v in vs if v.k != "const" or len(vs) == 1]
    return {v.a[0] if v.k == "param" else show(v) for v in vs} or None


@rule("P03")
def callers_pass_their_own_data_and_settings(c):
    """Every policy computes its returns from the batch, buffer and indices it is processing, with its configured discount, step number and lambda, and its own target function."""
    tot = 0
    for k in policies(c.p):
        f = k.find("process_fn")
        if f is None or f.cls is None or f.cls.name == "BasePolicy":
            continue
        for meth in ("process_fn", "learn", "process_buffer"):
            m_ = k.find(meth)
            if m_ is None or m_.cls.name == "BasePolicy":
                continue
            fl = c.flow(m_, k, opaque=("to_numpy", "to_torch_as", "to_torch", "compute_episodic_return", "compute_nstep_return", "split", "_target_q", "sample"))
            for n in calls(fl, "compute_episodic_return", "compute_nstep_return"):
                tot += 1
                con = f"{k.name}.{meth}/{n.d['name']}"
                tf = k.find(n.d["name"])
                ps = [x for x in params_of(tf) if x != "self"]
                a = by_names(n, ps)
                if meth == "process_fn":
                    for x in ("batch", "buffer", "indices"):
                        v = a.get(x)
                        ok = v is P(x) or v is not None and P(x) in values(fl, v)
                        if v is None:
                            ok = False
                        c.decide(True if ok else (False if v is None or v.k in ("param", "const") else None), f"{con}/{x}", n.where, f"{x} = {show(v) if v is not None else 'default'}")
                else:
                    b, i = a.get("batch"), a.get("indices")
                    if b is not None and i is not None and b.k == "item" and i.k == "item":
                        c.decide(b.a[0] is i.a[0] and (b.a[1], i.a[1]) == (0, 1) and operands(b.a[0])[0] is a.get("buffer"), f"{con}/rows", n.where, "batch, buffer and indices do not belong together")
                sets = {"gamma": GAMMA}
                if n.d["name"] == "compute_nstep_return":
                    sets["n_step"] = ("estimation_step", "n_step")
                else:
                    sets["gae_lambda"] = ("gae_lambda",)
                for x, want in sets.items():
                    v = a.get(x)
                    if v is None:
                        c.bad(f"{con}/{x}", n.where, f"{x} is left at its default")
                        continue
                    if x == "gae_lambda" and v.k == "const":
                        init = k.find("__init__")
                        c.decide(v.a[0] == 1 and "gae_lambda" not in params_of(init), f"{con}/{x}", n.where, f"lambda is {v.a[0]}")
                        continue
                    cf = configured(c, k, v)
                    if cf is None:
                        c.decide(False if v.k == "const" else None, f"{con}/{x}", n.where, f"{x} = {show(v)}")
                        continue
                    init = params_of(k.find("__init__"))
                    if any(w in init for w in want) or k.find("__init__").cls is not k:
                        c.decide(cf <= set(want), f"{con}/{x}", n.where, f"{x} = {show(v)}, which holds {sorted(cf)}")
                    else:
                        c.decide(True if any(q.replace('.', '', 1).isdigit() for q in cf) else None, f"{con}/{x}", n.where, f"{sorted(cf)}")
                if n.d["name"] == "compute_nstep_return":
                    v = a.get("target_q_fn")
                    own = v is not None and (v is A("_target_q") or v.k == "closure" and "_target_q" in show(v))
                    c.decide(True if own else (None if v is not None and v.k not in ("attr",) else False), f"{con}/target", n.where, f"target function {show(v) if v is not None else None}")
    if tot < 12:
        raise AnalysisBroken(f"only {tot} return computations found")


@rule("P03")
def targets_are_evaluated_at_next_observations(c):
    """A policy's target function evaluates its networks at the next observations of exactly the rows it is given."""
    tot = 0
    for k in policies(c.p):
        for meth in ("_target_q", "_target_dist"):
            f = k.find(meth)
            if f is None:
                continue
            fl = c.flow(f, k, opaque=("to_numpy", "to_torch_as", "to_torch", "forward"))
            ps = [x for x in params_of(f) if x != "self"]
            con = f"{k.name}.{meth}"
            reads = []
            for n in nodes(fl, "call"):
                for x in subterms(n.d["term"]):
                    if x.k == "attr" and x.a[1] in ("obs", "obs_next"):
                        b = strip(x.a[0], "copy", "deepcopy")
                        if meth == "_target_q" and (b is P(ps[0]) or b.k == "sub" and b.a[0] is P(ps[0])) or meth == "_target_dist" and b is P(ps[0]):
                            reads.append((n, x, b))
                    if x.k == "call" and callname(x) == "get" and x.a[0].k == "attr" and x.a[0].a[0] is P(ps[0]) and len(x.a[1]) > 1:
                        reads.append((n, Term("attr", Term("sub", P(ps[0]), x.a[1][0]), x.a[1][1].a[0] if x.a[1][1].k == "const" else "?"), Term("sub", P(ps[0]), x.a[1][0])))
            if not reads:
                if meth == "_target_q" and not any(self_attr(x) for n in nodes(fl, "call") for x in [n.d["term"].a[0]]):
                    continue
                c.und(con, "no read of observations")
                continue
            tot += 1
            bad = [x for n, x, b in reads if x.a[1] == "obs"]
            c.decide(not bad, con + "/next", fl.entry.where, f"the target is evaluated at {show(bad[0]) if bad else ''}")
            if meth == "_target_q":
                rows = {b.a[1] for n, x, b in reads if b.k == "sub"}
                whole = [x for n, x, b in reads if b.k != "sub"]
                c.decide(rows == {P(ps[1])} if not whole else None, con + "/rows", fl.entry.where, f"rows {[show(r) for r in rows]}")
    if tot < 12:
        raise AnalysisBroken(f"only {tot} target functions found")


def has_rew(t):
    return any(x.k == "attr" and x.a[1] in ("rew",) for x in subterms(t))


@rule("P03")
def own_targets_bootstrap_unless_terminated(c):
    """Value targets a policy computes itself are r + gamma (1 - terminated) * value of the next state, with the configured discount and without gradients."""
    tot = 0
    for k in policies(c.p):
        for meth in ("process_fn", "learn"):
            f = k.find(meth)
            if f is None or f.cls.name == "BasePolicy":
                continue
            fl = c.flow(f, k, opaque=("to_numpy", "to_torch_as", "to_torch", "compute_nstep_return", "compute_episodic_return", "_target_q", "split", "sample", "train"))
            t2n = {n.d["term"]: n for n in nodes(fl, "call")}
            cand = {}
            for n in nodes(fl):
                for x in [*n.d.get("args", ()), n.d.get("value"), n.d.get("term")]:
                    if isinstance(x, Term):
                        for y in subterms(x):
                            if y.k in ("bin", "ibin") and y.a[0] in "+-" and has_rew(y):
                                cand.setdefault(y, n)
            def leaf(t, idx):
                if t.k == "attr" and t.a[1] in FLAGS and (t.a[0].k in ("param", "call", "elem") or t.a[0].k == "sub"):
                    return t.a[1]
                if t.k == "sub" and idx is None and t.a[0].k == "attr" and t.a[0].a[1] in FLAGS:
                    return t.a[0].a[1]
                a = self_attr(t)
                if a is not None:
                    cf = configured(c, k, t)
                    if cf is not None and len(cf) == 1:
                        return "$" + next(iter(cf))
                if t.k == "param" and t.a[0] in GAMMA:
                    return "$" + t.a[0]
                return None
            tg = set(targets(c, k)) | {"_target_q"}
            form = {y: ew(y, leaf) for y in cand}
            form = {y: z for y, z in form.items() if z[1] == ONE and z[0].coeff("rew") == ONE and z[0].without("rew").m}
            for y, n in cand.items():
                if y not in form or any(z is not y and y in set(subterms(z)) for z in form):
                    continue
                num, den = form[y]
                # clipping or scaling of the reward is not a value target
                nets = [x for x in subterms(y) if x.k == "call" and t2n.get(x) is not None and network(x)]
                if not any(self_attr(x.a[0]) in tg for x in nets):
                    continue
                tot += 1
                con = f"{k.name}.{meth}/target"
                rest = num.without("rew")
                masked = [m for m in setsubs(fl) if m.d["base"] in set(subterms(y)) and m.d["value"].k == "const" and m.d["value"].a[0] == 0]
                mk = [ew(m.d["index"], leaf)[0] for m in masked]
                flags = {x for x in rest.atoms() if x in FLAGS}
                T = X("terminated")
                if masked and not flags:
                    good = [m for m, z in zip(masked, mk) if z == T]
                    p = find_path([t2n[nets[0]]], n, good)
                    c.decide(p is None, con + "/mask", n.where, f"the bootstrapped value is cut by {[show(m.d['index']) for m in masked]}")
                else:
                    cz = rest.without("terminated") + rest.coeff("terminated")
                    okm = flags == {"terminated"} and cz == Poly({})
                    c.decide(okm, con + "/mask", n.where, f"the bootstrapped value is {rest!r}"[:300])
                gs = {x for x in rest.atoms() if str(x).startswith("$")}
                disc = [x for x in gs if x[1:] in GAMMA]
                good = all(any((w in dict(mm)) for w in ("$gamma", "$discount_factor")) for mm in rest.m)
                c.decide(bool(disc) and good, con + "/discount", n.where, f"the next value is not discounted by the configured factor: {rest!r}"[:300])
                # gradients
                grads = set()
                for b in calls(fl, "backward"):
                    grads |= gclosure(fl, b.d["recv"])
                for b in nodes(fl, "call"):
                    if b.d["name"] == "grad" and b.d["args"]:
                        grads |= gclosure(fl, b.d["args"][0])
                rec = [x for x in nets if not set(t2n[x].ctx or ()) & set(NOGRAD)]
                c.decide(not rec or y not in grads, con + "/no gradient", n.where, f"the target carries gradients of {show(rec[0]) if rec else ''}")
                # next observations only
                for x in nets:
                    obs = {z.a[1] for q in operands(x) for z in subterms(q) if z.k == "attr" and z.a[1] in ("obs", "obs_next")}
                    if obs:
                        c.decide("obs" not in obs, con + "/next state", t2n[x].where, f"{show(x)} is not evaluated at the next observation")
    if tot < 3:
        raise AnalysisBroken(f"only {tot} own value targets found")


def network(t):
    f = t.a[0]
    return f.k == "attr" and f.a[0] is SELF and not t.a[0].a[1].startswith("to_") or f is SELF


@rule("P03")
def processing_keeps_rows_and_records_no_gradients(c):
    """Per-row results computed in pieces keep the order of the rows, and networks evaluated while processing record no gradients."""
    tot = 0
    for k in policies(c.p):
        f = k.find("process_fn")
        if f is None or f.cls.name == "BasePolicy":
            continue
        fl = c.flow(f, k, opaque=("to_numpy", "to_torch_as", "to_torch", "compute_nstep_return", "compute_episodic_return", "split", "_target_q", "forward"))
        nets = NETS(c, k)
        for n in calls(fl, "split"):
            if n.d["recv"] is None:
                continue
            tot += 1
            v = n.d["kw"].get("shuffle", n.d["args"][1] if len(n.d["args"]) > 1 else TRUE)
            c.decide(v is FALSE, f"{k.name}.process_fn/order", n.where, "results are computed in shuffled order and stored as if in order")
        for n in nodes(fl, "call"):
            t = n.d["term"]
            if n.kind == "call" and (t.a[0] is SELF or self_attr(t.a[0]) in nets) and any(x.k == "elem" and is_call(x.a[0], "split") for x in subterms(t)):
                tot += 1
                stored = any(t in closure(fl, m.d["value"], stop=grad_stop(fl)) for m in setattrs(fl) if m.d["base"] is not SELF)
                c.decide(bool(set(n.ctx or ()) & set(NOGRAD)) or not stored, f"{k.name}.process_fn/no gradient", n.where, f"{show(t)} is stored with its gradients")
    if tot < 8:
        raise AnalysisBroken(f"only {tot} evaluations found while processing")


def NETS(c, k):
    fl = init_flow(c, k)
    return {n.d["attr"] for n in setattrs(fl, base=SELF) if any(x in n.d["attr"] for x in ("actor", "critic", "model", "net", "vae"))}


@rule("P03")
def value_functions_are_evaluated_at_the_right_states(c):
    """The value of a step is that of its observation, the next value that of its next observation; with return normalisation both are scaled up and the returns scaled down by the same factor; returns and advantages are not mixed up."""
    tot = 0
    for k in policies(c.p):
        f = k.find("process_fn")
        if f is None or f.cls.name == "BasePolicy":
            continue
        fl = c.flow(f, k, opaque=("to_numpy", "to_torch_as", "to_torch", "compute_episodic_return", "compute_nstep_return", "split", "forward"))
        for n in calls(fl, "compute_episodic_return"):
            tf = k.find("compute_episodic_return")
            a = by_names(n, [x for x in params_of(tf) if x != "self"])
            v, v_ = a.get("v_s"), a.get("v_s_")
            con = f"{k.name}.process_fn"
            for x, nm, want in ((v, "v_s", "obs"), (v_, "v_s_", "obs_next")):
                if x is None:
                    continue
                seen = {z.a[1] for y in closure(fl, x) if y.k == "call" and self_attr(y.a[0]) and "split" != self_attr(y.a[0]) for q in operands(y)[1:] for z in subterms(q) if z.k == "attr" and z.a[1] in ("obs", "obs_next")}
                if seen:
                    tot += 1
                    c.decide(seen == {want}, f"{con}/{nm}", n.where, f"{nm} is computed from {sorted(seen)}")
            # normalisation
            if v is not None and v_ is not None:
                sc = [scale(fl, x) for x in (v, v_)]
                c.decide(sc[0] == sc[1], f"{con}/scale", n.where, f"v_s and v_s_ are scaled differently: {sc}")
            else:
                sc = [None, None]
            ret = [m for m in setattrs(fl, "returns") if m.d["base"] is P("batch") or True]
            adv = setattrs(fl, "adv")
            t = n.d["term"]
            for m in ret:
                for x in values(fl, m.d["value"]):
                    idx = items_of(fl, x, t)
                    if idx:
                        tot += 1
                        c.decide(idx == {0}, f"{con}/returns", m.where, "batch.returns is not the returns")
                        if sc[0] is not None and sc[0] != {"1"}:
                            s = scale(fl, m.d["value"], lambda y: y.k == "item" and y.a[0] is t)
                            want = {q if q == "1" else "1/" + q for q in sc[0]}
                            c.decide(s == want, f"{con}/returns scale", m.where, f"values are scaled by {sorted(sc[0])}, returns by {sorted(s)}") if n_last(ret, m) else None
            for m in adv:
                for x in values(fl, m.d["value"]):
                    idx = items_of(fl, x, t)
                    if idx:
                        tot += 1
                        c.decide(idx == {1}, f"{con}/adv", m.where, "batch.adv is not the advantage")
    if tot < 10:
        raise AnalysisBroken(f"only {tot} value evaluations found")


def n_last(ms, m):
    return m is ms[-1]


def items_of(fl, x, t):
    return {y.a[1] for y in closure(fl, x) if y.k == "item" and y.a[0] is t}


def scale(fl, x, is_leaf=None):
    """Factors ({'1'} for none) with which the base quantity enters x, over the alternatives of x."""
    out = set()
    todo = [(x, ONE, ONE)]
    while todo:
        t, n, d = todo.pop()
        t = bare(t)
        if is_leaf is not None and is_leaf(t):
            out.add(fmt(n, d))
            continue
        if t.k == "phi":
            todo += [(y, n, d) for y in t.a[0]]
        elif t.k in ("bin", "ibin") and t.a[0] in "*/":
            l, r = t.a[1], t.a[2]
            if not data(fl, r):
                todo.append((l, n * X(skey(r)), d) if t.a[0] == "*" else (l, n, d * X(skey(r))))
            elif t.a[0] == "*" and not data(fl, l):
                todo.append((r, n * X(skey(l)), d))
            else:
                out.add("?")
        else:
            out.add(fmt(n, d))
    return out


def data(fl, t):
    """Does t depend on a batch or the result of a network (not only on the policy's settings and statistics)?"""
    return any(y.k == "param" and y is not SELF or y.k in ("list", "item", "elem") for y in closure(fl, t))


def fmt(n, d):
    if n == d:
        return "1"
    s = repr(n) if n != ONE else ""
    return s if d == ONE else ("1" if not s else s) + "/" + repr(d)


@rule("P03")
def losses_do_not_differentiate_targets(c):
    """No loss is differentiated through a target network or through a policy's target function."""
    tot = 0
    for k in policies(c.p):
        tg = targets(c, k)
        f = k.find("learn")
        if not tg or f is None or f.cls is None or f.cls.name == "BasePolicy":
            continue
        fl = c.flow(f, k, opaque=("to_torch", "to_torch_as", "to_numpy", "sync_weight", "soft_update", "split", "_target_dist", "_target_q"))
        gc = set()
        for b in calls(fl, "backward"):
            gc |= gclosure(fl, b.d["recv"])
        for n in nodes(fl, "call"):
            t = n.d["term"]
            mv = n.d["kw"].get("model")
            if self_attr(t.a[0]) in tg or n.d["name"] in ("_target_q", "_target_dist") or t.a[0] is SELF and mv is not None and mv.k == "const" and mv.a[0] in tg:
                tot += 1
                c.decide(t not in gc, f"{k.name}.learn/{n.d['name']}", n.where, f"the loss is differentiated through {show(t)}")
    if tot < 6:
        raise AnalysisBroken(f"only {tot} target evaluations found in learning routines")


@rule("P03")
def nstep_targets_belong_to_the_nth_state(c):
    """A policy with configurable n-step returns whose loss itself evaluates networks at the next observation does so at the observation n steps ahead."""
    for k in policies(c.p):
        f, g = k.find("learn"), k.find("process_fn")
        if f is None or g is None or f.cls.name == "BasePolicy" or g.cls.name == "BasePolicy":
            continue
        pf = c.flow(g, k, opaque=("to_numpy", "to_torch_as", "to_torch", "compute_nstep_return", "compute_episodic_return", "next", "split", "_target_q", "forward"))
        nst = [by_names(n, [x for x in params_of(k.find("compute_nstep_return")) if x != "self"]).get("n_step") for n in calls(pf, "compute_nstep_return")]
        nst = [x for x in nst if x is not None and x.k != "const"]
        if not nst:
            continue
        fl = c.flow(f, k, opaque=("to_torch", "to_torch_as", "to_numpy", "sync_weight", "soft_update", "forward"))
        uses = []
        for n in nodes(fl, "call"):
            t = n.d["term"]
            if not (t.a[0] is SELF or self_attr(t.a[0]) in NETS(c, k)):
                continue
            if any(x.k == "attr" and x.a[1] == "obs_next" for q in operands(t) for x in subterms(q)) and set(n.ctx or ()) & set(NOGRAD):
                uses.append(n)
        con = f"{k.name}/next state"
        if not uses:
            c.ok(con)
            continue
        st = [n for n in setattrs(pf, "obs_next") if n.d["base"] is not SELF]
        good, bad = [], []
        for n in st:
            v = strip(n.d["value"], "copy", "deepcopy")
            i = v.a[0].a[1] if v.k == "attr" and v.a[1] == "obs_next" and v.a[0].k == "sub" and v.a[0].a[0] is P("buffer") else None
            lp = pf.loops.get(i, ()) if i is not None else ()
            walks = len(lp) == 2 and strip(lp[0]) is P("indices") and lp[1].k == "call" and callname(lp[1]) == "next" and i in operands(lp[1])
            cnt = None
            if walks:
                nx = [m for m in nodes(pf, "call") if m.d["term"] is lp[1]]
                for h in nodes(pf, "iter"):
                    if nx and any(find_path([z], nx[0], [h], skip_start=False) is not None for z in edge(h, "next")) and is_call(h.d["it"], "range"):
                        aa = [ew(q, lambda y, _: "n" if y in nst else None)[0] for q in h.d["it"].a[1]]
                        cnt = aa[0] if len(aa) == 1 else aa[1] - aa[0]
            if walks and cnt == X("n") - ONE:
                good.append(n)
            elif walks and cnt is not None and cnt.atoms() <= {"n"}:
                bad.append(n)
            else:
                bad.append(None)
        if not good:
            c.decide(False if not st or any(b is not None for b in bad) else None, con, uses[0].where, f"{show(uses[0].d['term'])} is evaluated one step ahead while the returns span {show(nst[0])} steps")
            continue

        def single(n, m, l):
            """Not the edge taken when the number of steps is one."""
            if n.kind != "branch" or l not in ("T", "F"):
                return True
            cc, pol = canon_cond(n.d["cond"])
            if cc.k == "cmp" and (cc.a[1] in nst and cc.a[2].k == "const" or cc.a[2] in nst and cc.a[1].k == "const"):
                l_, r_ = (1 if x in nst else x.a[0] for x in cc.a[1:3])
                one = {"<": l_ < r_, ">": l_ > r_, "<=": l_ <= r_, ">=": l_ >= r_, "==": l_ == r_, "!=": l_ != r_}.get(cc.a[0])
                if one is not None:
                    return ((l == "T") == pol) != one
            return True
        p = find_path([pf.entry_node], pf.exit_node, good, edge_ok=single)
        c.decide(p is None, con, good[0].where, f"the next observation stays one step ahead on {describe(p)}")
