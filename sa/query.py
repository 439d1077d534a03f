"""Path, dependence and alias queries over a Flow (sa.flow.Builder)."""
from __future__ import annotations

from collections import deque

from .flow import NONE, Builder, Node, Term, canon_cond, children, const, dotted, is_call, show, subterms

EXC = {"exc", "raise", "reraise", "except", "uncaught"}


def N(pred):
    """Normalise a node predicate: callable, node, collection of nodes."""
    if callable(pred):
        return pred
    if isinstance(pred, Node):
        return lambda n: n is pred
    ids = {id(x) for x in pred}
    return lambda n: id(n) in ids


def successors(n, exc):
    for m, l in n.succ:
        if l in ("exc",) and not exc:
            continue
        yield m, l


def find_path(starts, goal, avoid=None, *, exc=False, loops_once=False, skip_start=True, edge_ok=None):
    """Shortest path (list of nodes) from any start to a goal node avoiding `avoid` nodes; None if none.

    exc: also follow the "this call raises" edges.  loops_once: a loop is entered at least once before
    it is left (for `for each element` obligations).  A start node itself is not tested unless skip_start
    is False.
    """
    goal = N(goal)
    avoid = N(avoid) if avoid is not None else (lambda n: False)
    if isinstance(starts, Node):
        starts = [starts]
    q = deque()
    seen = {}
    for s in starts:
        st = (s, True)
        if not skip_start:
            if avoid(s):
                continue
            if goal(s):
                return [s]
        q.append(st)
        seen[st] = None
    while q:
        cur = q.popleft()
        n, viaback = cur
        for m, l in successors(n, exc):
            if edge_ok is not None and not edge_ok(n, m, l):
                continue
            if loops_once and n.kind == "iter" and l == "done" and not viaback:
                continue
            vb = True
            if m.kind == "iter":
                vb = (n.id, l) not in m.d.get("fwd", ())
            nxt = (m, vb)
            if avoid(m):
                continue
            if nxt in seen and not goal(m):
                continue
            if goal(m):
                path = [m]
                c = cur
                while c is not None:
                    path.append(c[0])
                    c = seen[c]
                return path[::-1]
            seen[nxt] = cur
            q.append(nxt)
    return None


def reachable(starts, avoid=None, *, exc=False, edge_ok=None):
    avoid = N(avoid) if avoid is not None else (lambda n: False)
    if isinstance(starts, Node):
        starts = [starts]
    seen = set()
    st = list(starts)
    out = []
    while st:
        n = st.pop()
        for m, l in successors(n, exc):
            if edge_ok is not None and not edge_ok(n, m, l):
                continue
            if m.id in seen or avoid(m):
                continue
            seen.add(m.id)
            out.append(m)
            st.append(m)
    return out


def before_all(flow: Builder, node, through, **kw):
    """Path entry -> node that avoids `through` (None = every path passes through)."""
    return find_path(flow.entry_node, node, through, **kw)


def after_all(flow: Builder, node, through, *, exc=False, goal=None, **kw):
    """Path node -> normal exit (and raise exit if exc) avoiding `through`."""
    if goal is None:
        goal = [flow.exit_node] + ([flow.raise_exit] if exc else [])
    return find_path(node, goal, through, exc=exc, **kw)


def on_some_path(flow, a, b, **kw):
    """Is there a path a -> b?"""
    return find_path(a, b, **kw)


def nodes(flow, kind=None, pred=None):
    live = flow.__dict__.get("_live")
    if live is None:
        live = {flow.entry_node.id} | {n.id for n in reachable(flow.entry_node, exc=True)}
        flow._live = live
    return [n for n in flow.nodes if n.id in live and (kind is None or n.kind == kind) and (pred is None or pred(n))]


def calls(flow, *names, qual=None, recv=None, inlined=None, cls=None):
    """Call nodes by method/function name (last component) or by resolved qualified name."""
    out = []
    for n in nodes(flow, "call"):
        if names and n.d["name"] not in names and not any(q in names for q in n.d["quals"]):
            continue
        if qual is not None:
            qs = (qual,) if isinstance(qual, str) else qual
            if not any(q in qs for q in n.d["quals"]):
                continue
        if recv is not None:
            r = n.d["recv"]
            if callable(recv):
                if r is None or not recv(r):
                    continue
            elif r is not recv:
                continue
        if inlined is not None and n.d["inlined"] != inlined:
            continue
        out.append(n)
    return out


def arg(n, i=None, name=None, default=None):
    """Argument of a call node: by bound parameter name, keyword or position."""
    b = n.d.get("bound")
    if name is not None:
        if b is not None and name in b:
            return b[name]
        if name in n.d["kw"]:
            return n.d["kw"][name]
    if i is not None and i < len(n.d["args"]) and not any(a.k == "star" for a in n.d["args"][: i + 1]):
        return n.d["args"][i]
    return default


def all_args(n):
    return list(n.d["args"]) + [v for _, v in n.d["kwt"]]


def setattrs(flow, *names, base=None):
    out = []
    for n in nodes(flow, "setattr"):
        if names and n.d["attr"] not in names:
            continue
        if base is not None:
            b = n.d["base"]
            if callable(base):
                if not base(b):
                    continue
            elif b is not base:
                continue
        out.append(n)
    return out


def setsubs(flow, base=None, index=None):
    out = []
    for n in nodes(flow, "setsub"):
        if base is not None and not (base(n.d["base"]) if callable(base) else n.d["base"] is base):
            continue
        if index is not None and not (index(n.d["index"]) if callable(index) else n.d["index"] is index):
            continue
        out.append(n)
    return out


# ------------------------------------------------------------------ data dependence
def closure(flow: Builder, *terms, stop=None, through_calls=True, conds=False):
    """All terms the given terms are computed from (loop-carried values and container fills included).

    conds=False: selecting conditions of merged values are not followed.
    """
    seen = set()
    st = [t for t in terms if t is not None]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if stop is not None and stop(x):
            continue
        if x.k == "loopphi":
            st.extend(flow.loops.get(x, ()))
        if x.k == "phi":
            st.extend(x.a[0])
            if conds and x.a[1] is not None:
                st.append(x.a[1])
            continue
        if x in flow.mut:
            st.extend(flow.mut[x])
        if x.k == "call" and not through_calls:
            continue
        st.extend(children(x))
    return seen


def mentions(flow, term, pred, **kw):
    return any(pred(x) for x in closure(flow, term, **kw))


def attr_named(*names):
    return lambda t: (t.k == "attr" and t.a[1] in names) or (t.k == "sub" and t.a[1].k == "const" and t.a[1].a[0] in names) or (
        is_call(t, "getattr") and len(t.a[1]) > 1 and t.a[1][1].k == "const" and t.a[1][1].a[0] in names)


def values(flow, t, depth=0):
    """The alternative (merged) values a term may stand for: phi / loop-phi expanded, cycles cut."""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "phi":
            st.extend(x.a[0])
        elif x.k == "loopphi":
            st.extend(flow.loops.get(x, ()))
        elif x.k == "boolop" and x.a[0] == "or":
            st.extend(x.a[1])
        else:
            out.append(x)
    return out


def strip(t, *names):
    """Peel value-preserving wrappers: calls x.name(...) / f(x)."""
    while t.k == "call":
        f = t.a[0]
        if f.k == "attr" and f.a[1] in names:
            t = f.a[0]
        elif f.k == "global" and f.a[0].rsplit(".", 1)[-1] in names and t.a[1]:
            t = t.a[1][0]
        else:
            break
    return t


def root(t):
    """Base object of an access path."""
    while True:
        if t.k in ("attr", "sub", "item", "elem", "val"):
            t = t.a[0]
        else:
            return t


# ------------------------------------------------------------------ guards
def comp_filter(flow, comp):
    """Conditions (cond, polarity) under which a comprehension keeps an element (None: not decided)."""
    hs = [n for n in nodes(flow, "iter") if n.d.get("compsite") == comp.a[3]]
    if len(hs) != 1:
        return None
    h = hs[0]
    keep = h.d.get("keep", ())
    if len(keep) != 1:
        return None
    n, lab = keep[0]
    out = []
    outer = {(g, p) for g, p in guards(flow, h)}
    if n is h:
        return out
    for g, p in guards(flow, n):
        if (g, p) not in outer:
            out.append((g, p))
    if n.kind == "branch" and lab in ("T", "F"):
        c, p = canon_cond(n.d["cond"])
        pol = p == (lab == "T")
        if c.k == "boolop" and ((c.a[0] == "and" and pol) or (c.a[0] == "or" and not pol)):
            for x in c.a[1]:
                y, yp = canon_cond(x)
                out.append((y, yp == pol))
        else:
            out.append((c, pol))
    return out


def guards(flow, node):
    """Branch facts (cond, polarity) that hold on every path from entry to node."""
    cache = flow.__dict__.setdefault("_guards", {})
    if node.id in cache:
        return cache[node.id]
    out = []
    tgt = lambda n: n is node
    # candidate branches: those reachable backwards
    back = set()
    st = [node]
    while st:
        x = st.pop()
        for q, l in x.pred:
            if q.id not in back:
                back.add(q.id)
                st.append(q)
    for b in nodes(flow, "branch"):
        if b.id not in back:
            continue
        for lab, pol in (("T", True), ("F", False)):
            # all paths to node use edge (b, lab)?
            if find_path(flow.entry_node, tgt, exc=True, edge_ok=lambda n, m, l, b=b, lab=lab: not (n is b and l == lab)) is None:
                c, p = canon_cond(b.d["cond"])
                out.append((c, p == pol))
    # conjunctions
    res = []
    for c, p in out:
        res.append((c, p))
        if c.k == "boolop" and ((c.a[0] == "and" and p) or (c.a[0] == "or" and not p)):
            for x in c.a[1]:
                y, yp = canon_cond(x)
                res.append((y, yp == p))
    cache[node.id] = res
    return res


def guarded(flow, node, pred):
    return any(pred(c, p) for c, p in guards(flow, node))


def describe(path, limit=8):
    if not path:
        return ""
    pts = []
    last = None
    for n in path:
        if n.kind in ("branch", "call", "setattr", "setsub", "return", "raise", "iter", "entry", "exit", "raise_exit", "handler") and n.where != last:
            pts.append(n.where)
            last = n.where
    if len(pts) > limit:
        pts = pts[: limit // 2] + ["…"] + pts[-limit // 2:]
    return " -> ".join(pts)


# ------------------------------------------------------------------ polynomial normal form
class Poly:
    """Commutative polynomial over opaque atoms with rational coefficients."""

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v != 0}

    @staticmethod
    def c(v):
        return Poly({(): v})

    @staticmethod
    def x(a):
        return Poly({((a, 1),): 1})

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                d = dict(k1)
                for a, e in k2:
                    d[a] = d.get(a, 0) + e
                k = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda z: str(z[0])))
                r[k] = r.get(k, 0) + v1 * v2
        return Poly(r)

    def inv(self):
        if len(self.m) == 1:
            (k, v), = self.m.items()
            return Poly({tuple((a, -e) for a, e in k): 1 / v})
        return None

    def __eq__(self, o):
        ks = set(self.m) | set(o.m)
        return all(abs(self.m.get(k, 0) - o.m.get(k, 0)) < 1e-9 for k in ks)

    def __hash__(self):
        return 0

    def coeff(self, atom):
        """Polynomial coefficient of atom^1 (terms linear in atom)."""
        r = {}
        for k, v in self.m.items():
            d = dict(k)
            if d.get(atom) == 1:
                del d[atom]
                r[tuple(sorted(d.items(), key=lambda z: str(z[0])))] = v
        return Poly(r)

    def without(self, atom):
        return Poly({k: v for k, v in self.m.items() if atom not in dict(k)})

    def atoms(self):
        return {a for k in self.m for a, _ in k}

    def __repr__(self):
        return " + ".join(f"{v}·" + "·".join(f"{a}^{e}" if e != 1 else str(a) for a, e in k) if k else str(v) for k, v in self.m.items()) or "0"


TORCH_BIN = {"add": "+", "sub": "-", "mul": "*", "div": "/", "subtract": "-", "multiply": "*", "divide": "/"}


def poly(t, atom):
    """Normal form of an arithmetic term; `atom(term)` names a leaf (or returns a Poly, or None to recurse)."""
    a = atom(t)
    if a is not None:
        return a if isinstance(a, Poly) else Poly.x(a)
    if t.k == "const" and isinstance(t.a[0], int | float) and not isinstance(t.a[0], bool):
        return Poly.c(t.a[0])
    if t.k in ("bin", "ibin"):
        op = t.a[0]
        if op in "+-*/" and op != "**":
            l, r = poly(t.a[1], atom), poly(t.a[2], atom)
            if op == "+":
                return l + r
            if op == "-":
                return l - r
            if op == "*":
                return l * r
            if op == "/":
                i = r.inv()
                if i is not None:
                    return l * i
        if op == "**" and t.a[2].k == "const" and isinstance(t.a[2].a[0], int) and 0 < t.a[2].a[0] < 5:
            b = poly(t.a[1], atom)
            r = b
            for _ in range(t.a[2].a[0] - 1):
                r = r * b
            return r
    if t.k == "un" and t.a[0] == "-":
        return -poly(t.a[1], atom)
    if t.k == "call":
        f = t.a[0]
        nm = f.a[1] if f.k == "attr" else (f.a[0].rsplit(".", 1)[-1] if f.k == "global" else "")
        ops = ([f.a[0]] if f.k == "attr" else []) + list(t.a[1])
        if nm in TORCH_BIN and len(ops) == 2 and not t.a[2]:
            return poly(Term("bin", TORCH_BIN[nm], ops[0], ops[1]), atom)
        if nm in ("lerp",) and len(ops) == 3:
            a0, b0, w = (poly(x, atom) for x in ops)
            return a0 + w * (b0 - a0)
    return Poly.x(skey(t))


_sk = {}


def skey(t):
    """Structural key of a term ignoring call-site identity."""
    if not isinstance(t, Term):
        return repr(t)
    r = _sk.get(t)
    if r is not None:
        return r
    k, a = t.k, t.a
    if k == "call":
        r = f"{skey(a[0])}({','.join(skey(x) for x in a[1])};{','.join(n + '=' + skey(v) for n, v in sorted(a[2], key=lambda z: z[0]))})"
    elif k == "const":
        r = f"#{a[0]!r}"
    elif k in ("param", "global"):
        r = a[0]
    elif k == "attr":
        r = f"{skey(a[0])}.{a[1]}"
    elif k in ("list", "set", "dict", "comp"):
        ch = children(t)
        r = f"{k}{a[0] if k == 'comp' else ''}[{','.join(skey(x) for x in ch)}]"
    elif k == "ibin":
        r = f"(bin {a[0]} {skey(a[1])} {skey(a[2])})"
    else:
        parts = []
        for x in a:
            if isinstance(x, Term):
                parts.append(skey(x))
            elif isinstance(x, tuple):
                parts.append("[" + ",".join(skey(y) if isinstance(y, Term) else repr(y) for y in x) + "]")
            elif k in ("elem", "idx", "key", "val") and isinstance(x, int):
                continue
            else:
                parts.append(repr(x))
        r = f"({k} {' '.join(parts)})"
    _sk[t] = r
    return r
