"""Check driver: obligations, known findings, evidence, exit codes."""
from __future__ import annotations

import json
import math
import os
import sys
import time
import traceback
from collections import defaultdict

from .flow import Builder, FlowLimit
from .program import AnalysisBroken, Program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
CONFIRMED = os.path.join(HERE, "sa", "confirmed.json")

RULES = defaultdict(list)  # property -> [(rule name, function)]


def rule(pid, name=None):
    def deco(f):
        RULES[pid].append((name or f.__name__, f))
        f.pid = pid
        return f
    return deco


class Ctx:
    def __init__(self, prog: Program, pid: str, tier: str):
        self.p, self.pid, self.tier = prog, pid, tier
        self.rule = None
        self.obl = []  # (rule, construct, status, where, msg)
        self.flows = {}
        self.funcs = set()
        self.nodes = 0
        self.errors = []

    # -- reporting
    def ok(self, construct, what=""):
        self.obl.append((self.rule, construct, "ok", "", what))

    def bad(self, construct, where, msg):
        self.obl.append((self.rule, construct, "bad", where, msg))

    def und(self, construct, why):
        self.obl.append((self.rule, construct, "undecided", "", why))

    def decide(self, cond, construct, where, msg, what=""):
        """cond True -> discharged, False -> violated, None -> undecided."""
        if cond is None:
            self.und(construct, msg)
        elif cond:
            self.ok(construct, what)
        else:
            self.bad(construct, where, msg)

    # -- flows
    def flow(self, func, cls=None, **kw) -> Builder:
        if isinstance(func, str):
            if cls is not None:
                c = self.p.cls(cls) if isinstance(cls, str) else cls
                func = self.p.method(c, func)
                cls = c
            else:
                func = self.p.func(func)
        elif isinstance(cls, str):
            cls = self.p.cls(cls)
        if cls is None and func.cls is not None:
            cls = func.cls
        key = (func.qual, cls.qual if cls else None, repr(sorted((k, repr(v)) for k, v in kw.items())))
        if key not in self.flows:
            self.flows[key] = Builder(self.p, func, cls, **kw)
            self.funcs.add(func.qual)
            self.nodes += len(self.flows[key].nodes)
            for n in self.flows[key].nodes:
                self.funcs.add(n.fn)
        return self.flows[key]


def load_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                rest = line[len("known:"):].strip()
                pid = rest.split()[0].split("=", 1)[1]
                key, _, desc = rest.split("key=", 1)[1].partition(" :: ")
                known[(pid, key.strip())] = desc
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known, fixed


def load_rules():
    import importlib
    import pkgutil

    from . import rules
    for m in sorted(x.name for x in pkgutil.iter_modules(rules.__path__)):
        importlib.import_module(f"sa.rules.{m}")


def run(pid, tier="quick", confirm=False, prog=None, quiet=False):
    t0 = time.time()
    load_rules()
    if pid not in RULES:
        print(f"no rules registered for {pid}")
        return 2
    broken = []
    try:
        prog = prog or Program()
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    c = Ctx(prog, pid, tier)
    for name, f in RULES[pid]:
        c.rule = name
        try:
            f(c)
        except AnalysisBroken as e:
            broken.append(f"{name}: {e}")
        except FlowLimit as e:
            c.und(name, f"flow limit: {e}")
        except Exception as e:  # a rule that cannot cope with the code does not decide it
            c.und(name, f"internal: {e!r} {traceback.format_exc(limit=3)}")
            c.errors.append(f"{name}: {e!r}")
    known, fixed = load_known()
    counts = defaultdict(lambda: [0, 0, 0])
    for r, con, status, w, m in c.obl:
        counts[r][{"ok": 0, "bad": 1, "undecided": 2}[status]] += 1
    conf = json.load(open(CONFIRMED)) if os.path.exists(CONFIRMED) else {}
    if confirm:
        conf[pid] = {r: counts[r][0] + counts[r][1] for r, _ in RULES[pid]}
        json.dump(conf, open(CONFIRMED, "w"), indent=1, sort_keys=True)
        open(CONFIRMED, "a").write("\n")
    # A rule whose anchor has vanished or that no longer recognises most of its instances decides nothing about them: this is
    # reported (UNDECIDED-RULE, and in the evidence); when it concerns most of the property, the run fails as analysis-broken.
    want_all, got_all = 0, 0
    for r, _ in RULES[pid]:
        want = conf.get(pid, {}).get(r, 0)
        got = counts[r][0] + counts[r][1]
        want_all += want
        got_all += min(got, want)
        if want and got < max(1, math.ceil(want / 3)) and not any(b.startswith(r + ":") for b in broken):
            broken.append(f"{r}: only {got} rule instances decided, {want} were confirmed by hand")
    collapsed = want_all > 0 and got_all < want_all / 2 or not want_all and bool(broken)
    viol, kn = [], []
    seen = set()
    for r, con, status, w, m in c.obl:
        if status != "bad":
            continue
        key = f"{r}::{con}"
        if (key, w) in seen:
            continue
        seen.add((key, w))
        (kn if (pid, key) in known else viol).append((key, w, m))
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, f"{pid}.report.txt")
    lines = []
    for key, w, m in viol:
        lines.append(f"VIOLATED {key} at {w}\n    {m}")
    for key, w, m in kn:
        lines.append(f"KNOWN {key} at {w}\n    {m}\n    {known[(pid, key)]}")
    for r, con, status, w, m in c.obl:
        if status == "undecided":
            lines.append(f"UNDECIDED {r}::{con}: {m}")
    for r, con, status, w, m in c.obl:
        if status == "ok":
            lines.append(f"ok {r}::{con} {m}")
    open(rep, "w").write("\n".join(lines) + "\n")
    total = len(c.obl)
    okn = sum(1 for o in c.obl if o[2] == "ok")
    und = sum(1 for o in c.obl if o[2] == "undecided")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo/tianshou source (nothing executed): every rule instance below is an obligation "
            "derived from the inlined control-flow graph and value terms of the functions listed; 'discharged' ones hold on every path "
            "of that graph, 'undecided' ones are neither claimed nor alarmed.",
            "obligations": total, "discharged": okn, "undecided": und, "violated": len(viol), "known": len(kn),
            "rules": {r: {"ok": v[0], "violated": v[1], "undecided": v[2]} for r, v in sorted(counts.items())},
            "functions_analysed": len(c.funcs), "flow_graphs": len(c.flows), "flow_nodes": c.nodes,
            "modules_parsed": len(prog.modules), "source_digest": prog.digest.hexdigest()[:16],
            "samples": [f"{o[0]}::{o[1]} [{o[2]}] {o[4]}"[:300] for o in c.obl[:: max(1, total // 25)]][:30],
            "functions": sorted(c.funcs)[:200],
            "undecided_rules": broken, "names_read_as": prog.renamed,
            "undecided_list": [f"{o[0]}::{o[1]}: {o[4]}"[:300] for o in c.obl if o[2] == "undecided"][:40],
        },
        "assumptions": [
            "receivers have their annotated static type; method dispatch on self follows the MRO of the analysed class",
            "third-party calls (numpy, torch, gymnasium) have their documented effect and do not modify repository objects otherwise",
            "subclasses outside the repository are not analysed",
        ],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1)
    if not quiet:
        print(f"{pid}: {okn}/{total} obligations discharged, {len(viol)} violated, {len(kn)} known, {und} undecided; "
              f"{len(c.funcs)} functions, {c.nodes} nodes, {time.time() - t0:.1f}s")
    if prog.renamed and not quiet:
        print("  private names read as: " + ", ".join(f"{a} = {b}" for a, b in sorted(prog.renamed.items())[:20]))
    for key, w, m in kn:
        print(f"KNOWN-FINDING: property={pid} {key} at {w}: {known[(pid, key)]}")
    for key, w, m in viol:
        print(f"  {key} at {w}: {m}")
    if viol:
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    for b in broken:
        print(f"{'ANALYSIS-BROKEN' if collapsed else 'UNDECIDED-RULE'} property={pid} {b}")
    return 2 if collapsed else 0
