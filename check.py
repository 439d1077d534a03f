#!/usr/bin/env python3
"""check.py <ID>|all [--tier quick|thorough] [--confirm]  -- static checks of /repo/tianshou."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
if os.environ.get("PYTHONHASHSEED") != "0":  # same order of sets in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
from sa import core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("pid", nargs="?", default="all")
ap.add_argument("--selftest", action="store_true")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--confirm", action="store_true")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
core.load_rules()
if a.selftest:
    from sa import selftest
    sys.exit(selftest.main())
ids = sorted(core.RULES) if a.pid == "all" else [a.pid]
rc = 0
if a.confirm and a.pid == "all":
    from sa import names, program
    if os.path.exists(names.FILE):
        os.remove(names.FILE)
    names.record({m.name: m.tree for m in program.Program().modules.values()})
for i in ids:
    r = core.run(i, a.tier, a.confirm)
    rc = max(rc, r)
    if a.v:
        print(open(os.path.join(core.EVID, f"{i}.report.txt")).read())
sys.exit(rc)
