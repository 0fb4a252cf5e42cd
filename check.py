#!/usr/bin/env python3
"""check.py Pnn [--tier quick|thorough] | --replay FILE | --list"""
import json, os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver, units


def main():
    a = sys.argv[1:]
    if a[0] == "--list":
        for u in units.UNITS + units.SEARCH:
            print(u.name, u.src, u.layer, u.tier, " ".join(u.props))
        return 0
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        u = [x for x in units.UNITS + units.SEARCH if x.name == d["unit"]][0]
        b = tempfile.mkdtemp()
        ok, log = driver.replay(u, d["obligation"], b)
        print(log)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    known = []
    kf = os.path.join(driver.VERIF, "known_findings.txt")
    if os.path.exists(kf):
        known = [json.loads(l) for l in open(kf) if l.startswith("{")]
    us = units.UNITS
    if "--only" in a:
        us = [u for u in us if u.name in a[a.index("--only") + 1].split(",")]
    return driver.run(pid, us, tier, units.SEARCH, known, int(os.environ.get("VERIF_SEED", "1")))


sys.exit(main())
