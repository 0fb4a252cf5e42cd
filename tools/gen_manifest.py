#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and lib/units.py (levels)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import units
NOTE_O = ("Bounded: the public operation histories of the units are executed over all paths of the code compiled from /repo's current headers with values, keys and targets universally quantified; "
          "tree sizes, histories and node capacities are bounded as the evidence states. Assumes allocation succeeds; trusts clang 18, engine/cv and Z3.")
NOTE_P = ("Contracts on the functions listed in the evidence are discharged for every state their preconditions allow (node capacities instantiated, values, lengths, positions and child depths universally covered as DESIGN.md states); "
          "the composition over the depth of the tree is the induction argument of DESIGN.md, not machine checked. Public-history units are bounded stand-ins, labelled bounded, never counted as proved. Assumes allocation succeeds; trusts clang 18, engine/cv and Z3.")
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    lv = units.LEVELS.get(p, "other")
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
                       technique="function contracts as ghost code on the real templates, discharged on LLVM IR with Z3" if lv == "proof" else "assertions over the real templates' LLVM IR, all paths, Z3; bounded stand-in for contracts",
                       level=lv, level_note=NOTE_P if lv == "proof" else NOTE_O))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[]), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
