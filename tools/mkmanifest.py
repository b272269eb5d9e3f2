#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
out = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[],
           notes="No hooks: the classes are observed through their template parameters (entries, configurations), "
                 "an own clock() and operator new, and their output. Known and fixed findings: known_findings.txt.")
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        out["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
        continue
    out["checks"].append(dict(
        property=p["id"],
        quick_cmd="python3 run.py %s" % p["id"],
        thorough_cmd="python3 run.py %s --thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=c.get("technique", "runtime monitoring: reference-model oracle over random operation histories, under ASan and UBSan"),
        level="exploration",
        level_note=c.get("note", "Held on the executions explored (counts in the evidence file); says nothing about histories "
                                 "not generated. Trusts the reference model in harness/ and the compiler's sanitizers.")))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "claimed", len(out["not_applicable"]), "not")
