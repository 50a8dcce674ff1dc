#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from engine/registry.py and the not-applicable list below."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,"engine"))
import registry
props=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
checks=[]; na=[]
for p in props:
    C=registry.CHECKS.get(p)
    if C:
        checks.append(dict(property=p,quick_cmd="python3 check.py %s"%p,thorough_cmd="python3 check.py %s --thorough"%p,
            evidence_file="evidence/%s.json"%p,technique="contract-based deductive verification of the extracted code (weakest-precondition style obligations over harness contracts, loop invariants, CBMC/SAT back end)",
            level=C.get("level","proof"),level_note=C.get("note","Every obligation of the listed contracts is discharged for all inputs by the verifier on code extracted from /repo on every run; trusts clang's IR, the IR-to-C translator, CBMC and the library contracts in engine/stl.")))
    else: na.append(dict(property=p,reason=registry.NOT_APPLICABLE.get(p,"check not built yet")))
json.dump(dict(version=1,setup_cmd="python3 -c 'import sys; sys.exit(0)'",checks=checks,not_applicable=na,
  notes="see DESIGN.md; no hooks are needed in /repo"),open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
