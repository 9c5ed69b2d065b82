#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist in harness/plans.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
import plans
TECH = getattr(plans, "TECHNIQUE", {})
NA = getattr(plans, "NOT_APPLICABLE", {})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if hasattr(plans, i):
        t, note = TECH.get(i, ("TLA+/TLC trace validation: TLC-generated worlds and shipped data run through the real code, each recorded answer compared with the specification operator",
                               "generated worlds are bounded and sampled (fixed by the seed); every recorded call is decided by TLC"))
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks: the public API returns the abstract state", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="run.py ID TIER runs one check; spec/ holds the TLA+ specification, harness/ the recorders, shims/ offline stand-ins for PuLP, dimod, pyqubo, neal and dwave")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
