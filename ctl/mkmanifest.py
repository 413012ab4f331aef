#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from ctl/props.py and ctl/notapplicable.py
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
checks = []
for p in sorted(PROPS):
    checks.append({
        "property": p,
        "quick_cmd": "python3 ctl/check.py %s quick" % p,
        "thorough_cmd": "python3 ctl/check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection: " + PROPS[p]["tech"],
        "level": "exploration",
        "level_note": PROPS[p]["note"],
    })
m = {"version": 1,
     "setup_cmd": "python3 ctl/setup.py",
     "hooks": {"guard": "none", "enable": "no change to the sources is needed: the checks "
               "compile /repo's working tree with -fsanitize=thread instrumentation and link it "
               "with the simulator (sim/rt.cpp), which serves every instrumented memory access, "
               "pthread, clock, allocation and file call", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
     "notes": "Repairs of genuine defects are the 'fix:' commits of /repo; see known_findings.txt and DESIGN.md."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
