#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from harnesses import CHECKS
HOOKS = {"guard": "MQT_CORE_VERIF_GC",
         "enable": "compiled with -DMQT_CORE_VERIF_GC (lib/vbuild.py); monitors then set dd::verifGCLimit per case",
         "source_commits": ["69e9e2a8ae89def51be451082c10eee5db3b47a3"]}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        s = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py check {i} --tier quick",
            "thorough_cmd": f"python3 run.py check {i} --tier thorough",
            "technique": s.get("technique", "runtime monitoring: instrumented (ASan+UBSan) execution of generated workloads, observed by an independent reference-model oracle"),
            "level": "exploration",
            "level_note": s.get("level_note", "Held on the executions observed, not proved: " + s["rule"][s["rule"].find("observation. ") + 13:]),
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "hooks": HOOKS, "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
