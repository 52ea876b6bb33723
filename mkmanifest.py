#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks_config.py."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from checks_config import CHECKS
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": CHECKS[i].get("technique", "runtime monitoring: online oracle over random workloads"),
                       "level": "exploration",
                       "level_note": CHECKS[i].get("note", "Sampled executions of the real code judged by an independent reference; nothing is proved.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks: all monitoring is through public interfaces and a stand-in for qpOASES. Only fix: commits were added to /repo."},
          open("MANIFEST.json", "w"), indent=1)
