#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (%s); seeded schedule and fault search, model oracle" % ", ".join(x[0] for x in c["profiles"]),
            "level": "exploration",
            "level_note": c.get("note", "Seeded search over simulated executions of the real proxy code in one process; nothing is exhaustive. Trusts the simulated kernel (sockets, clock, disk) and the model network and clients."),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check registered yet; the simulator's oracle for it is still being built.")})
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py",
           "hooks": {"guard": "STATE_DUMP_INTERVAL", "enable": "tools/build.py compiles /repo's sources with -DSTATE_DUMP_INTERVAL=sim_dump_interval(), so that a run can dump the backlog state more often than every 1000 lines; every other seam is made at link time (libc and glib calls of /repo's objects are redirected with objcopy --redefine-syms).", "source_commits": ["747904661a637736a6853b5309b7d5979236b746"]},
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. VERIF_SEED shifts the seed range of every check; the default is 1."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
