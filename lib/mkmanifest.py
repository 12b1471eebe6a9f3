#!/usr/bin/env python3
"""Writes MANIFEST.json from the check table (lib/checks.py) and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
na = []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        fn, level, _ = checks.CHECKS[i]
        t, n = checks.NOTES[i]
        out.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                    "evidence_file": "evidence/%s.json" % i, "technique": t, "level": level, "level_note": n})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "mkdir -p evidence out",
     "hooks": {"guard": "CEST_VERIF_CHUNK_SIZE", "enable": "checks compile their drivers with -DCEST_VERIF_CHUNK_SIZE=<n> (deque block size in elements)",
               "source_commits": checks.HOOK_COMMITS},
     "checks": out, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(out), "checks,", len(na), "not applicable")
