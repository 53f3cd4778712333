#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json and properties.jsonl"""
import json
ck = json.load(open("checks.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py && g++ --version", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in ck:
        c = ck[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "explicit-state bounded exhaustive exploration of the real code against a reference model"),
            "level": c["level"], "level_note": c.get("level_note", "Exhaustive within the stated finite domain on the implementation compiled from the working tree; nothing outside the domain is claimed. Trusted: the reference model, the compiler, the replacement OpenMP run time.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
