#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(os.path.join(H, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in conf["not_applicable"]:
        na.append({"property": i, "reason": conf["not_applicable"][i]})
        continue
    c = conf["checks"][i]
    checks.append({
        "property": i,
        "quick_cmd": "./dst check %s --tier quick" % i,
        "thorough_cmd": "./dst check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: " + c["technique"],
        "level": "exploration",
        "level_note": c["note"] + " " + conf["common_note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./dst setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks instrument a copy of the working tree at build time (sim/src/vinstr), "
             "replacing net, sync, go statements and channel operations by simulated ones and adding a scheduling point to every statement. "
             "'./dst replay FILE' reruns a replay file, './dst determinism' shows that a seed is one exact execution.",
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
except OSError:
    pass
print(len(checks), "checks,", len(na), "not applicable")
