#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the checks present and the reasons below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = {}
DEFAULT = "gated value-numbering dataflow analysis over the compiled IR of witness instantiations (static, no execution)"
exec(open(V + "/tools/manifest_notes.py").read())
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": TECH.get(i, DEFAULT), "level": "other", "level_note": NOTE.get(i, NOTE0)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
