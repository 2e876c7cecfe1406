#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks in gen/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
NOTE = {
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/gen/%s.py" % (V, i)):
        model = "MODELS" in open("%s/gen/%s.py" % (V, i)).read()
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": ("TLA+ specification checked with TLC; its behaviours and random histories run on the code, recorded traces validated against it" if model else
                          "TLA+ specification; histories run on the code, every recorded call validated against it by TLC trace validation"),
            "level": "model_checking",
            "level_note": NOTE.get(i, "The specification defines the outcome of every call; TLC accepts or rejects each recorded history of the real (ASan-built) library against it. Exhaustive over the model's small constants, sampled (seeded) over histories of the real code.")})
    else:
        na.append({"property": i, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
