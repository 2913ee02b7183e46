import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bins = json.load(open(os.path.join(V, "harness", "props_bins.json")))
tech = json.load(open(os.path.join(V, "harness", "technique.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{
    "property": p, "quick_cmd": f"python3 run.py check {p} --tier quick",
    "thorough_cmd": f"python3 run.py check {p} --tier thorough",
    "technique": tech[p][0], "level": "exploration", "level_note": tech[p][1],
} for p in props if p in bins]
na = [{"property": p, "reason": "check not built yet"} for p in props if p not in bins]
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
