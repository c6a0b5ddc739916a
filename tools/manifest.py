"""Writes MANIFEST.json: every property with a check module is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")) and i in notes:
        checks.append(dict(
            property=i, quick_cmd=f"./run.sh {i} quick",
            thorough_cmd=f"./run.sh {i} thorough",
            technique="TLA+ specification checked with TLC; behaviours and expected "
                      "values generated from it are replayed into the implementation",
            level="model_checking", level_note=notes[i]))
    else:
        na.append(dict(property=i, reason="not built yet"))
m = dict(version=1, setup_cmd="true",
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
