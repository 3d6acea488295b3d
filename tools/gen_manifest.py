"""Writes /verif/MANIFEST.json from the checks registered in check.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.MODULES:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 check.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         hooks=dict(guard="none", enable="no hook: the code is used through its public interface; see DESIGN.md", source_commits=[]),
         not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; conformance drivers in harness/. check.py <id> runs one check.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
