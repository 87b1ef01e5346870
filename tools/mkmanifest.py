"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
exec(open(os.path.join(here, "tools", "notes.py")).read())   # TECH, NOTE
checks, na = [], []
for p in PROPS:
    if p in TECH and os.path.exists(os.path.join(here, "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="bash run.sh " + p,
                           thorough_cmd="VERIF_TIER=thorough bash run.sh " + p,
                           technique=TECH[p], level="exploration", level_note=NOTE[p]))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
doc = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
           notes="No hooks in /repo: monitors wrap the running code from outside (Python attribute wrapping, stand-ins for the media libraries, and an instrumented 6502/W5100 machine for the player).")
json.dump(doc, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
