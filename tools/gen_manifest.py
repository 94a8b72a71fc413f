"""writes MANIFEST.json from properties.jsonl; CLAIMED: property -> (technique, note)"""
import json

PY = "/opt/venv/bin/python"
L1 = "explicit-state exploration of the real scheduler under all environment event orders within bounds, against a reference model"
CLAIMED = json.load(open("/verif/tools/claims.json"))
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f"{PY} -m mc.run {i} --tier quick", thorough_cmd=f"{PY} -m mc.run {i} --tier thorough",
                           technique=L1 if t == "L1" else t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd=f"{PY} -m mc.setup", checks=checks, not_applicable=na,
         notes="Every check runs the unmodified code of /repo's working tree inside a controlled world (no hooks in /repo). "
               "mc.run forks one process per scenario. Replay of a violation: python -m mc.replay FILE.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
