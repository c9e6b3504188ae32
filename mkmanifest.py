"""Writes MANIFEST.json from the checks that exist."""
import json, os
HIST = "explicit-state model checking of the real code: breadth-first over all operation histories, in lockstep with a reference model"
NOTES = {}
exec(open("/verif/manifest_notes.py").read())
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("/verif/mc/checks/%s.py" % i.lower()):
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 -m mc.run %s --tier quick" % i,
                           thorough_cmd="python3 -m mc.run %s --tier thorough" % i,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 -m mc.selftest", checks=checks, not_applicable=na,
               notes="No hooks are needed in /repo: the checks import sandfs from /repo's working tree (pure Python, nothing to build)."),
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
