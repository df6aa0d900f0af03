"""writes MANIFEST.json from properties.jsonl and the checks present in props/"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
p = os.path.join(HERE, "tools", "na.json")
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if os.path.exists(os.path.join(HERE, "props", i + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "symbolic execution of the real Python source with Z3 deciding every branch and assertion",
                       "level": "model_checking",
                       "level_note": "holds for every input within the bounds listed in props/%s.py and its evidence; the solver decides each path condition and assertion, counterexamples are replayed on the unmodified code" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
