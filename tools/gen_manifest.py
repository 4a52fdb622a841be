"""writes /verif/MANIFEST.json from the properties and the checks present in vp/checks"""
import importlib, json, os, re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
META = json.load(open(os.path.join(here, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(here, "vp", "checks", i.lower() + ".py")
    if not os.path.exists(f) or i not in META:
        na.append(dict(property=i, reason=META.get("_na", {}).get(i, "the monitor for this property is not finished yet")))
        continue
    m = META[i]
    level = re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                       evidence_file=f"evidence/{i}.json", technique=m["technique"], level=level, level_note=m["note"]))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every monitor observes through public interfaces. Replay: ./check.sh <ID> --replay <file>."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
