import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
T = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    pid = json.loads(l)["id"]
    if os.path.exists(f"{V}/vp/checks/{pid.lower()}.py"):
        t = T[pid]
        checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                       "evidence_file": f"evidence/{pid}.json", "technique": t[0], "level": "exploration", "level_note": t[1]})
    else:
        na.append({"property": pid, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 vp/build.py rel asan lib", "checks": checks, "not_applicable": na,
           "notes": "python3 check.py <ID> --replay <file> re-runs a replay file; --seed/--cases/--secs override the tier."},
          open(V + "/MANIFEST.json", "w"), indent=1)
