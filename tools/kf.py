"""kf.py PROP COMMIT 'what failed': append a fixed entry to known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(p))
P, c, w = sys.argv[1:4]
d.append({"property": P, "status": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (P, c, w)})
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
