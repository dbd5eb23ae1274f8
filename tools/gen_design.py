"""Writes DESIGN.md from its parts, the checks and the findings."""
import sys, os, json, importlib
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = json.load(open(V + "/tools/techniques.json"))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
K = json.load(open(V + "/known_findings.json"))
o = open(V + "/tools/design_head.md").read() + "## Per property\n\n"
for p in P:
    c = importlib.import_module("vp.checks." + p["id"].lower()).CHECK
    o += "### %s %s\n\n" % (p["id"], p["title"])
    t = T[p["id"]]
    o += "*Method*: %s.\n\n%s\n\n" % (t[0], t[1][0].upper() + t[1][1:])
    o += "*Bounds*: quick %d cases or %d s, thorough %d cases or %d s; non-trivial: %s.\n" % (c.QUICK, c.QUICK_S, c.THOROUGH, c.THOROUGH_S, c.RULE)
    if c.ASSUMPTIONS: o += "Assumptions: " + "; ".join(c.ASSUMPTIONS) + ".\n"
    b = sorted(d for d in os.listdir(V + "/seeded") if json.load(open(V + "/seeded/%s/meta.json" % d))["property"] == p["id"])
    o += "\nPlanted changes caught: " + (", ".join(b) or "none planted") + ".\n"
    for k in K:
        if k["property"] == p["id"] and k["status"] == "known": o += "\nKnown finding (`%s`): %s.\n" % (k["tag"], k["what"])
    o += "\n"
o += open(V + "/tools/design_tail.md").read()
o += "\n## Defects found and repaired\n\nEach is a separate \"fix:\" commit in /repo; the check reports it again if it returns.\n\n| property | commit | what failed |\n|---|---|---|\n"
for k in K:
    if k["status"] == "fixed": o += "| %s | %s | %s |\n" % (k["property"], k.get("commit", ""), k["what"].replace("|", "\\|").replace("\n", " "))
o += "\n## Planted changes\n\nAll are caught by the quick check of their property (tools/plant.py re-verifies: applies, builds, passes the stable tests, demonstration fails with and passes without the change, check reports it).\n\n| change | property | needs | breaks |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    o += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"))
open(V + "/DESIGN.md", "w").write(o)
