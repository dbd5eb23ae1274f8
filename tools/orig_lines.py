"""Lists planted bugs that change only lines which our own /repo commits added (such bugs do not count)."""
import subprocess, glob, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
base = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).split("\n")
own = [l.split()[0] for l in base if " fix:" in l]
orig = subprocess.check_output(["git", "-C", "/repo", "rev-parse", own[-1] + "^"], text=True).strip()
for d in sorted(glob.glob(root + "/seeded/*/patch.diff")):
    f = None; ok = rem = 0
    for l in open(d, encoding="utf-8", errors="replace"):
        if l.startswith("--- a/"): f = l[6:].strip(); src = subprocess.run(["git", "-C", "/repo", "show", orig + ":" + f], stdout=subprocess.PIPE).stdout.decode("utf-8", "replace").split("\n")
        elif l.startswith("-") and not l.startswith("---"):
            rem += 1; ok += l[1:].rstrip("\n") in src or l[1:].rstrip("\r\n") in [x.rstrip("\r") for x in src]
    if rem and not ok: print("own lines only:", d)
    if not rem: print("adds only:", d)
