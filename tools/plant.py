#!/usr/bin/env python3
"""Plants a bug from tools/bugs/<id>.py-style specs (BUGS list in tools/bugs.py) in a scratch copy of
/repo, confirms it (applies, builds, stable tests pass, demo passes clean / fails patched), runs the
property's check on it, and writes seeded/<id>/.
usage: plant.py [--nocheck] ID...   (no ID: all not yet in seeded/)"""
import sys, os, subprocess, shutil, json, importlib.util, shlex, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/plant"; WT = SC + "/repo"; BD = SC + "/build"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def prep():
    os.makedirs(SC, exist_ok=True)
    r = sh(f"rsync -rlp --delete --checksum --exclude=_build /repo/ {WT}/") if shutil.which("rsync") else None
    if r is None:
        # content-based sync so ninja rebuilds only what changed
        if not os.path.isdir(WT): sh(f"mkdir -p {WT}")
        for root, dirs, files in os.walk("/repo"):
            rel = os.path.relpath(root, "/repo")
            if rel == ".": dirs[:] = [d for d in dirs if d not in ("_build", ".git")]
            os.makedirs(os.path.join(WT, rel), exist_ok=True)
            for f in files:
                a, b = os.path.join(root, f), os.path.join(WT, rel, f)
                d = open(a, "rb").read()
                if not os.path.exists(b) or open(b, "rb").read() != d: open(b, "wb").write(d)
def build():
    r = sh(f"cmake -S {WT} -B {BD} -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS='-Wno-error -O1' -DARMIPS_USE_STD_FILESYSTEM=ON && ninja -C {BD}")
    return r
def tests():
    src = open("/opt/vp/run_tests.py").read().replace("/repo/Tests", WT + "/Tests").replace("/repo/_build", BD)
    open(SC + "/rt.py", "w").write(src)
    sh(f"python3 {SC}/rt.py {SC}/res.txt")
    ok = {l[5:].strip() for l in open(SC + "/res.txt") if l.startswith("PASS")}
    b = json.load(open("/opt/vp/BASELINE.json"))
    def strs(x):
        if isinstance(x, str): yield x
        elif isinstance(x, list):
            for y in x: yield from strs(y)
        elif isinstance(x, dict):
            for y in x.values(): yield from strs(y)
    want = {x for x in strs(b) if x.startswith("Tests/")}
    return sorted(want - ok), len(want)
DEMO = '''#!/bin/bash
# exit 0 when armips behaves as the property says
A=${ARMIPS:-/repo/_build/armips}
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$D" || exit 2
'''
def demo_text(b):
    t = DEMO
    for n, d in b.get("files", {}).items():
        if isinstance(d, bytes):
            t += "printf '%s' > '%s'\n" % ("".join("\\x%02x" % x for x in d), n)
        else:
            t += "cat > '%s' <<'XEOF'\n%s\nXEOF\n" % (n, d.rstrip("\n"))
    if "script" in b:
        return t + b["script"] + "\n"
    t += "timeout 60 \"$A\" %s > out.txt 2>&1\nrc=$?\n" % b.get("args", "a.asm")
    if b.get("rc", 0) == 0: t += "[ $rc = 0 ] || { cat out.txt; echo \"rc $rc\"; exit 1; }\n"
    else: t += "[ $rc = 1 ] || { cat out.txt; echo \"rc $rc, expected an error\"; exit 1; }\n"
    for n, h in b.get("expect", {}).items():
        t += "got=$(od -An -v -tx1 '%s' | tr -d ' \\n')\n[ \"$got\" = \"%s\" ] || { echo \"%s: $got\"; exit 1; }\n" % (n, h.replace(" ", "").lower(), n)
    for n in b.get("same", []): pass
    if "grep" in b: t += "grep -q %s out.txt || { cat out.txt; exit 1; }\n" % shlex.quote(b["grep"])
    if "nogrep" in b: t += "grep -q %s out.txt && { cat out.txt; exit 1; }\n" % shlex.quote(b["nogrep"])
    return t + "exit 0\n"
def main():
    sys.path.insert(0, V + "/tools")
    import bugs
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    todo = [b for b in bugs.BUGS if (b["id"] in args if args else not os.path.isdir(f"{V}/seeded/{b['id']}"))]
    prep(); r = build()
    if r.returncode: print(r.stdout.decode()[-2000:]); return 1
    shutil.copy2(BD + "/armips", SC + "/clean"); shutil.copy2(BD + "/libarmips.a", SC + "/cleanlib.a")
    for b in todo:
        bid = b["id"]; print("==", bid, flush=True)
        prep()
        bad = None
        for f, old, new in b["edits"]:
            p = f"{WT}/{f}"; raw = open(p, newline="").read()
            crlf = "\r\n" in raw
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if raw.count(old) != 1: bad = f"{f}: pattern occurs {raw.count(old)} times: {old!r}"; break
            open(p, "w", newline="").write(raw.replace(old, new))
        if bad: print("  EDIT", bad); continue
        d = sh(f"diff -u -r --exclude=_build --exclude=.git /repo {WT}").stdout
        files = [f for f, _, _ in b["edits"]]
        diff = b""
        for f in dict.fromkeys(files):
            diff += sh(f"git diff --no-index --no-color /repo/{f} {WT}/{f}").stdout.replace(f"a/repo/{f}".encode(), f"a/{f}".encode()).replace(f"b{WT}/{f}".encode(), f"b/{f}".encode())
        open(SC + "/patch.diff", "wb").write(diff)
        r = sh(f"git -C /repo apply --check {SC}/patch.diff")
        if r.returncode: print("  APPLY", r.stdout.decode()); continue
        r = build()
        if r.returncode: print("  BUILD", r.stdout.decode()[-1500:]); continue
        miss, n = tests()
        if miss: print("  TESTS broken:", miss); continue
        open(SC + "/demo.sh", "w").write(demo_text(b))
        rc = sh(f"ARMIPS={SC}/clean ARMIPS_LIB={SC}/cleanlib.a bash {SC}/demo.sh"); rp = sh(f"ARMIPS={BD}/armips ARMIPS_LIB={BD}/libarmips.a ARMIPS_SRC={WT} bash {SC}/demo.sh")
        if rc.returncode != 0: print("  DEMO clean fails:", rc.stdout.decode()[-500:]); continue
        if rp.returncode == 0: print("  DEMO patched passes"); continue
        out = f"{V}/seeded/{bid}"; os.makedirs(out, exist_ok=True)
        shutil.copy(SC + "/patch.diff", out); shutil.copy(SC + "/demo.sh", out); os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(out + "/meta.json", "w"), indent=1)
        print("  kept; demo says:", rp.stdout.decode()[-200:].strip().replace("\n", " | "))
        if "--nocheck" not in sys.argv:
            e = dict(os.environ, VP_REPO=WT, VP_BUILD=SC + "/vb")
            r = sh(f"cd {V} && python3 check.py {b['property']} --tier quick", env=e)
            t = r.stdout.decode(errors="replace")
            print("  check rc=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" in t else "*** MISSED: " + t[-300:]), flush=True)
    return 0
sys.exit(main())
