"""Cross-validation of vp/mips.py against LLVM's assembler (not part of any check)."""
import sys, random, subprocess, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vp import mips as M
from vp.core import Src
from concurrent.futures import ThreadPoolExecutor
MC = "/usr/lib/llvm-18/bin/llvm-mc"
s = Src(random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1))
I = []
while len(I) < 20000:
    a = s.pick([".psx", ".n64", ".ps2", ".psp"])
    t = M.gen(s, 0x8000, a, lambda s: ("0x8000", 0x8000))
    if t[2] and not t[0].startswith("v"): I.append(t)
# differences that are architectural (PS2/PSP encodings of their own), LLVM macros, or the documented operand order of armips
KNOWN = set("c.le.s c.lt.s clz clo madd maddu msub msubu div divu break jalr move".split())
bad = rejn = cmp = 0; rej = set(); good = set(); mm = set()
def one(t):
    for mcpu in ("mips64r2", "mips3"):
        r = subprocess.run([MC, "-triple=mips64-none-elf", "-mcpu=" + mcpu, "-show-encoding", "-target-abi=n64"], input=".set noat\n.set noreorder\n.set nomacro\n" + t[2].replace(".", ".", 1) + "\n", text=True, capture_output=True)
        enc = [l.split("encoding: [")[1].split("]")[0] for l in r.stdout.splitlines() if "encoding: [" in l]
        if r.returncode == 0 and len(enc) == 1: return t, enc[0]
    return t, None
with ThreadPoolExecutor(8) as ex:
    for t, e in ex.map(one, I):
        n = t[0].split()[0]
        if e is None: rej.add(n); rejn += 1; continue
        try: w = int.from_bytes(bytes(int(x, 16) for x in e.split(",")), "big")
        except ValueError: rej.add(n); continue
        cmp += 1; good.add(n)
        if w != t[1] and n not in KNOWN:
            bad += 1
            if n not in mm: mm.add(n); print("%-40s %-40s ours %08X llvm %08X" % (t[0], t[2], t[1], w))
print(len(I), "generated", rejn, "rejected", cmp, "compared", bad, "mismatches")
print("compared:", len(good), "never accepted by llvm:", " ".join(sorted(rej - good)))
