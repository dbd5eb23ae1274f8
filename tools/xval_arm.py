"""Cross-validation of vp/arm.py against LLVM's assembler (not part of any check)."""
import sys, random, subprocess, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vp import arm as A
from vp.core import Src
MC = "/usr/lib/llvm-18/bin/llvm-mc"
s = Src(random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1))
I = []
while len(I) < 20000:
    t = A.gen(s, 0x8000, ".nds", lambda s, k: ("0x8000", 0x8000) if k != "near" else None)
    if t[2]: I.append(t)
bad = rejn = cmp = crash = 0
from concurrent.futures import ThreadPoolExecutor
def chunk(L):
    r = subprocess.run([MC, "-triple=armv7-none-eabi", "-show-encoding"], input=".arm\n" + "\n".join(t[2] for t in L) + "\n", text=True, capture_output=True)
    if r.returncode < 0:
        if len(L) == 1: return [(L[0], None)]
        return chunk(L[:len(L) // 2]) + chunk(L[len(L) // 2:])
    rej = set(int(l.split(":")[1]) - 2 for l in r.stderr.splitlines() if ": error:" in l)
    enc = [l.split("encoding: [")[1].split("]")[0] for l in r.stdout.splitlines() if "encoding: [" in l]
    keep = [t for i, t in enumerate(L) if i not in rej]
    assert len(enc) == len(keep), (len(enc), len(keep))
    return [(t, e) for t, e in zip(keep, enc)] + [(L[i], None) for i in rej]
with ThreadPoolExecutor(8) as ex:
    for R in ex.map(chunk, [I[i:i + 100] for i in range(0, len(I), 100)]):
        for t, e in R:
            if e is None:
                rejn += 1
                if rejn < 30: print("rejected:", t[2])
                continue
            try: w = int.from_bytes(bytes(int(x, 16) for x in e.split(",")), "little")
            except ValueError: continue
            cmp += 1
            if w != t[1]:
                bad += 1
                if bad < 25: print("%-40s %-40s ours %08X llvm %08X" % (t[0], t[2], t[1], w))
print(len(I), "generated", rejn, "rejected", cmp, "compared", bad, "mismatches")
