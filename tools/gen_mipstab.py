"""One-time transcription of the MIPS instruction table (reviewed by hand, cross-validated by xval_mips.py).
Not run by any check: the result, vp/mipstab.py, is a fixed reference."""
import re, sys
src = open("/repo/Archs/MIPS/MipsOpcodes.cpp").read()
src = re.sub(r"//.*", "", src)
B = lambda st, ln, v: (v & ((1 << ln) - 1)) << st
N = {"MIPS_OP": lambda v: B(26, 6, v), "MIPS_RS": lambda v: B(21, 5, v), "MIPS_RT": lambda v: B(16, 5, v), "MIPS_RD": lambda v: B(11, 5, v),
     "MIPS_SA": lambda v: B(6, 5, v), "F": lambda v: B(0, 6, v), "VF": lambda v: B(23, 3, v)}
O = lambda op, **k: N["MIPS_OP"](op)
N["MIPS_SPECIAL"] = lambda v: v
N["MIPS_REGIMM"] = lambda v: 1 << 26 | v << 16
N["MIPS_COP0"] = lambda v: 16 << 26 | v << 21
N["MIPS_COP0FUNCT"] = lambda v: 16 << 26 | 16 << 21 | v
N["MIPS_COP1"] = lambda v: 17 << 26 | v << 21
N["MIPS_COP1BC"] = lambda v: 17 << 26 | 8 << 21 | v << 16
for n, k in zip("SDWL", (16, 17, 20, 21)): N["MIPS_COP1" + n] = (lambda k: lambda v: 17 << 26 | k << 21 | v)(k)
N["MIPS_VFPUSIZE"] = lambda v: (v & 1) << 7 | (v >> 1) << 15
N["MIPS_COP2"] = lambda v: 18 << 26 | v << 21
N["MIPS_COP2BC"] = lambda v: 18 << 26 | 8 << 21 | v << 16
N["MIPS_RSP_COP2"] = lambda v: 18 << 26 | 1 << 25 | v
N["MIPS_RSP_LWC2"] = lambda v: 50 << 26 | v << 11
N["MIPS_RSP_SWC2"] = lambda v: 58 << 26 | v << 11
for n, k in ((0, 24), (1, 25), (3, 27), (5, 55), (6, 60)): N["MIPS_VFPU%d" % n] = (lambda k: lambda v: k << 26 | v << 23)(k)
N["MIPS_SPECIAL3"] = lambda v: 31 << 26 | v
N["MIPS_ALLEGREX0"] = lambda v: 31 << 26 | 32 | v << 6
N["MIPS_VFPU4"] = lambda v: 52 << 26 | v << 21
for n, k in ((11, 0), (12, 1), (13, 2)): N["MIPS_VFPU4_%d" % n] = (lambda k: lambda v: 52 << 26 | k << 21 | v << 16)(k)
N["MIPS_VFPU6_1VROT"] = lambda: 60 << 26 | 7 << 23 | 1 << 21
N["MIPS_VFPU6_2"] = lambda v: 60 << 26 | 7 << 23 | v << 16
rows = []
for m in re.finditer(r'\{\s*"([^"]+)",\s*"([^"]*)",\s*(.*?),\s*((?:MA_\w+\|?)+),\s*([^{}]*?)\s*\}', src):
    name, enc, base, arch, fl = m.groups()
    enc = enc.replace("\\x0", "0")
    b = eval(base, dict(N)) & 0xFFFFFFFF
    fl = "" if fl == "0" else fl.replace("MO_", "").replace(" ", "")
    if name in ("wsbh", "wsbw", "seb", "bitrev", "seh") and enc == "d": fl = "RDT"
    rows.append((name, enc, b, arch.replace("MA_", ""), fl))
with open("/verif/vp/mipstab.py", "w") as f:
    f.write('"""MIPS instruction table: name, operands, fixed bits, availability, flags. Fixed reference data."""\nT = [\n')
    for r in rows: f.write(' ("%s", "%s", 0x%08X, "%s", "%s"),\n' % r)
    f.write("]\n")
print(len(rows))
