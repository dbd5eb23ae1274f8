"""Reference encoder for MIPS (PSX, N64, PS2, PSP with VFPU, RSP).
gen(s, pc, arch, target) -> (armips text, 32-bit word, llvm text or None, flags)."""
import re, struct
from .mipstab import T
from . import arm as A

ARCH = {".psx": ({"MIPS1", "PSX"}, "EXPSX", set(), "little"),
        ".n64": ({"MIPS1", "MIPS2", "MIPS3"}, "EXN64", {"64BIT", "FPU", "DFPU"}, "big"),
        ".ps2": ({"MIPS1", "MIPS2", "MIPS3", "PS2"}, "EXPS2", {"64BIT", "FPU"}, "little"),
        ".psp": ({"MIPS1", "MIPS2", "MIPS3", "PSP"}, "EXPSP", {"FPU"}, "little"),
        ".rsp": ({"MIPS1", "RSP"}, "EXRSP", set(), "big")}
ARCHS = list(ARCH)
GATED = {"64BIT", "FPU", "DFPU"}

def has(row, arch):
    sets, ex, feats, _ = ARCH[arch]
    a, f = set(row[3].split("|")), set(row[4].split("|"))
    return bool(a & sets) and ex not in a and not ((f & GATED) - feats)

# valid operand sizes of the VFPU instructions that do not exist in all four
VSIZE = {"vidt": "pq", "vf2h": "pq", "vh2f": "sp", "vuc2ifs": "s", "vc2i": "s", "vus2i": "sp", "vs2i": "sp", "vi2uc": "q", "vi2c": "q",
         "vi2us": "pq", "vi2s": "pq", "vsrt1": "q", "vsrt2": "q", "vsrt3": "q", "vsrt4": "q", "vbfy1": "pq", "vbfy2": "q", "vsocp": "sp",
         "vt4444": "q", "vt5551": "q", "vt5650": "q", "vmmul": "ptq", "vmscl": "ptq", "vrot": "ptq", "vmmov": "ptq", "vmidt": "ptq",
         "vmzero": "ptq", "vmone": "ptq"}
MACROS = set("""abs dabs li la lb lbu lh lhu lw lwu ld ll lld lwc1 l.s lwc2 ldc1 l.d ldc2 ulh ulhu ulw uld sb sh sw sd sc scd swc1 s.s swc2
sdc1 s.d sdc2 ush usw usd blt bgt bltu bgtu bge ble bgeu bleu bne beq slt sltu sgt sgtu sge sle sgeu sleu sne seq rol ror li.s""".split())

def _rows():
    r = []
    for row in T:
        name = row[0]
        if name.endswith(".S"):
            for z in VSIZE.get(name[:-2], "sptq"): r.append((name[:-1] + z, row, "sptq".index(z)))
        else:
            fl = row[4].split("|"); sz = None
            for k, f in enumerate(("VFPU_SINGLE", "VFPU_PAIR", "VFPU_TRIPLE", "VFPU_QUAD")):
                if f in fl: sz = k
            r.append((name, row, sz))
    return r
ROWS = _rows()
BYARCH = {a: [x for x in ROWS if has(x[1], a)] for a in ARCHS}
NAMES = {a: set(x[0] for x in BYARCH[a]) for a in ARCHS}

GPR = [["r0", "zero"], ["at", "r1"], ["v0", "r2"], ["v1", "r3"]] + [["a%d" % i, "r%d" % (4 + i)] for i in range(4)] + \
      [["t%d" % i, "r%d" % (8 + i)] for i in range(8)] + [["s%d" % i, "r%d" % (16 + i)] for i in range(8)] + \
      [["t8", "r24"], ["t9", "r25"], ["k0", "r26"], ["k1", "r27"], ["gp", "r28"], ["sp", "r29"], ["fp", "s8", "r30"], ["ra", "r31"]]
COP0 = {0: ["index"], 1: ["random"], 2: ["entrylo", "entrylo0"], 3: ["entrylo1"], 4: ["context"], 5: ["pagemask"], 6: ["wired"], 8: ["badvaddr"],
        9: ["count"], 10: ["entryhi"], 11: ["compare"], 12: ["status", "sr"], 13: ["cause"], 14: ["epc"], 15: ["prid"], 16: ["config"],
        17: ["lladdr"], 18: ["watchlo"], 19: ["watchhi"], 20: ["xcontext"], 23: ["badpaddr"], 26: ["ecc", "perr"], 27: ["cacheerr"],
        28: ["taglo"], 29: ["taghi"], 30: ["errorepc"]}
GTED = "vxy0 vz0 vxy1 vz1 vxy2 vz2 rgbc otz ir0 ir1 ir2 ir3 sxy0 sxy1 sxy2 sxyp sz0 sz1 sz2 sz3 rgb0 rgb1 rgb2 res1 mac0 mac1 mac2 mac3 irgb orgb lzcs lzcr".split()
GTEC = "rt0 rt1 rt2 rt3 rt4 trx try trz llm0 llm1 llm2 llm3 llm4 rbk gbk bbk lcm0 lcm1 lcm2 lcm3 lcm4 rfc gfc bfc ofx ofy h dqa dqb zsf3 zsf4 flag".split()
RSP0 = "sp_mem_addr sp_dram_addr sp_rd_len sp_wr_len sp_status sp_dma_full sp_dma_busy sp_semaphore dpc_start dpc_end dpc_current dpc_status dpc_clock dpc_bufbusy dpc_pipebusy dpc_tmem".split()
VCTL = "spfx tpfx dpfx cc inf4 rsv5 rsv6 rev rcx0 rcx1 rcx2 rcx3 rcx4 rcx5 rcx6 rcx7".split()
VCOND = "fl eq lt le tr ne ge gt ez en ei es nz nn ni ns".split()
VCST = [(1, "maxfloat"), (2, "sqrt(2)"), (3, "sqrt(1/2)"), (3, "sqrt(0.5)"), (4, "2/sqrt(pi)"), (5, "2/pi"), (6, "1/pi"), (7, "pi/4"), (8, "pi/2"),
        (9, "pi"), (10, "e"), (11, "log2(e)"), (12, "log10(e)"), (13, "ln(2)"), (14, "ln(10)"), (15, "2*pi"), (16, "pi/6"), (17, "log10(2)"),
        (18, "log2(10)"), (19, "sqrt(3)/2")]
ELEM = [(0, ""), (2, "0q"), (3, "1q"), (4, "0h"), (5, "1h"), (6, "2h"), (7, "3h")] + [(8 + i, "%dw" % i) for i in range(8)] + [(8 + i, "%d" % i) for i in range(8)]

def dollar(s, names, n):
    k = s.below(8)
    if k == 1: return "$%d" % n
    if k == 2: return "$" + s.pick(names)
    t = s.pick(names)
    return t.upper() if k == 3 else t

def vreg(s, kind, size):
    """VFPU register -> (text, number)"""
    m = s.below(8)
    if kind == "m":
        a = 0 if size == 3 else s.pick([0, 2] if size == 1 else [0, 1])
        b = 0 if size == 3 else s.pick([0, 2] if size == 1 else [0, 1])
        e = s.bool(0.3)
        if e: b = a        # the transposed notation is only used where it is unambiguous
        row = b * 2 if size == 2 else b
        return "%s%d%d%d" % ("em"[not e], m, a, b), (0x20 if e else 0) | m << 2 | a | row << 5
    c = s.below(4)
    if size == 0:
        r = s.below(4); return "s%d%d%d" % (m, c, r), m << 2 | c | r << 5
    r = 0 if size == 3 else s.pick([0, 2] if size == 1 else [0, 1])
    row = r * 2 if size == 2 else r
    if s.bool(0.4): return "r%d%d%d" % (m, r, c), 0x20 | m << 2 | c | row << 5
    return "c%d%d%d" % (m, c, r), m << 2 | c | row << 5

def vpfxs(s):
    """source prefix: 2-bit swizzles, abs at 8+i, constant at 12+i, negation at 16+i"""
    t = []; v = 0
    for i in range(4):
        x = ""
        if s.bool(0.3): x = "-"; v |= 1 << (16 + i)
        if s.bool():
            r = s.below(4)
            if s.bool(0.3): v |= 1 << (8 + i); x += "|%s|" % "xyzw"[r]
            else: x += "xyzw"[r]
            v |= r << (2 * i)
        else:
            k = s.below(8)
            x += ["0", "1", "2", "1/2", "3", "1/3", "1/4", "1/6"][k]
            v |= 1 << (12 + i) | (k & 3) << (2 * i) | (k >> 2) << (8 + i)
        t.append(x)
    return ",".join(t), v

def vpfxd(s):
    t = []; v = 0
    for i in range(4):
        k = s.below(4)
        t.append(["", "m", "[0:1]", "[-1:1]"][k])
        if k == 1: v |= 1 << (8 + i)
        elif k > 1: v |= (1 if k == 2 else 3) << (2 * i)
    return ",".join(t), v

def vrot(s, size):
    """rotation operand: cosine position in bits 0-1, sine position in bits 2-3 (equal: all others sine), bit 4: negated sine"""
    n = size + 1
    neg = s.bool(0.4); S = "-s" if neg else "s"
    k = s.below(5)
    c = s.below(n); o = s.pick([i for i in range(n) if i != c])
    L = ["0"] * n
    if k == 0 or (n == 4 and k in (2, 3, 4)): L[c] = "c"; L[o] = S; e = c | o << 2
    elif k == 1: L = [S] * n; L[c] = "c"; e = c | c << 2 if n > 2 else c | o << 2
    elif k == 2: L[c] = "c"; e = c | n << 2; neg = False
    elif k == 3: L[c] = S; e = n | c << 2
    else: L = [S] * n; e = n | n << 2
    return "[" + ",".join(L) + "]", e | (16 if neg else 0)

def badrot(s):
    """a rotation operand that the instruction cannot express"""
    n = s.int(2, 4)
    while True:
        L = [s.wpick([(3, "0"), (3, "s"), (3, "-s"), (2, "c"), (1, "-c"), (1, "1"), (1, "-0"), (1, "x"), (1, "ss")]) for _ in range(n + (s.pick([-1, 1]) if s.bool(0.1) else 0))]
        S = [x for x in L if x in ("s", "-s")]
        ok = len(L) == n and set(L) <= {"0", "s", "-s", "c"} and len(set(S)) < 2 and L.count("c") < 2
        if ok:
            if "c" in L: ok = len(S) == 1 or len(S) == n - 1 or (not S and n < 4)
            else: ok = n < 4 and len(S) in (1, n)
        if not ok: return "vrot.%s c000,s100,[%s]" % ("  ptq"[n], ",".join(L))

def num(s, v): return A.num(s, v)

TOK = re.compile(r"v[SHDFQ]?[stdc]|m[std]|V[tds]|g[tsc]|r0|R[zctdselmo]|i\d+|ih|j[cebi]|W[sdcr]|[stdTDSfzCw]|[(),]")
def tokens(enc):
    p = 0; r = []
    while p < len(enc):
        m = TOK.match(enc, p); assert m, enc
        r.append(m.group()); p = m.end()
    return r

HALVES = [(0.0, 0), (1.0, 0x3C00), (-1.0, 0xBC00), (0.5, 0x3800), (2.0, 0x4000), (65504.0, 0x7BFF), (-0.25, 0xB400), (1.5, 0x3E00), (3.140625, 0x4248), (100.0, 0x5640), (0.125, 0x3000), (2048.0, 0x6800), (1000.0, 0x63D0), (-333.25, 0xDD35)]

def encode(s, name, row, size, pc, target, force=None):
    _, enc, w, _, fl = row
    fl = set(fl.split("|"))
    vfpu, mixed = "VFPU" in fl, "VFPU_MIXED" in fl
    ops = ""; ll = ""; regs = {}
    immpos = None
    for t in tokens(enc):
        a = None; b = None
        if t in ("(", ")", ","): a = b = t
        elif t in ("s", "t", "d"):
            n = s.below(32); a = dollar(s, GPR[n], n); b = "$%d" % n; regs[t] = n
        elif t in ("T", "D", "S"):
            n = s.below(32); a = dollar(s, ["f%d" % n, "f%02d" % n], n); b = "$f%d" % n; regs["f" + t] = n
        elif t == "f":
            n = s.pick([0, 31]); a = dollar(s, ["fir", "fcr0"] if n == 0 else ["fcsr", "fcr31"], n); b = "$%d" % n; w |= n << 11
        elif t in ("z", "Rz", "gs", "gc", "gt", "Rc"):
            if t == "z": n = s.pick(list(COP0)); nm = COP0[n]
            elif t == "Rz": n = s.below(16); nm = [RSP0[n]]
            elif t == "Rc": n = s.below(3); nm = [["vco", "vcc", "vce"][n]]
            else: n = s.below(32); nm = [(GTEC if t == "gc" else GTED)[n]]
            a = dollar(s, nm, n); b = "$%d" % n
            w |= n << (16 if t == "gt" else 11)
        elif t == "r0": a = dollar(s, GPR[0], 0); b = None
        elif t[0] == "V": n = s.below(32); a = s.pick(["vf%d", "vf%02d", "VF%d", "$vf%d"]) % n; w |= n << 16
        elif t == "vc": n = s.below(16); a = s.pick([VCTL[n], "%d" % n, VCTL[n].upper()]); w |= n
        elif t[0] in "vm":
            z = size
            if t[0] == "v" and len(t) == 3: z = {"S": 0, "H": size // 2, "D": {0: 1, 1: 3}.get(size), "F": 0, "Q": 3}[t[1]]
            while True:
                a, n = vreg(s, t[0], z)
                if not ("VFPU_6BIT" in fl and n & 0x40): break
            if s.bool(0.15): a = a.upper()
            if t == "ms" and "VFPU_TRANSPOSE_VS" in fl: n ^= 0x20
            if mixed: w |= (n & 31) << 16 | n >> 5
            else: w |= n << {"d": 0, "s": 8, "t": 16}[t[-1]]
        elif t[0] == "R":
            n = s.below(32)
            if t[1] in "tds": a = dollar(s, ["v%d" % n, "v%02d" % n], n) ; a = a if not a[1:].isdigit() or a[0] != "$" else "v%d" % n; w |= n << {"t": 16, "s": 11, "d": 6}[t[1]]; regs["R" + t[1]] = n
            elif t[1] == "e":
                n, x = s.pick(ELEM); a = "[%s]" % x if x else ""
                if s.bool(0.1): n = s.below(16); a = "[$%d]" % n
                elif s.bool(0.1): a = a.upper()
                w |= n << 21
            elif t[1] in "lm": n = s.below(8); a = "[%d]" % n; w |= (n + 8) << (21 if t[1] == "l" else 11)
            elif t[1] == "o":
                n = s.below(16); a = "[%d]" % n
                if s.bool(0.3): n = 0; a = ""
                w |= n << 7
        elif t == "ih":
            if s.bool(): x, n = s.pick(HALVES)
            else:       # a half-precision number, or one that is rounded to it
                e = s.int(1, 30); m = s.pick([0, 0, 1, 1022, 1023, s.below(1024)]); sg = s.below(2)
                x = (1024 + m + s.pick([0, 0.2, 0.1, -0.1 if (e, m) != (1, 0) else 0, -0.2 if (e, m) != (1, 0) else 0])) * 2.0 ** (e - 25) * (-1) ** sg; n = sg << 15 | e << 10 | m
            a = repr(x) if x != int(x) or s.bool() else "%d" % int(x); w |= n
        elif t[0] == "i":
            n = int(t[1:])
            if "IPCA" in fl:
                if s.bool(0.3): a, v = target(s)
                else: v = 4 * s.below(1 << 30); a = "0x%X" % v
                w |= v >> 2 & 0x3FFFFFF; b = "%d" % (v & 0xFFFFFFC)
            elif "IPCR" in fl:
                if s.bool(0.4): a, v = target(s); d = v - pc - 4
                else:
                    d = s.pick([4 * s.int(-32768, 32767), 4 * s.int(-30, 30), -0x20000, 0x1FFFC, -4, 0])
                    if not -0x80000000 <= pc + 4 + d < 0x100000000 or pc + 4 + d < 0: d = abs(d)
                    if d == 0x20000: d = 0x1FFFC
                    a = "0x%X" % (pc + 4 + d)
                if not -0x20000 <= d <= 0x1FFFC: return None
                w |= d >> 2 & 0xFFFF; b = "%d" % d
            else:
                if n == 16:
                    v = s.pick([s.int(-32768, 32767), s.int(-32768, 65535), s.pick([-32768, 32767, 65535, 32768, 0, -1, 1]), s.int(-50, 50)])
                    if "NEGIMM" in fl: v = s.pick([s.int(-32767, 32768), s.pick([32768, 1, -1, 0, -32767])])
                    if "IMMALIGNED" in fl: v = (v >> 2) << 2
                    if "(" in enc and "IMMALIGNED" not in fl and v > 32767 and s.bool(0.7): v = s.int(-32768, 32767)
                elif n == 7 and not vfpu:
                    sh = {"RSP_HWOFFSET": 1, "RSP_WOFFSET": 2, "RSP_DWOFFSET": 3, "RSP_QWOFFSET": 4}
                    sh = ([sh[f] for f in fl if f in sh] or [0])[0]
                    k = s.pick([s.int(-64, 63), -64, 63, 0]); v = k << sh
                else:
                    v = s.pick([s.below(1 << n), (1 << n) - 1, 0, s.below(min(1 << n, 40))])
                    if name.startswith("vcmov"): v = s.below(7)
                if force is not None: v = k = force
                if force is None and n == 16 and not "IMMALIGNED" in fl and "NEGIMM" not in fl and s.bool(0.2):
                    x = s.below(1 << 32)
                    if s.bool(): a = "lo(0x%X)" % x; v = (x & 0xFFFF) - (0x10000 if x & 0x8000 else 0)
                    else: a = "hi(0x%X)" % x; v = (x >> 16) + (x >> 15 & 1) & 0xFFFF
                else: a = num(s, v)
                b = "%d" % v
                e = -v if "NEGIMM" in fl else v
                if n == 7 and not vfpu: e = k
                pos = (16 if vfpu else 6) if n in (5, 10, 20) else 0
                if vfpu and n == 7: pos = 0
                w |= (e & ((1 << n) - 1)) << pos
                immval = v
        elif t[0] == "j":
            if t == "jc": n = s.below(32); a = num(s, n); b = "%d" % n; w |= n << 16
            elif t == "je": n = s.int(1, 32 - immval); a = num(s, n); b = "%d" % n; w |= n - 1 << 11
            elif t == "ji": n = s.int(1, 32 - immval); a = num(s, n); b = "%d" % n; w |= immval + n - 1 << 11
            elif t == "jb":
                n = s.below(6); a = s.pick([["x", "0"], ["y", "1"], ["z", "2"], ["w", "3"], ["any", "4"], ["all", "5"]][n]); w |= n << 18
        elif t == "C": n = s.below(16); a = VCOND[n]; w |= n
        elif t == "Ws": a, n = vpfxs(s); w |= n
        elif t == "Wd": a, n = vpfxd(s); w |= n
        elif t == "Wc": n, a = s.pick(VCST); w |= n << 16
        elif t == "Wr": a, n = vrot(s, size); w |= n << 16
        elif t == "w": a = "wb"
        ops += a
        ll = None if ll is None or b is None else ll + b
    if "RSD" in fl: regs["d"] = regs["s"]
    if "RST" in fl: regs["t"] = regs["s"]
    if "RDT" in fl: regs["t"] = regs["d"]
    if "FRSD" in fl: regs["fD"] = regs["fS"]
    if "RSP_VRSD" in fl: w |= regs["Rs"] << 6
    for k, p in (("s", 21), ("t", 16), ("d", 11), ("fT", 16), ("fS", 11), ("fD", 6)):
        if k in regs: w |= regs[k] << p
    if vfpu and size is not None and not any("VFPU_" + z in fl for z in ("SINGLE", "PAIR", "TRIPLE", "QUAD")):
        w |= (size & 1) << 7 | (size >> 1) << 15
    if name.endswith(".B"):
        n = s.below(6); name = name[:-1] + s.pick([["x", "0"], ["y", "1"], ["z", "2"], ["w", "3"], ["any", "4"], ["all", "5"]][n]); w |= n << 18
    text = name + (" " + ops if enc else "")
    return text, w & 0xFFFFFFFF, (name + " " + ll if ll is not None else None), fl

def gen(s, pc, arch, target):
    R = BYARCH[arch]
    while True:
        if s.bool(0.35): name, row, size = R[s.below(len(R))]
        else:           # classes evenly, so that the standard instructions are not swamped
            k = s.pick(["MIPS1", "MIPS2", "MIPS3", "PSX", "PS2", "PSP", "RSP"])
            L = [x for x in R if k in x[1][3].split("|")]
            if not L: L = R
            name, row, size = L[s.below(len(L))]
        t = encode(s, name, row, size, pc, target)
        if t: return t

ALLNAMES = sorted(set(x[0] for x in ROWS if not x[0].endswith(".B")))
def bad(s, pc, arch):
    """an instruction without an encoding on this machine"""
    if s.bool(0.2):
        t = A.corrupt(s, gen(s, pc, arch, lambda s: ("0x%X" % (pc + 16), pc + 16))[0], ["nosym2_", "nosym_(0)"])
        if t: return t
    if arch == ".psp" and s.bool(0.05): return badrot(s)
    k = s.below(9)
    R = BYARCH[arch]
    g = lambda: s.pick(GPR[s.below(32)])
    def pickrow(pred):
        L = [x for x in R if pred(x)]
        return s.pick(L) if L else None
    tgt = lambda s: ("0x%X" % pc, pc)
    for _ in range(50):
        if k == 0:      # not available on this architecture
            L = [x for x in ROWS if x[0] not in NAMES[arch] and x[0] not in MACROS and not x[0].endswith(".B")]
            name, row, size = s.pick(L)
            t = encode(s, name, row, size, pc, tgt)
            if t: return t[0]
        elif k == 1:    # immediate out of range
            x = pickrow(lambda x: re.search(r"i(5|7|10|16|20|25)\b", x[1][1]) and "IPCR" not in x[1][4] and not x[0].startswith(("vf2i", "vi2f", "vcmov", "vwbn", "vmfv", "vmtv")))
            if not x: k = 0; continue
            n = int(re.search(r"i(5|7|10|16|20|25)\b", x[1][1]).group(1))
            sh = 4 if n == 7 else 2 if "IMMALIGNED" in x[1][4] else 0
            v = s.pick([1 << n, (1 << n) + 4, 2 << n, (1 << n) + s.below(1 << n), 0x7FFFFFF0]) 
            v = v << sh if n == 7 and v < 1 << 20 else v & ~3 if sh else v
            if n == 16 and s.bool(0.4): v = -v
            if n == 5 and s.bool(0.4): v = -s.int(1, 40)
            t = encode(s, x[0], x[1], x[2], pc, tgt, v)
            return t[0]
        elif k == 2:    # branch out of range or to a misaligned address
            x = pickrow(lambda x: "IPCR" in x[1][4] and not x[0].endswith(".B"))
            if s.bool(0.2): return s.pick(["j ", "jal "]) + "0x%X" % (s.below(1 << 26) * 4 + s.int(1, 3))
            d = s.pick([0x20000, 0x20004, -0x20004, 4 * s.int(0x8000, 0x100000), -4 * s.int(0x8001, 0x100000), 0x3FFFC])
            if s.bool(0.3): d = 4 * s.int(-30, 30) + s.int(1, 3)
            v = pc + 4 + d
            if v < 0: continue
            ops = []
            for t in tokens(x[1][1]):
                ops.append(t if t == "," else g() if t in "st" else "any" if t == "jb" else "0x%X" % v)
            return x[0] + " " + "".join(ops)
        elif k == 3:    # misaligned immediates
            x = pickrow(lambda x: ("IMMALIGNED" in x[1][4] or "OFFSET" in x[1][4]) and "i" in x[1][1])
            if not x: k = 2; continue
            al = 4 if "IMMALIGNED" in x[1][4] else {"HW": 2, "W": 4, "D": 8, "Q": 16}[re.search(r"RSP_(HW|W|D|Q)W?OFF", x[1][4]).group(1)]
            v = al * s.int(0, 12) + s.int(1, al - 1)
            return encode(s, x[0], x[1], x[2], pc, tgt, v)[0]
        elif k == 4:    # a register that does not exist
            x = pickrow(lambda x: re.search(r"(?<![a-zA-Z])([stdTDS](?![a-z0-9])|g[tsc]|R[zctd])", x[1][1]) and x[0] not in MACROS)
            t = encode(s, x[0], x[1], x[2], pc, tgt)
            if not t: continue
            toks = re.split(r"([ ,()])", t[0])
            c = [i for i in range(2, len(toks)) if re.match(r"\$?\w+$", toks[i]) and not re.match(r"-?\d", toks[i])]
            if not c: continue
            i = s.pick(c); f = re.match(r"\$?f\d", toks[i], re.I)
            toks[i] = s.pick(["$32", "r32", "$33", "f32", "t10", "s9", "a4", "q0", "$64"]) if not f else s.pick(["f32", "f33", "$32", "g0"])
            if "hi" in toks or "lo" in toks: continue
            return "".join(toks)
        elif k == 5:    # wrong number of operands
            x = pickrow(lambda x: x[0] not in MACROS and "," in x[1][1] and not x[1][1].startswith(("Ws", "Wd")))
            t = encode(s, x[0], x[1], x[2], pc, tgt)
            if not t: continue
            extra = t[0] + "," + s.pick(["r1", "a0", "sp", "(r1)"])
            if x[1][1] in ("s,t", "d,s", "d,t", "S,T", "D,S", "s,d", "Rs,RtRe"): continue
            return extra
        elif k == 6:    # operand ranges of the special forms
            if arch == ".psp":
                p = s.below(32)
                return s.pick(["ext a0,a1,%d,%d" % (p, s.pick([33 - p, 33 - p + s.below(8), 0, -1, 33, 64, -s.int(1, 40)])),
                               "ins a0,a1,%d,%d" % (p, s.pick([33 - p, 33 - p + s.below(8), 0, -1, 33, 64, -s.int(1, 40)])),
                               "bvt 6,0x%X" % pc, "vfim.s s000,a0", "bv%s%s %s,0x%X" % (s.pick("ft"), s.pick(["", "l"]), s.pick(["xy", "a", "an", "al", "v", "7", "ne", "-1", "xyzw", "ww", "eq", "f", "a0", "zz", "8", "any0", "anya"]), pc), "mfvc a0,16", "mfv a0,c000", "vadd.p c000,c000,s000", "vadd.s c000,s000,s000", "vadd.t c000,c002,c000",
                               "vadd.p c001,c000,c000", "vadd.q c000,c400,c800", "vmmul.q c000,m000,m000", "vadd.q m000,c000,c000", "vadd.q c040,c000,c000",
                               "cache 32,0(a0)", "cache -1,(a0)", "lv.q c001,(a0)", "vi2uc.p s000,c000", "vcst.s s000,pi/3", "vrot.p c000,s000,[c,c]",
                               "vrot.p c000,s000,[s,-s]", "vrot.t c000,s000,[c,s]", "vrot.q c000,s000,[c,0,0,0]", "vpfxs x,y,z", "vpfxs x,y,z,v", "vpfxs |1|,y,z,w",
                               "vpfxd m,m,m", "vpfxd [0:2],m,m,m", "vcmp.s xx,s000,s000", "viim.s c000,1"])
            if arch == ".rsp":
                return s.pick(["vadd v0,v1,v2[8]", "vadd v0,v1,v2[2q]", "vadd v0,v1,v2[4h]", "vadd v0,v1,v2[8w]", "vadd v0,v1,v32", "vmov v0[8],v1[0]",
                               "vmov v0,v1[0]", "lqv v0[16],0(a0)", "vadd v0,v1,v2[$16]", "mfc2 a0,v1[16]", "vrcp v0[0],v1", "cfc2 a0,vcx", "mfc0 a0,status"])
            if arch == ".psx":
                return s.pick(["mfc2 a0,vxy3", "cfc2 a0,vxy0", "mtc2 a0,rt0", "cop2 0x2000000", "lwc2 $32,0(a0)", "mfc0 a0,sp_status", "mfc0 a0,$32"])
            return s.pick(["cache 32,0(a0)", "cache -1,0(a0)", "mfc0 a0,$32", "mfc0 a0,vcc", "cfc1 a0,f0"])
        elif k == 7:    # nothing but garbage after the name
            return s.pick(["nop a0", "jr", "jr 5", "add a0", "lui a0", "lw a0,a1", "addiu a0,a1,a2", "and a0,a1,5", "addu 5,a0,a1", "j a0", "jalr", "sll a0,a1,a2", "break a0", "mtlo 4"])
        else:
            n = s.pick(["foo", "addx", "ld.w", "sllx", "jumpr", "adds", "lwx", "vaddx"])
            return n + " " + g() + "," + g()
    return "foo a0"
