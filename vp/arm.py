"""Reference encoder for ARM-mode instructions, written from the ARM architecture manual (ARMv4T/v5TE).
gen(s, pc, arch, target) -> (armips text, 32-bit word, UAL text or None)."""
CONDS = [("eq", 0), ("ne", 1), ("cs", 2), ("hs", 2), ("cc", 3), ("lo", 3), ("mi", 4), ("pl", 5), ("vs", 6), ("vc", 7),
         ("hi", 8), ("ls", 9), ("ge", 10), ("lt", 11), ("gt", 12), ("le", 13), ("al", 14), ("", 14)]
ARCHS = [(".gba", "little"), (".nds", "little"), (".3ds", "little"), (".arm.little", "little"), (".arm.big", "big")]
DP = ["and", "eor", "sub", "rsb", "add", "adc", "sbc", "rsc", "tst", "teq", "cmp", "cmn", "orr", "mov", "bic", "mvn"]
M32 = 0xFFFFFFFF

def ror(v, n):
    n &= 31
    return ((v >> n) | (v << (32 - n))) & M32

def imm12(v):
    """canonical rotated immediate: the smallest rotation"""
    v &= M32
    for r in range(16):
        x = ror(v, 32 - 2 * r if r else 0)
        if x < 256: return r << 8 | x
    return None

CONV = {"mov": ("mvn", lambda v: ~v), "mvn": ("mov", lambda v: ~v), "and": ("bic", lambda v: ~v), "bic": ("and", lambda v: ~v),
        "cmp": ("cmn", lambda v: -v), "cmn": ("cmp", lambda v: -v), "add": ("sub", lambda v: -v), "sub": ("add", lambda v: -v)}

def dpimm(op, v):
    """-> (op index, imm12) or None when there is no encoding"""
    e = imm12(v)
    if e is not None: return DP.index(op), e
    if op in CONV:
        o2, f = CONV[op]
        e = imm12(f(v))
        if e is not None: return DP.index(o2), e
    return None

def reg(s, hi=15):
    return s.int(0, hi)

def rn(s, n):
    if n == 13 and s.bool(): return "sp"
    if n == 14 and s.bool(): return "lr"
    if n == 15 and s.bool(): return "pc"
    return "r%d" % n

def num(s, v):
    """a spelling of integer v"""
    k = s.below(6)
    if k == 0 and v >= 0: return "0x%X" % v
    if k == 1 and v >= 0: return "%xh" % v if ("%x" % v)[0].isdigit() else "0%xh" % v
    if k == 2: d = s.below(1000); return "(%d+%d)" % (v - d, d) if v >= d else "(%d)" % v
    if k == 3 and v >= 0: return "vz+%d" % v     # vz: label defined as 0
    return "%d" % v

def h(s): return "#" if s.bool() else ""

def shiftamount(s):
    return s.int(0, 31)

def shift(s, allowreg):
    """-> (armips text, bits 11..4, ual)"""
    k = s.below(3)
    if k == 0: return "", 0, ""
    if k == 2 and allowreg:
        t = s.below(4); r = reg(s)
        nm = ["lsl", "lsr", "asr", "ror"][t]
        a = "asl" if t == 0 and s.bool(0.3) else nm
        return ",%s %s" % (a, rn(s, r)), r << 4 | t << 1 | 1, ", %s r%d" % (nm, r)
    t = s.below(5)
    if t == 4:
        return s.pick([",rrx 1", ",rrx #1", ",rrx1"]), 3 << 1, ", rrx"
    n = s.int(0, 32 if t in (1, 2) else 31)
    nm = ["lsl", "lsr", "asr", "ror"][t]
    a = "asl" if t == 0 and s.bool(0.3) else nm
    tt = t
    if n == 0: tt = 0
    txt = s.pick([",%s %s%s" % (a, h(s), num(s, n)), ",%s%d" % (a, n), ",%s %d" % (a, n)])
    return txt, (n & 31) << 3 | tt << 1, ", %s #%d" % (nm, n) if n else ""

def dimm(s):
    k = s.below(4)
    if k == 0: return s.below(256)
    v = ror(s.below(256), 2 * s.below(16))
    if k == 2: v = ~v
    if k == 3: v = -v
    if s.bool() : v &= M32
    else:
        v &= M32
        if v >> 31: v -= 1 << 32
    return v

def rlist(s):
    m = s.int(1, 0xFFFF)
    if s.bool(): m = m & s.int(0, 0xFFFF) or m
    parts = []; i = 0
    while i < 16:
        if m >> i & 1:
            j = i
            while j < 15 and m >> (j + 1) & 1: j += 1
            if j > i and s.bool(0.7):
                parts.append("%s-%s" % (rn(s, i), rn(s, j))); i = j
            else: parts.append(rn(s, i))
        i += 1
    if s.bool(0.3): parts = s.shuffle(parts)
    if s.bool(0.1): parts.append(parts[0])
    return m, ",".join(parts)

def xl(m): return "{" + ", ".join("r%d" % i for i in range(16) if m >> i & 1) + "}"

def psr(s):
    sp = s.below(2)
    k = s.below(4)
    if k == 0: return "%spsr" % "cs"[sp], sp, 15, None
    if k == 1: return "%spsr_ctl" % "cs"[sp], sp, 1, None
    if k == 2: return "%spsr_flg" % "cs"[sp], sp, 8, None
    f = s.int(1, 15)
    L = [c for c, b in zip("fsxc", (8, 4, 2, 1)) if f & b]
    L = s.shuffle(L)
    return "%spsr_%s" % ("cs"[sp], "".join(L)), sp, f, "%spsr_%s" % ("cs"[sp], "".join(c for c, b in zip("fsxc", (8, 4, 2, 1)) if f & b))

KINDS = ["dpreg", "dpimm", "dpreg2", "dpimm2", "cmpreg", "cmpimm", "movreg", "movimm", "pshift", "adr", "br", "blxi", "bx", "mul", "mull", "dsp",
         "psr", "mem", "memt", "memabs", "half", "sign", "dbl", "pld", "ldm", "push", "swp", "swi", "bkpt", "cdp", "mcr", "mcrr", "misc", "nop", "fimm"]
V5 = {"blxi", "dsp", "dbl", "pld"}

def gen(s, pc, arch, target, kind=None):
    k = kind or s.pick(KINDS)
    v5 = arch != ".gba"
    if k in V5 and not v5: k = "dpreg"
    cn, cv = s.pick(CONDS) if s.bool(0.6) else ("", 14)
    C = cv << 28
    S = s.below(2)
    sf = "s" * S
    if k in ("dpreg", "dpreg2", "dpimm", "dpimm2", "fimm"):
        op = s.pick(["and", "eor", "sub", "rsb", "add", "adc", "sbc", "rsc", "orr", "bic"])
        a = "xor" if op == "eor" and s.bool(0.3) else op
        d = reg(s); two = k.endswith("2"); n = d if two else reg(s)
        lead = rn(s, d) + ("" if two else "," + rn(s, n))
        ul = "r%d, r%d" % (d, n)
        if k.startswith("dpreg"):
            m = reg(s); t, b, u = shift(s, True)
            return ("%s%s%s %s,%s%s" % (a, cn, sf, lead, rn(s, m), t), C | DP.index(op) << 21 | S << 20 | n << 16 | d << 12 | b << 4 | m,
                    "%s%s%s %s, r%d%s" % (op, sf, cn, ul, m, u))
        if k == "fimm":
            import struct
            f = s.pick([1.0, 2.0, 0.5, -2.0, 0.25, 8.0, -0.125, 3.0])
            v = struct.unpack("<I", struct.pack("<f", f))[0]; txt = repr(f)
        else:
            v = dimm(s); txt = num(s, v)
        e = dpimm(op, v)
        if e is None: return gen(s, pc, arch, target, "dpreg")
        return ("%s%s%s %s,%s%s" % (a, cn, sf, lead, h(s), txt), C | 1 << 25 | e[0] << 21 | S << 20 | n << 16 | d << 12 | e[1],
                "%s%s%s %s, #%d" % (op, sf, cn, ul, v & M32))
    if k in ("cmpreg", "cmpimm"):
        op = s.pick(["tst", "teq", "cmp", "cmn"]); n = reg(s)
        if k == "cmpreg":
            m = reg(s); t, b, u = shift(s, True)
            return ("%s%s %s,%s%s" % (op, cn, rn(s, n), rn(s, m), t), C | DP.index(op) << 21 | 1 << 20 | n << 16 | b << 4 | m,
                    "%s%s r%d, r%d%s" % (op, cn, n, m, u))
        v = dimm(s); e = dpimm(op, v)
        if e is None: return gen(s, pc, arch, target, "cmpreg")
        return ("%s%s %s,%s%s" % (op, cn, rn(s, n), h(s), num(s, v)), C | 1 << 25 | e[0] << 21 | 1 << 20 | n << 16 | e[1],
                "%s%s r%d, #%d" % (op, cn, n, v & M32))
    if k in ("movreg", "movimm"):
        op = s.pick(["mov", "mvn"]); d = reg(s)
        if k == "movreg":
            m = reg(s); t, b, u = shift(s, True)
            return ("%s%s%s %s,%s%s" % (op, cn, sf, rn(s, d), rn(s, m), t), C | DP.index(op) << 21 | S << 20 | d << 12 | b << 4 | m,
                    "%s%s%s r%d, r%d%s" % (op, sf, cn, d, m, u) if "rrx" not in u and (op == "mvn" or not u) else None)
        v = dimm(s); e = dpimm(op, v)
        if e is None: return gen(s, pc, arch, target, "movreg")
        return ("%s%s%s %s,%s%s" % (op, cn, sf, rn(s, d), h(s), num(s, v)), C | 1 << 25 | e[0] << 21 | S << 20 | d << 12 | e[1],
                "%s%s%s r%d, #%d" % (op, sf, cn, d, v & M32))
    if k == "pshift":
        t = s.below(4); op = ["lsl", "lsr", "asr", "ror"][t]
        d = reg(s); two = s.bool(); m = d if two else reg(s)
        lead = rn(s, d) + ("" if two else "," + rn(s, m))
        if s.bool():
            r = reg(s)
            return ("%s%s%s %s,%s" % (op, cn, sf, lead, rn(s, r)), C | 13 << 21 | S << 20 | d << 12 | r << 8 | t << 5 | 16 | m,
                    "%s%s%s r%d, r%d, r%d" % (op, sf, cn, d, m, r))
        n = s.int(0, 32 if t in (1, 2) else 31)
        return ("%s%s%s %s,%s%s" % (op, cn, sf, lead, h(s), num(s, n)), C | 13 << 21 | S << 20 | d << 12 | (n & 31) << 7 | (t if n else 0) << 5 | m,
                "%s%s%s r%d, r%d, #%d" % (op, sf, cn, d, m, n) if n else None)
    if k == "adr":
        d = reg(s, 14)
        e = ror(s.below(256), s.pick([0, 30, 28, 26, 24, 22]))
        if s.bool(): e = -e
        v = (pc + 8 + e) & M32
        lab = target(s, "near") if s.bool(0.3) else None
        if lab: txt, v = lab; txt = h(s) + txt
        else: txt = h(s) + "0x%X" % v
        off = v - (pc + 8)
        enc = imm12(abs(off))
        if enc is None: return gen(s, pc, arch, target, "nop")
        op, m = s.pick([("adr", "%s"), ("add", "=%s"), ("sub", "=%s")])
        return ("%s%s %s,%s" % (op, cn, rn(s, d), m % txt), C | 1 << 25 | (4 if off >= 0 else 2) << 21 | 15 << 16 | d << 12 | enc, None)
    if k == "br":
        L = s.below(2)
        txt, v = target(s, "word")
        off = (v - pc - 8) >> 2
        return ("b%s%s %s%s" % ("l" * L, cn, h(s), txt), C | 5 << 25 | L << 24 | off & 0xFFFFFF, None)
    if k == "blxi":
        txt, v = target(s, "half")
        off = v - pc - 8
        return ("blx %s%s" % (h(s), txt), 0xFA000000 | (off >> 1 & 1) << 24 | off >> 2 & 0xFFFFFF, None)
    if k == "bx":
        n = reg(s, 14); x = s.bool() and v5
        return ("b%sx%s %s" % ("l" if x else "", cn, rn(s, n)), C | (0x012FFF30 if x else 0x012FFF10) | n, "b%sx%s r%d" % ("l" if x else "", cn, n))
    if k == "mul":
        d, m, sr, n = [reg(s, 14) for _ in range(4)]
        acc = s.bool(); two = s.bool()
        if two: m = d
        r = [rn(s, d)] + ([] if two else [rn(s, m)]) + [rn(s, sr)] + ([rn(s, n)] if acc else [])
        return ("%s%s%s %s" % ("mla" if acc else "mul", cn, sf, ",".join(r)), C | acc << 21 | S << 20 | d << 16 | (n if acc else 0) << 12 | sr << 8 | 0x90 | m,
                "%s%s%s r%d, r%d, r%d%s" % ("mla" if acc else "mul", sf, cn, d, m, sr, ", r%d" % n if acc else ""))
    if k == "mull":
        lo, hi, m, sr = [reg(s, 14) for _ in range(4)]
        i = s.below(4); op = ["umull", "umlal", "smull", "smlal"][i]
        return ("%s%s%s %s,%s,%s,%s" % (op, cn, sf, rn(s, lo), rn(s, hi), rn(s, m), rn(s, sr)),
                C | (4 + i) << 21 | S << 20 | hi << 16 | lo << 12 | sr << 8 | 0x90 | m, "%s%s%s r%d, r%d, r%d, r%d" % (op, sf, cn, lo, hi, m, sr))
    if k == "dsp":
        d, m, sr, n = [reg(s, 14) for _ in range(4)]
        x, y = s.below(2), s.below(2); X, Y = "bt"[x], "bt"[y]
        i = s.below(5)
        D, M_, R, N = rn(s, d), rn(s, m), rn(s, sr), rn(s, n)
        if i == 0: return ("smla%s%s%s %s,%s,%s,%s" % (X, Y, cn, D, M_, R, N), C | 0x01000080 | d << 16 | n << 12 | sr << 8 | y << 6 | x << 5 | m, "smla%s%s%s r%d, r%d, r%d, r%d" % (X, Y, cn, d, m, sr, n))
        if i == 1: return ("smlaw%s%s %s,%s,%s,%s" % (Y, cn, D, M_, R, N), C | 0x01200080 | d << 16 | n << 12 | sr << 8 | y << 6 | m, "smlaw%s%s r%d, r%d, r%d, r%d" % (Y, cn, d, m, sr, n))
        if i == 2: return ("smulw%s%s %s,%s,%s" % (Y, cn, D, M_, R), C | 0x012000A0 | d << 16 | sr << 8 | y << 6 | m, "smulw%s%s r%d, r%d, r%d" % (Y, cn, d, m, sr))
        if i == 3: return ("smlal%s%s%s %s,%s,%s,%s" % (X, Y, cn, N, D, M_, R), C | 0x01400080 | d << 16 | n << 12 | sr << 8 | y << 6 | x << 5 | m, "smlal%s%s%s r%d, r%d, r%d, r%d" % (X, Y, cn, n, d, m, sr))
        return ("smul%s%s%s %s,%s,%s" % (X, Y, cn, D, M_, R), C | 0x01600080 | d << 16 | sr << 8 | y << 6 | x << 5 | m, "smul%s%s%s r%d, r%d, r%d" % (X, Y, cn, d, m, sr))
    if k == "psr":
        op = s.below(3)
        if op == 0:
            d = reg(s, 14); sp = s.below(2)
            return ("%s%s %s,%spsr" % (s.pick(["mrs", "mov"]), cn, rn(s, d), "cs"[sp]), C | 0x010F0000 | sp << 22 | d << 12, "mrs%s r%d, %spsr" % (cn, d, "cs"[sp]))
        t, sp, f, u = psr(s)
        nm = s.pick(["msr", "mov"]) + cn
        if op == 1:
            m = reg(s, 14)
            return ("%s %s,%s" % (nm, t, rn(s, m)), C | 0x0120F000 | sp << 22 | f << 16 | m, "msr%s %s, r%d" % (cn, u, m) if u else None)
        v = ror(s.below(256), 2 * s.below(16))
        return ("%s %s,%s%s" % (nm, t, h(s), num(s, v)), C | 0x0320F000 | sp << 22 | f << 16 | imm12(v), "msr%s %s, #%d" % (cn, u, v) if u else None)
    if k in ("mem", "memt", "pld"):
        L, Bt = s.below(2), s.below(2)
        d, n = reg(s), reg(s)
        if k == "pld": form = s.pick(["n", "imm", "reg"])
        elif k == "memt": form = s.pick(["pn", "pimm", "preg"])
        else: form = s.pick(["n", "nw", "imm", "reg", "pimm", "preg"])
        T = k == "memt"
        nm = "pld" if k == "pld" else "%s%s%s%s" % (["str", "ldr"][L], cn, "b" * Bt, "t" * T)
        un = "pld" if k == "pld" else "%s%s%s%s" % (["str", "ldr"][L], "b" * Bt, "t" * T, cn)
        lead = "" if k == "pld" else rn(s, d) + ","
        ulead = "" if k == "pld" else "r%d, " % d
        base = 0xF450F000 if k == "pld" else C | 0x04000000 | Bt << 22 | L << 20 | d << 12
        base |= n << 16
        P, W, U = 1 << 24, 1 << 21, 1 << 23
        N = rn(s, n)
        if form in ("n", "nw"):
            return ("%s %s[%s]%s" % (nm, lead, N, "!" if form == "nw" else ""), base | P | U | (W if form == "nw" else 0), "%s %s[r%d]" % (un, ulead, n) if form == "n" else None)
        if form == "pn":
            return ("%s %s[%s]" % (nm, lead, N), base | U | W, "%s %s[r%d], #0" % (un, ulead, n))
        wb = s.below(2) if k == "mem" else 0
        post = form[0] == "p"
        bits = (0 if post else P) | (W if (wb and not post) or T else 0)
        if form.endswith("imm"):
            v = s.pick([0, 1, 4, 4095, s.below(4096), s.below(4096)])
            if s.bool(): v = -v
            bits |= (U if v >= 0 else 0) | abs(v); o = h(s) + num(s, v); uo = "#%d" % v
        else:
            m = reg(s, 14); t, b, u = shift(s, False); sg = s.pick(["", "+", "-"])
            bits |= 1 << 25 | (0 if sg == "-" else U) | b << 4 | m; o = sg + rn(s, m) + t; uo = ("-" if sg == "-" else "") + "r%d" % m + u
        if post: return ("%s %s[%s],%s" % (nm, lead, N, o), base | bits, "%s %s[r%d], %s" % (un, ulead, n, uo))
        return ("%s %s[%s,%s]%s" % (nm, lead, N, o, "!" * wb), base | bits, "%s %s[r%d, %s]%s" % (un, ulead, n, uo, "!" * wb))
    if k == "memabs":
        d = reg(s); i = s.below(3)
        mx = 255 if i == 2 else 4095
        off = s.int(-mx, mx)
        if pc + 8 + off < 0: off = abs(off)
        v = pc + 8 + off
        txt = num(s, v)
        lab = target(s, "near") if s.bool(0.3) else None
        if lab and abs(lab[1] - pc - 8) <= mx: txt, v = lab; off = v - pc - 8
        U = 1 << 23 if off >= 0 else 0; a = abs(off)
        if i < 2: return ("%s%s %s,[%s%s]" % (["str", "ldr"][i], cn, rn(s, d), h(s), txt), C | 0x050F0000 | U | i << 20 | d << 12 | a, None)
        return ("str%sh %s,[%s%s]" % (cn, rn(s, d), h(s), txt), C | 0x014F00B0 | U | d << 12 | (a >> 4) << 8 | a & 15, None)
    if k in ("half", "sign", "dbl"):
        d, n = reg(s), reg(s); N = rn(s, n); D = rn(s, d)
        P, U, W, I = 1 << 24, 1 << 23, 1 << 21, 1 << 22
        if k == "half": i = s.below(2); nm, un, op, forms = [("str%sh", "strh", 0xB0, ["n", "imm", "reg", "pimm", "preg"]), ("ldr%sh", "ldrh", 1 << 20 | 0xB0, ["n", "imm", "reg", "pimm"])][i]; full = i == 0
        elif k == "sign":
            nm, un, op, forms = s.pick([("ldr%ssb", "ldrsb", 1 << 20 | 0xD0, ["n", "imm", "reg", "pimm"]), ("ld%ssb", "ldrsb", 1 << 20 | 0xD0, ["n", "imm", "reg"]),
                                        ("ldr%ssh", "ldrsh", 1 << 20 | 0xF0, ["n", "imm", "reg"]), ("ld%ssh", "ldrsh", 1 << 20 | 0xF0, ["n", "imm", "reg"])]); full = False
        else:
            nm, un, op, forms = s.pick([("ldr%sd", "ldrd", 0xD0, ["n", "imm", "reg"]), ("str%sd", "strd", 0xF0, ["n", "imm", "reg"])]); full = False
            d &= 14; d = 12 if d == 14 else d; D = rn(s, d)
        nm = nm % cn; un += cn
        ud = "r%d" % d if k != "dbl" else "r%d, r%d" % (d, d + 1)
        base = C | op | n << 16 | d << 12
        form = s.pick(forms)
        if form == "n": return ("%s %s,[%s]" % (nm, D, N), base | P | U | I, "%s %s, [r%d]" % (un, ud, n))
        wb = s.below(2) if full else 0
        post = form[0] == "p"
        bits = (0 if post else P) | (W if wb and not post else 0)
        if form.endswith("imm"):
            v = s.pick([0, 1, 15, 16, 255, s.below(256)])
            if s.bool(): v = -v
            a = abs(v); bits |= I | (U if v >= 0 else 0) | (a >> 4) << 8 | a & 15; o = h(s) + num(s, v); uo = "#%d" % v
        else:
            m = reg(s, 14); sg = s.pick(["", "+", "-"]) if full else ""
            bits |= (0 if sg == "-" else U) | m; o = sg + rn(s, m); uo = ("-" if sg == "-" else "") + "r%d" % m
        if post: return ("%s %s,[%s],%s" % (nm, D, N, o), base | bits, "%s %s, [r%d], %s" % (un, ud, n, uo))
        return ("%s %s,[%s,%s]%s" % (nm, D, N, o, "!" * wb), base | bits, "%s %s, [r%d, %s]%s" % (un, ud, n, uo, "!" * wb))
    if k == "ldm":
        L = s.below(2); i = s.below(8); md = ["da", "ia", "db", "ib"] + (["fa", "fd", "ea", "ed"] if L else ["ed", "ea", "fd", "fa"])
        n = reg(s, 14); wb, hat = s.below(2), s.below(2)
        m, t = rlist(s)
        br = s.bool(0.8); N = rn(s, n)
        if s.bool(0.2): N = "[" + N + "]"
        return ("%s%s%s %s%s,%s%s" % (["stm", "ldm"][L], cn, md[i], N, "!" * wb, "{%s}" % t if br else t, "^" * hat),
                C | 4 << 25 | (i & 3) << 23 | hat << 22 | wb << 21 | L << 20 | n << 16 | m,
                "%s%s%s r%d%s, %s%s" % (["stm", "ldm"][L], ["da", "ia", "db", "ib"][i & 3], cn, n, "!" * wb, xl(m), "^" * hat))
    if k == "push":
        m, t = rlist(s); L = s.below(2); t = "{%s}" % t if s.bool(0.8) else t
        return ("%s%s %s" % (["push", "pop"][L], cn, t), C | [0x092D0000, 0x08BD0000][L] | m, "%s%s %s" % (["stmdb", "ldmia"][L], cn, "sp!, " + xl(m)))
    if k == "swp":
        d, m, n = [reg(s, 14) for _ in range(3)]; b = s.below(2); two = s.bool()
        if two: m = d
        return ("swp%s%s %s%s,[%s]" % (cn, "b" * b, rn(s, d), "" if two else "," + rn(s, m), rn(s, n)), C | 0x01000090 | b << 22 | n << 16 | d << 12 | m,
                "swp%s%s r%d, r%d, [r%d]" % ("b" * b, cn, d, m, n))
    if k == "swi":
        v = s.pick([0, 1, 5, 0x2A, 0xFE, 0x100, 0x50000, 0xFFFFFF, s.below(1 << 24)])
        if v == 0xFF: v = 0xFE
        e = v << 16 if arch in (".gba", ".nds") and v < 0xFF else v
        return ("swi%s %s%s" % (cn, h(s), num(s, v)), C | 0x0F000000 | e, None)
    if k == "bkpt":
        v = s.pick([0, 1, 0xF, 0x10, 0xFFFF, s.below(1 << 16)])
        return ("bkpt %s%s" % (h(s), num(s, v)), 0xE1200070 | (v >> 4) << 8 | v & 15, "bkpt #%d" % v)
    if k in ("cdp", "mcr", "mcrr"):
        p = s.below(16); o1 = s.below(16 if k != "mcr" else 8); o2 = s.below(8)
        cd, cnn, cm = s.below(16), s.below(16), s.below(16); d = reg(s, 14); n = reg(s, 14)
        two = v5 and s.bool(0.3)
        cc = 0xF0000000 if two else C
        z = s.bool()
        if k == "cdp":
            return ("cdp%s p%d,%s,c%d,c%d,c%d%s" % ("2" if two else cn, p, num(s, o1), cd, cnn, cm, "," + num(s, o2) if z else ""),
                    cc | 0x0E000000 | o1 << 20 | cnn << 16 | cd << 12 | p << 8 | (o2 if z else 0) << 5 | cm, None)
        if k == "mcrr":
            L = s.below(2)
            return ("%s%s p%d,%s,%s,%s,c%d" % (["mcrr", "mrrc"][L], cn, p, num(s, o1), rn(s, d), rn(s, n), cm), C | 0x0C400000 | L << 20 | n << 16 | d << 12 | p << 8 | o1 << 4 | cm, None)
        L = s.below(2)
        al = not two and s.bool(0.3)
        w = 0x0E000010 | o1 << 21 | L << 20 | cnn << 16 | d << 12 | p << 8 | (o2 if z or al else 0) << 5 | cm
        if al:
            body = "p%d,%s,c%d,c%d,%s" % (p, num(s, o1), cnn, cm, num(s, o2))
            return ("mov%s %s" % (cn, rn(s, d) + "," + body if L else body + "," + rn(s, d)), C | w, None)
        return ("%s%s p%d,%s,%s,c%d,c%d%s" % (["mcr", "mrc"][L], "2" if two else cn, p, num(s, o1), rn(s, d), cnn, cm, "," + num(s, o2) if z else ""), cc | w,
                "%s%s p%d, #%d, r%d, c%d, c%d, #%d" % (["mcr", "mrc"][L], "2" if two else cn, p, o1, d, cnn, cm, o2 if z else 0) if p not in (10, 11) else None)
    if k == "misc" and v5:
        d, m, n = [reg(s, 14) for _ in range(3)]
        i = s.below(5)
        if i == 4: return ("clz%s %s,%s" % (cn, rn(s, d), rn(s, m)), C | 0x016F0F10 | d << 12 | m, "clz%s r%d, r%d" % (cn, d, m))
        two = s.bool()
        if two: m = d
        op = ["qadd", "qsub", "qdadd", "qdsub"][i]
        return ("%s%s %s%s,%s" % (op, cn, rn(s, d), "" if two else "," + rn(s, m), rn(s, n)), C | 0x01000050 | i << 21 | n << 16 | d << 12 | m, "%s%s r%d, r%d, r%d" % (op, cn, d, m, n))
    return ("nop", 0xE1A00000, None)

import re
def corrupt(s, text, names):
    """damages a valid instruction so that no reading of it is valid: an operand of the wrong kind, an unbalanced bracket, rubbish at the end; None if it has nothing to damage"""
    if '"' in text: return None
    k = s.below(3)
    if k == 0:
        c = [m.span() for m in re.finditer(r"(?<![\w.$%])(0x[0-9a-fA-F]+|\d+)(?![\w.])", text) if " " in text[:m.start()]]
        if not c: return None
        a, b = s.pick(c); return text[:a] + s.pick(names + ["nosym_", "nosym_+1"]) + text[b:]
    multi = text.lower().startswith(("ldm", "stm", "push", "pop"))     # their brackets are optional
    if k == 1:
        c = [i for i, x in enumerate(text) if x in "[]()"]
        if not c or multi: return None
        i = s.pick(c); return text[:i] + text[i + 1:]
    return text + s.pick([",", " )", ",,r1", " = 1", " @", " ?"] + ([" ]", " }"] if not multi else []))

def bad(s, pc, arch):
    """an instruction without an encoding -> text"""
    if s.bool(0.2):
        t = corrupt(s, gen(s, pc, arch, lambda s, k: ("0x%X" % (pc + 16), pc + 16))[0], ["c5", "p7", "c0", "p15", "cpsr", "spsr"])
        if t: return t
    v5 = arch != ".gba"
    k = s.below(13)
    r = lambda: rn(s, reg(s, 12))
    if k == 0:
        while True:
            op = s.pick(DP + ["msr"]); v = s.edgy(32)
            v = max(-(1 << 31), min(v, M32))
            if s.bool(0.5): v = (dimm(s) + s.pick([-1, 1, 0x100, 0x10000])) & M32
            if (imm12(v) if op == "msr" else dpimm(op, v)) is None: break
            if s.pre is not None: op, v = "mov", 0x101; break
        if op == "msr": return "msr cpsr_f,%s" % num(s, v)
        if op in ("tst", "teq", "cmp", "cmn", "mov", "mvn"): return "%s %s,%s" % (op, r(), num(s, v))
        return "%s %s,%s" % (op, r() + s.pick(["", "," + r()]), num(s, v))
    if k == 1:
        o = s.pick(["lsl", "asl", "lsr", "asr", "ror"]); n = s.pick([33, 34, 63, 64, 255, 256, -1, -2, -32, 1 << 32, (1 << 32) + 1] + ([32] if o in ("lsl", "asl", "ror") else []))
        return s.pick(["mov %s,%s,%s %d" % (r(), r(), o, n), "add %s,%s,%s,%s #%d" % (r(), r(), r(), o, n), "ldr %s,[%s,%s,%s %d]" % (r(), r(), r(), o, n)]
                      + (["%s %s,%s,%d" % (o, r(), r(), n)] if o != "asl" else []))
    if k == 2:
        v = s.pick([4096, 4097, 8192, 65536, 0x7FFFFFFF]); v = -v if s.bool() else v
        o = s.pick(["ldr", "str", "ldrb", "strb"])
        return s.pick(["%s %s,[%s,%d]" % (o, r(), r(), v), "%s %s,[%s],%d" % (o, r(), r(), v), "%s %s,[%s,%d]!" % (o, r(), r(), v)])
    if k == 3:
        v = s.pick([256, 257, 512, 65536, 0x7FFFFFFF]); v = -v if s.bool() else v
        o = s.pick(["ldrh", "strh", "ldrsb", "ldrsh"] + (["ldrd", "strd"] if v5 else []))
        return "%s r%d,[%s,%d]" % (o, 2 * s.below(6), r(), v)
    if k == 4:
        d = s.pick([0x2000000, 0x2000004, 0x4000000, 0x3FFFFFC, -0x2000004, -0x3FFFFFC, -0x4000000, 0x7FFFFFF0])
        o = s.pick(["b", "bl", "beq", "blne"] + (["blx"] if v5 else []))
        return "%s 0x%X" % (o, (pc + 8 + d) & M32)
    if k == 5:
        d = s.int(-1000, 1000)
        if s.bool() and v5: return "blx 0x%X" % (abs(pc + 8 + d) | 1)
        return "%s 0x%X" % (s.pick(["b", "bl", "bne"]), abs(pc + 8 + d) & ~3 | s.int(1, 3))
    if k == 6:
        d = s.pick([4096, -4096, 5000, 0x10000])
        return "%s %s,[0x%X]" % (s.pick(["ldr", "str"]), r(), (pc + 8 + d) & M32)
    if k == 7:
        v = s.pick([1 << 24, (1 << 24) + 5, 0x7FFFFFFF, -1, -2, -65536, -0x10000000, -256])
        return "swi %s" % num(s, v)
    if k == 8:
        return "bkpt %d" % s.pick([0x10000, 0x10001, 0x7FFFFFFF, -1])
    if k == 9:
        v = s.pick([-1, -8, 16, 17, 32, 1 << 32]); w = s.pick([-1, 8, 9, 16, -8, 1 << 32])
        m = s.pick(["cdp p%d,%d,c1,c2,c3,1" % (s.below(16), v), "cdp p1,1,c1,c2,c3,%d" % w, "mcr p15,%d,r0,c1,c2,3" % s.pick([-1, 8, 15, 16, v]), "mrc p15,%d,r1,c1,c2" % s.pick([8, 9, 15]), "mrc p15,1,r2,c0,c0,%d" % w, "mcrr p1,%d,r1,r2,c3" % v])
        return m
    if k == 10:
        return s.pick(["mul pc,r1,r2", "mul r1,pc,r2", "mul r1,r2,r15", "mla r1,r2,r3,pc", "umull pc,r1,r2,r3", "umull r1,pc,r2,r3", "swp pc,r1,[r2]", "swp r1,r2,[pc]", "mrs pc,cpsr", "msr cpsr,pc",
                       "ldr r0,[r1,pc]"] + (["ldrd r1,[r2]", "ldrd r3,[r2,4]", "strd r5,[r2],8", "strd r11,[r1,r2]", "ldrdeq r7,[r1,-r2]!", "ldrd r9,[r1]!"] if v5 else []) + ["str r0,[r1],-pc", "ldmia pc,{r0}", "bx pc", "strh r0,[r1,pc]", "adr pc,0x%X" % (pc + 8)])
    if k == 11:
        return s.pick(["ldr r0,[r1,r2,lsl r3]", "str r0,[r1],r2,asr r3", "ldmia r0,{r3-r1}", "ldmia r0,{r16}", "mov r16,0", "mov r0,r0,rrx 2", "mov r0,r0,rrx 0", "add r0", "mov r0,r1,r2", "cmp r0,r1,r2", "b r0", "msr cpsr_ff,r0", "msr cpsrx_f,r0", "msr cpsrf,r0", "msr cpsr_,r0", "msr cpsr_fsxcq,r0", "msr spsr_cxsff,r0", "msr spsr_cxsf_,7", "mrs r0,spsrr", "msr cpsr__f,1", "mrs r0,psr", "mrs r0,cpsr_f", "adr r0,0x%X" % (pc + 8 + 0x101), "addxx r0,r1,r2", "ldr r0", "swi r0", "cdp p16,0,c0,c0,c0", "mcr p0,0,r0,c16,c0", "teqs r0,r1x", "mov r0,\"a\"+1.5", "b 1.5", "ldr r0,[r1,1.0]", "swi 1.0"])
    if not v5:
        return s.pick(["blx r0", "blx 0x%X" % (pc + 8), "clz r0,r1", "qadd r0,r1,r2", "smlabb r0,r1,r2,r3", "smulwt r0,r1,r2", "ldrd r0,[r2]", "strd r0,[r2]", "pld [r0]", "cdp2 p0,0,c0,c0,c0", "mcr2 p0,0,r0,c0,c0", "mrc2 p0,0,r0,c0,c0,1", "smlaltb r0,r1,r2,r3"])
    return "undefinedop r0"
