"""Reference encoder for THUMB instructions (ARMv4T/v5T). gen(...) -> (text, [halfwords], UAL text or None)."""
from . import arm as A
from .arm import rn, num, h
CC = ["eq", "ne", "cs", "cc", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le"]
ALU = ["and", "eor", "lsl", "lsr", "asr", "adc", "sbc", "ror", "tst", "neg", "cmp", "cmn", "orr", "mul", "bic", "mvn"]
KINDS = ["shi", "as3", "as3i", "mov", "imm8", "alu", "hi", "bx", "nop", "ldrpc", "ldrabs", "memr", "memi", "memsp", "addpc", "adr", "addsp", "incsp", "push", "ldm",
         "bc", "b", "bl", "blx", "blh", "swi", "bkpt"]

def low(s): return s.below(8)

def rl(s, extra):
    m = s.int(1, 255) if not extra or s.bool() else s.int(0, 255)
    top = extra is not None and (m == 0 or s.bool())
    parts = []; i = 0
    while i < 8:
        if m >> i & 1:
            j = i
            while j < 7 and m >> (j + 1) & 1: j += 1
            if j > i and s.bool(0.6): parts.append("r%d-r%d" % (i, j)); i = j
            else: parts.append("r%d" % i)
        i += 1
    u = ["r%d" % i for i in range(8) if m >> i & 1]
    if top: parts.append(rn(s, extra)); u.append(["lr", "pc"][extra - 14])
    if s.bool(0.2): parts = s.shuffle(parts)
    t = ",".join(parts)
    return m, top, ("{%s}" % t if s.bool(0.8) else t), "{%s}" % ", ".join(u)

def gen(s, pc, arch, target, kind=None):
    k = kind or s.pick(KINDS)
    v5 = arch != ".gba"
    if k in ("blx", "bkpt") and not v5: k = "nop"
    d, m, n = low(s), low(s), low(s)
    if k == "shi":
        i = s.below(3); a = s.int(0, 31 if i == 0 else 32); two = s.bool()
        if two: m = d
        nm = ["lsl", "lsr", "asr"][i]; t = "asl" if i == 0 and s.bool(0.3) else nm
        e = (i if a else 0) << 11
        return ("%s r%d,%s%s%s" % (t, d, "" if two else "r%d," % m, h(s), num(s, a)), [e | (a & 31) << 6 | m << 3 | d], "%ss r%d, r%d, #%d" % (nm, d, m, a) if a else None)
    if k == "as3":
        i = s.below(2); two = s.bool(0.3)
        if two: m = d
        return ("%s r%d,%sr%d" % (["add", "sub"][i], d, "" if two else "r%d," % m, n), [0x1800 | i << 9 | n << 6 | m << 3 | d], "%ss r%d, r%d, r%d" % (["add", "sub"][i], d, m, n))
    if k == "as3i":
        i = s.below(2); v = s.int(-7, 7)
        e = i ^ (v < 0)
        return ("%s r%d,r%d,%s%s" % (["add", "sub"][i], d, m, h(s), num(s, v)), [0x1C00 | e << 9 | abs(v) << 6 | m << 3 | d], "%ss r%d, r%d, #%d" % (["add", "sub"][e], d, m, abs(v)) if d != m else None)
    if k == "mov":
        return ("mov r%d,r%d" % (d, m), [0x1C00 | m << 3 | d], None)
    if k == "imm8":
        i = s.below(4); v = s.pick([0, 1, 7, 8, 255, s.below(256)]); e = i
        if i >= 2 and s.bool() and v: v = -v; e = i ^ 1
        return ("%s r%d,%s%s" % (["mov", "cmp", "add", "sub"][i], d, h(s), num(s, v)), [0x2000 | e << 11 | d << 8 | abs(v)], "%s r%d, #%d" % (["movs", "cmp", "adds", "subs"][e], d, abs(v)) if e < 2 or abs(v) > 7 else None)
    if k == "alu":
        i = s.below(16); nm = ALU[i]; t = "xor" if i == 1 and s.bool(0.3) else nm
        u = {"tst": "tst r%d, r%d", "cmp": "cmp r%d, r%d", "cmn": "cmn r%d, r%d", "neg": "rsbs r%d, r%d, #0", "mvn": "mvns r%d, r%d"}.get(nm, nm + "s r%d, r%d") % (d, m)
        if nm == "mul": u = "muls r%d, r%d, r%d" % (d, m, d)
        return ("%s r%d,r%d" % (t, d, m), [0x4000 | i << 6 | m << 3 | d], u)
    if k == "hi":
        i = s.below(3); D, S = s.below(16), s.below(16)
        if D < 8 and S < 8:
            if s.bool(): D += 8
            else: S += 8
        nm = ["add", "cmp", "mov"][i]
        return ("%s %s,%s" % (nm, rn(s, D), rn(s, S)), [0x4400 | i << 8 | (D >> 3) << 7 | S << 3 | D & 7], "%s r%d, r%d" % (nm, D, S) if (D, i) != (13, 0) and S != 13 else None)
    if k == "bx":
        S = s.below(16); x = v5 and s.bool()
        return ("%s %s" % (["bx", "blx"][x], rn(s, S)), [0x4700 | x << 7 | S << 3], "%s r%d" % (["bx", "blx"][x], S))
    if k == "ldrpc":
        if s.bool(0.3): return ("ldr r%d,[%s]" % (d, rn(s, 15)), [0x4800 | d << 8], None)
        v = s.pick([0, 4, 1020, 4 * s.below(256)])
        return ("ldr r%d,[%s,%s%s]" % (d, rn(s, 15), h(s), num(s, v)), [0x4800 | d << 8 | v >> 2], "ldr r%d, [pc, #%d]" % (d, v))
    if k in ("ldrabs", "adr"):
        v = s.pick([0, 255, s.below(256)])
        a = ((pc + 4) & ~3) + 4 * v
        txt = num(s, a)
        l = target(s, "near") if s.bool(0.4) else None
        if l: txt, a = l; v = (a - ((pc + 4) & ~3)) >> 2
        if k == "adr": return ("add r%d,=%s%s" % (d, h(s), txt), [0xA000 | d << 8 | v], None)
        return ("ldr r%d,[%s%s]" % (d, h(s), txt), [0x4800 | d << 8 | v], None)
    if k == "memr":
        nm, e, u = s.pick([("str", 0, 0), ("strh", 1, 0), ("strb", 2, 0), ("ldsb", 3, "ldrsb"), ("ldrsb", 3, 0), ("ldr", 4, 0), ("ldrh", 5, 0), ("ldrb", 6, 0), ("ldsh", 7, "ldrsh"), ("ldrsh", 7, 0)])
        return ("%s r%d,[r%d,r%d]" % (nm, d, m, n), [0x5000 | e << 9 | n << 6 | m << 3 | d], "%s r%d, [r%d, r%d]" % (u or nm, d, m, n))
    if k == "memi":
        nm, e, sh = s.pick([("str", 0x6000, 2), ("ldr", 0x6800, 2), ("strb", 0x7000, 0), ("ldrb", 0x7800, 0), ("strh", 0x8000, 1), ("ldrh", 0x8800, 1)])
        if s.bool(0.2): return ("%s r%d,[r%d]" % (nm, d, m), [e | m << 3 | d], "%s r%d, [r%d]" % (nm, d, m))
        v = s.pick([0, 1, 31, s.below(32)])
        return ("%s r%d,[r%d,%s%s]" % (nm, d, m, h(s), num(s, v << sh)), [e | v << 6 | m << 3 | d], "%s r%d, [r%d, #%d]" % (nm, d, m, v << sh))
    if k == "memsp":
        L = s.below(2); nm = ["str", "ldr"][L]
        if s.bool(0.2): return ("%s r%d,[%s]" % (nm, d, rn(s, 13)), [0x9000 | L << 11 | d << 8], "%s r%d, [sp]" % (nm, d))
        v = s.pick([0, 1, 255, s.below(256)])
        return ("%s r%d,[%s,%s%s]" % (nm, d, rn(s, 13), h(s), num(s, 4 * v)), [0x9000 | L << 11 | d << 8 | v], "%s r%d, [sp, #%d]" % (nm, d, 4 * v))
    if k in ("addpc", "addsp"):
        v = s.pick([0, 1, 255, s.below(256)]); p = k == "addsp"
        return ("add r%d,%s,%s%s" % (d, rn(s, 13 if p else 15), h(s), num(s, 4 * v)), [0xA000 | p << 11 | d << 8 | v], "add r%d, sp, #%d" % (d, 4 * v) if p else None)
    if k == "incsp":
        i = s.below(2); v = s.pick([0, 1, 127, s.below(128)]); v = -v if s.bool() else v
        e = i ^ (v < 0); R = rn(s, 13)
        if s.bool(): R += "," + rn(s, 13)
        return ("%s %s,%s%s" % (["add", "sub"][i], R, h(s), num(s, 4 * v)), [0xB000 | e << 7 | abs(v)], "%s sp, #%d" % (["add", "sub"][e], 4 * abs(v)))
    if k == "push":
        L = s.below(2); m, top, t, u = rl(s, 15 if L else 14)
        return ("%s %s" % (["push", "pop"][L], t), [0xB400 | L << 11 | top << 8 | m], "%s %s" % (["push", "pop"][L], u))
    if k == "ldm":
        L = s.below(2); m, top, t, u = rl(s, None); D = "r%d" % d
        return ("%s %s!,%s" % (["stmia", "ldmia"][L], "[%s]" % D if s.bool(0.2) else D, t), [0xC000 | L << 11 | d << 8 | m], "stmia r%d!, %s" % (d, u) if not L else ("ldmia r%d!, %s" % (d, u) if not m >> d & 1 else None))
    if k == "bc":
        i = s.below(14); txt, v = target(s, (-256, 254))
        nm = {2: s.pick(["cs", "hs"]), 3: s.pick(["cc", "lo"])}.get(i, CC[i])
        return ("b%s %s%s" % (nm, h(s), txt), [0xD000 | i << 8 | (v - pc - 4) >> 1 & 255], None)
    if k == "b":
        txt, v = target(s, (-2048, 2046))
        return ("b %s%s" % (h(s), txt), [0xE000 | (v - pc - 4) >> 1 & 0x7FF], None)
    if k == "bl":
        txt, v = target(s, (-0x400000, 0x3FFFFE)); o = (v - pc - 4) >> 1
        return ("bl %s%s" % (h(s), txt), [0xF000 | o >> 11 & 0x7FF, 0xF800 | o & 0x7FF], None)
    if k == "blx":
        txt, v = target(s, "blx"); o = (v - ((pc + 4) & ~3)) >> 1
        return ("blx %s%s" % (h(s), txt), [0xF000 | o >> 11 & 0x7FF, 0xE800 | o & 0x7FF], None)
    if k == "blh":
        v = s.pick([0, 1, 0x7FF, s.below(0x800)]); i = s.below(3)
        if i == 0: return ("bl %s" % rn(s, 14), [0xF800], None)
        return (("bl %s+%s" % (rn(s, 14), h(s) + num(s, 2 * v)) if i == 1 else "blh %s%s" % (h(s), num(s, 2 * v))), [0xF800 | v], None)
    if k in ("swi", "bkpt"):
        v = s.pick([0, 1, 255, s.below(256)])
        return ("%s %s%s" % (k, h(s), num(s, v)), [(0xDF00 if k == "swi" else 0xBE00) | v], ("svc" if k == "swi" else k) + " #%d" % v)
    return ("nop", [0x46C0], None)

def bad(s, pc, arch):
    v5 = arch != ".gba"
    a = (pc + 4) & ~3
    if s.bool(0.2):
        t = A.corrupt(s, gen(s, pc, arch, lambda s, k: ("0x%X" % (a + 16), a + 16))[0], ["c5", "p7", "cpsr"])
        if t: return t
    k = s.below(12)
    r = lambda: "r%d" % low(s)
    hi = lambda: rn(s, s.int(8, 15))
    if k == 0:
        o = s.pick(["lsl", "lsr", "asr", "asl"]); v = s.pick([33, 34, 64, 100, -1, -2, 0x7FFFFFFF] + ([32] if o in ("lsl", "asl") else []))
        return "%s %s,%s%d" % (o, r(), s.pick(["", r() + ","]), v)
    if k == 1: return "%s %s,%s,%d" % (s.pick(["add", "sub"]), r(), r(), s.pick([8, 9, 16, 255, -8, -9, -256, 0x7FFFFFFF]))
    if k == 2: return "%s %s,%d" % (s.pick(["add", "sub", "mov", "cmp"]), r(), s.pick([256, 257, 512, -256, -257, 0x10000, 0x7FFFFFFF]))
    if k == 3: return "%s %s,%d" % (s.pick(["mov", "cmp"]), r(), s.pick([-1, -2, -255]))
    if k == 4:
        o, sh = s.pick([("str", 2), ("ldr", 2), ("strb", 0), ("ldrb", 0), ("strh", 1), ("ldrh", 1)])
        v = s.pick([32 << sh, 33 << sh, 256 << sh, -1 << sh, 1024 << sh] + ([1, 3, 5] if sh else []))
        if sh == 2: v = s.pick([v, 2, 6])
        return "%s %s,[%s,%d]" % (o, r(), r(), v)
    if k == 5:
        return s.pick(["ldr %s,[%s,%d]", "str %s,[%s,%d]", "add %s,%s,%d"]) % (r(), "sp", s.pick([1024, 1028, 2, 1, 3, -4, 4096]))
    if k == 6: return "%s sp,%d" % (s.pick(["add", "sub"]), s.pick([512, 516, -512, 1, 2, 3, -2, 4096]))
    if k == 7:
        lo, hi2, o = s.pick([(-256, 254, "beq"), (-256, 254, "ble"), (-256, 254, "bhi"), (-2048, 2046, "b"), (-0x400000, 0x3FFFFE, "bl")])
        t = pc + 4 + s.pick([lo - 2, hi2 + 2, lo - 256, hi2 + 256, 2 * lo, 2 * hi2 + 4, -0x20000000, 0x20000000])
        return "%s 0x%X" % (o, t & 0xFFFFFFFF)
    if k == 8:
        t = abs(pc + 4 + 2 * s.int(-60, 60))
        if v5 and s.bool(): return "blx 0x%X" % ((t & ~3) + s.int(1, 3))
        return "%s 0x%X" % (s.pick(["b", "bl", "beq"]), t | 1)
    if k == 9:
        o = s.pick(["ldr %s,[0x%X]", "add %s,=0x%X"]); t = a + s.pick([-4, -8, 1024, 1028, 1, 2, 3, 2048])
        return o % (r(), t & 0xFFFFFFFF)
    if k == 10:
        return s.pick(["push {r8}", "push {r0-r8}", "push {pc}", "push {r0,r15}", "push {sp}", "pop {lr}", "pop {r0,r14}", "pop {r9}", "pop {sp}", "stmia r0!,{r8}", "stmia r0!,{lr}", "stmia r1!,{r0,pc}", "ldmia r0!,{r8}", "ldmia r0!,{r1,pc}", "ldmia r0!,{r0-r12}",
                       "ldmia r8!,{r0}", "stmia r0,{r1}", "ldr r0,[r8]", "ldr r8,[r0]", "str r0,[r1,r8]", "ldrh r0,[sp]", "strb r0,[sp,4]", "and r0,r8", "mul r8,r0", "neg r0,sp", "add r8,r0,r1", "sub r8,r1", "lsl r8,r0,1", "mov r8,1", "cmp r9,1",
                       "swi 256", "swi -1", "swi 1.0", "mov r0,1.0", "bl lr+1", "blh 4096", "blh -2", "blh 3", "ldr r0,[pc,1024]", "ldr r0,[pc,2]", "add r0,pc,1024", "add r0,pc,3", "add r0", "mov r0", "push", "b r0", "addeq r0,r1", "bnv 0x100"])
    if not v5: return s.pick(["blx r0", "blx 0x%X" % a, "bkpt 1"])
    return s.pick(["bkpt 256", "bkpt -1", "blx 0x%X" % ((a + s.pick([0x400000, 0x400004, 0x800000, -0x400008])) & 0xFFFFFFFF)])
