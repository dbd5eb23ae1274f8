import struct
from ..core import Check, Fail
from .. import mips as M
from ..mipsim import Sim, Unknown, sx, M32, M64

BITS = {".psx": 32, ".n64": 64, ".ps2": 64, ".psp": 32, ".rsp": 32}
SLOT, K1 = 64, 27
LOADS = {"lb": (1, True), "lbu": (1, False), "lh": (2, True), "lhu": (2, False), "lw": (4, True), "lwu": (4, False), "ld": (8, True), "ll": (4, True), "lld": (8, True)}
STORES = {"sb": 1, "sh": 2, "sw": 4, "sd": 8, "sc": 4, "scd": 8}
UL = {"ulh": 2, "ulhu": 2, "ulw": 4, "uld": 8}
US = {"ush": 2, "usw": 4, "usd": 8}
CMP = {"lt": lambda a, b: a < b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "le": lambda a, b: a <= b, "ne": lambda a, b: a != b, "eq": lambda a, b: a == b}
EDGE = [0, 1, -1, 2, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x10000, -0x8000, -0x8001, -0xFFFF, -0x10000, 0x12340000, 0x12348000, 0x1234FFFF, 0x7FFFFFFF, -0x80000000,
        -0x7FFFFFFF, 0x7FFF8000, 0x7FFF7FFF, 0x80000000, 0xFFFFFFFF, 0xFFFF8000, 0xFFFF7FFF, 0xFFFF0000, 0x80018000, 0x18000, 0x17FFF]

class C14(Check):
    ID = "C14"
    RULE = "one macro call executed on at least one machine state (or rejected as it must be); distinct = (architecture, macro, operands)"
    QUICK, THOROUGH = 40000, 1500000
    QUICK_S, THOROUGH_S = 110, 1800
    ASSUMPTIONS = ["the assembler temporary r1 is not used as an operand", "on 64-bit variants registers hold sign-extended words, except for the doubleword macros",
                   "loads into r0 and set macros into r0 are not generated", "immediates that are floats and depend on labels are not generated"]

    # ---- generation
    def reg(self, s, zero=True, avoid=()):
        while True:
            n = s.below(32)
            if n in (1, K1) or n in avoid or (n == 0 and not zero): continue
            return n, M.dollar(s, M.GPR[n], n)
    def imm(self, s, v, pc, defs):
        k = s.below(12)
        # calls that have no value before the labels do
        if k == 10: n = "fw%d" % len(defs); defs.append("%s equ_ %d" % (n, v)); return s.pick(["max(%s,%s)", "min(%s,1*%s)"]) % (n, n) if s.bool() else "min(%s,max(%s,%s),%s+1)" % (n, n, n, n)
        if k == 11: n = "fw%d" % len(defs); defs.append("%s equ_ %d" % (n, v)); return s.pick(['(%s+strlen("a\\"b\\\\"+tostring(vz))-5)', '(find("x\\"y\\\\0",tostring(vz))-4+%s)', '(strlen("::;,)"+tostring(vz))+%s-6)']) % n
        if k == 1: n = "fw%d" % len(defs); defs.append("%s equ_ %d" % (n, v)); return n
        if k == 2: n = "fw%d" % len(defs); d = s.int(-70000, 70000); defs.append("%s equ_ %d" % (n, v - d)); return "%s+%d" % (n, d) if d >= 0 else "%s-%d" % (n, -d)
        if k == 3: return ".+%d" % (v - pc) if v >= pc else ".-%d" % (pc - v)
        if k == 4: return "org()+%d" % (v - pc) if v >= pc else "org()-%d" % (pc - v)
        if k == 5: n = "fw%d" % len(defs); defs.append("%s equ_ %d" % (n, -v)); return "-%s" % n
        if k == 6: return "(strlen(\"a\\\"b\\\\\")+%d)" % (v - 4) if v >= 4 else "%d" % v
        if k == 7: n = "fw%d" % len(defs); defs.append("%s equ_ %d" % (n, v)); return "(%s == %s ? %s : 5)" % (n, n, n)
        return M.num(s, v)
    def value(self, s, lo, hi):
        for _ in range(20):
            k = s.below(4)
            if k == 0: v = s.pick(EDGE)
            elif k == 1: v = s.pick(EDGE) + s.int(-2, 2)
            elif k == 2: v = s.int(-70000, 70000)
            else: v = s.int(lo, hi)
            if lo <= v <= hi: return v
        return max(lo, 0)

    def item(self, s, arch, pc, defs, targets, unaligned):
        """(text, kind, args)"""
        N = M.NAMES[arch]
        has = lambda n: n in N
        while True:
            k = s.wpick([(3, "li"), (3, "load"), (3, "store"), (4, "branch"), (4, "set"), (2, "rot"), (1, "abs"), (1, "lis"), (1, "cop"), (1, "beq")]) if not unaligned else s.pick(["ul", "us"])
            if k == "li":
                rd, t = self.reg(s, False)
                n = s.pick(["li", "la"])
                if s.bool(0.15):
                    f = s.pick([1.5, 0.1, -3.14159265358979, 100000000.0, 1.0, 2.5e-10, 12345.6789, -0.0009765625])
                    return "%s %s,%r" % (n, t, f), "li", (rd, struct.unpack("<i", struct.pack("<f", f))[0])
                v = self.value(s, -M32, M32); x = self.imm(s, v, pc, defs)
                if s.bool(0.3): return "%s.u %s,%s\n%s.l %s,%s" % (n, t, x, n, t, self.imm2(x, 4 if self.li_upper(v) else 0)), "li", (rd, v)
                return "%s %s,%s" % (n, t, x), "li", (rd, v)
            if k == "lis":
                if not has("mtc1"): continue
                f = s.pick([1.5, 0.1, -3.14159265358979, 100000000.0, 1.0, 2.0, 2.5e-10, 12345.6789, 3.0e38, 0.333333343267, 16777217.0, 0.0, s.int(-10**9, 10**9) / 1024.0])
                n = s.below(32)
                x = "%r" % f if s.bool(0.8) else "%r+0.0" % f
                return "li.s %s,%s" % (M.dollar(s, ["f%d" % n], n), x), "lis", (n, struct.unpack("<I", struct.pack("<f", f))[0])
            if k in ("load", "store"):
                n = s.pick([x for x in (LOADS if k == "load" else STORES) if has(x)])
                rd, t = self.reg(s, k != "load")
                return self.memop(s, n, t, pc, defs, k, (n, rd))
            if k == "cop":
                L = [x for x in ("lwc1", "swc1", "l.s", "s.s", "ldc1", "sdc1", "l.d", "s.d", "lwc2", "swc2") if has({"l.s": "lwc1", "s.s": "swc1", "l.d": "ldc1", "s.d": "sdc1"}.get(x, x))]
                if not L or arch == ".rsp": continue
                n = s.pick(L); rd = s.below(32)
                t = M.dollar(s, [M.GTED[rd]] if n.endswith("c2") else ["f%d" % rd], rd)
                return self.memop(s, n, t, pc, defs, "cop", (n, rd))
            if k in ("ul", "us"):
                n = s.pick(list(UL if k == "ul" else US))
                if n in ("ulw", "usw") and not has("lwl") or n in ("uld", "usd") and not has("ldl"): continue
                z = dict(UL, **US)[n]
                rb, tb = self.reg(s)
                rd, t = self.reg(s, False, (rb,) if z > 2 else ())
                off = s.pick([0, 1, 2, 3, -1, -2, -3, 0x7FFF - z + 1, -0x8000, s.int(-0x8000, 0x7FFF - z + 1)])
                if s.bool(0.2): return "%s %s,(%s)" % (n, t, tb), k, (n, rd, rb, 0)
                return "%s %s,%s(%s)" % (n, t, self.imm(s, off, pc, defs), tb), k, (n, rd, rb, off)
            if k in ("branch", "beq"):
                likely = has("bnezl") and s.bool(0.3)
                tg = s.pick(targets)
                ra, ta = self.reg(s)
                if k == "beq":
                    c = s.pick(["eq", "ne"]); u = ""; isimm = True
                else:
                    c = s.pick(["lt", "gt", "ge", "le"]); u = s.pick(["", "u"]); isimm = s.bool(0.6)
                n = "b" + c + u + ("l" if likely else "")
                if isimm:
                    v = self.value(s, -0x80000000, 0x7FFFFFFF if not u and k == "branch" else M32); b = ("i", v); tb = self.imm(s, v, pc, defs)
                else: rb, tb = self.reg(s); b = ("r", rb)
                d = self.imm(s, tg[1], pc, defs) if s.bool(0.3) else tg[0]
                return "%s %s,%s,%s" % (n, ta, tb, d), "branch", (c, u, likely, ra, b, tg[1])
            if k == "set":
                c = s.pick(["lt", "gt", "ge", "le", "ne", "eq"]); u = s.pick(["", "u"]) if c not in ("ne", "eq") else ""
                isimm = s.bool(0.6) or c in ("lt", "gt")
                n = "s" + c + u
                rs, ts = self.reg(s); rd, td = (rs, ts) if rs and s.bool(0.3) else self.reg(s, False)
                if isimm:
                    v = self.value(s, -0x80000000, 0x7FFFFFFF if not u and c not in ("ne", "eq") else M32); b = ("i", v); tb = self.imm(s, v, pc, defs)
                else:
                    rb, tb = self.reg(s)
                    if s.bool(0.2): rb, tb = rd, td
                    b = ("r", rb)
                return "%s %s,%s,%s" % (n, td, ts, tb), "set", (c, u, rd, rs, b)
            if k == "rot":
                n = s.pick(["rol", "ror"]); rs, ts = self.reg(s); rd, td = (rs, ts) if rs and s.bool(0.3) else self.reg(s, False)
                if s.bool():
                    v = s.pick([s.below(32), s.below(32), 0, 31, s.int(-40, 80)]); return "%s %s,%s,%s" % (n, td, ts, self.imm(s, v, pc, defs)), "rot", (n, rd, rs, ("i", v))
                rb, tb = self.reg(s)
                if s.bool(0.2): rb, tb = rd, td
                return "%s %s,%s,%s" % (n, td, ts, tb), "rot", (n, rd, rs, ("r", rb))
            if k == "abs":
                n = "dabs" if has("dsra32") and s.bool() else "abs"
                rs, ts = self.reg(s); rd, td = (rs, ts) if rs and s.bool(0.3) else self.reg(s, False)
                return "%s %s,%s" % (n, td, ts), "abs", (n, rd, rs)
    @staticmethod
    def li_upper(v):
        """whether the upper half of li has code"""
        return v & ~0xFFFF and v & 0xFFFF8000 != 0xFFFF8000
    @staticmethod
    def imm2(x, n):
        """the same expression n bytes later"""
        return x if n == 0 else x.replace(".", ".-%d" % n, 1) if x[0] == "." else x.replace("org()", "org()-%d" % n)
    def memop(self, s, n, t, pc, defs, kind, args):
        v = self.value(s, 0, M32); x = self.imm(s, v, pc, defs)
        if s.bool(0.3): return "%s.u %s,%s\n%s.l %s,%s" % (n, t, x, n, t, self.imm2(x, 4)), kind, args + (v,)
        return "%s %s,%s" % (n, t, x), kind, args + (v,)

    def gen(self, s):
        arch = s.pick(M.ARCHS)
        base = s.pick([0, 0x80010000, 0x08804000, 0x04001000])
        if s.bool(0.06):
            big = s.pick([0x100000000, -0x100000000, 0x100000005, 0x123456789A, -0x7000000000])
            t = s.pick(["li a0,%d" % big, "la a0,%d" % big, "lw a0,%d" % abs(big), "sw a0,%d" % abs(big), "lb a0,%d+(1<<40)" % abs(big), "bltl a0,a1,%d" % base if arch in (".psx", ".rsp") else "blt a0,a1,%d" % (base + 0x40000),
                        "ld a0,0x80001000" if BITS[arch] == 32 else "li a0,%d" % big, "abs a0", "abs a0,5", "li a0", "li f0,5", "blt a0,a1", "rol a0,a1", "ulw a0,0x7FFE(a1)", "ulh a0,0x7FFF(a1)", "usw a0,0x7FFD(a1)", "ush a0,0x7FFF(a1)", "seq a0,5,a1",
                        "blt a0,5,%d" % (base + 2), "li a0,undefinedlabel", "ulw a0,4(a0)"])
            return ("bad", arch, base, t)
        defs = []; N = 10
        targets = [("l%d" % i, base + SLOT * i) for i in range(N)]
        unal = s.bool(0.12); idx = [0]
        def one(s):
            pc = base + SLOT * idx[0]; idx[0] += 1
            it = self.item(s, arch, pc, defs, targets, unal)
            states = [self.state(s, arch, it) for _ in range(s.int(1, 3))]
            return it + (states,)
        return ("ok", arch, base, s.many(one, 1, N, 0.93), defs, N)

    def state(self, s, arch, it):
        """register values: mostly near the constants that matter"""
        b = BITS[arch]; regs = {}
        kind, a = it[1], it[2]
        near = []
        if kind in ("branch", "set"):
            x = a[4]
            if x[0] == "i": near = [x[1] & M32]
        for n in range(1, 32):
            k = s.below(6)
            if k == 0: v = 0
            elif k == 1: v = s.pick(EDGE)
            elif k == 2 and near: v = near[0] + s.int(-1, 1)
            elif k == 3 and regs: v = regs[s.pick(list(regs))] + s.int(-1, 1)
            else: v = s.below(1 << 32)
            v &= M32
            regs[n] = v
        wide = (kind == "abs" and a[0] == "dabs") or (kind in ("store", "us") and a[0] in ("sd", "scd", "usd")) or (kind in ("ul",) and a[0] == "uld")
        hi = [s.below(1 << 32) for _ in range(32)] if wide and s.bool(0.8) else None
        return regs, hi, s.below(1 << 30)

    def program(self, c):
        if c[0] == "bad": return '%s\n.create "o.bin",0x%X\n%s\nnop\n.close\n' % (c[1], c[2], c[3])
        _, arch, base, items, defs, N = c
        L = [arch, '.create "o.bin",0x%X' % base, ".definelabel vz,0"]
        for i in range(N):
            L += [".org 0x%X" % (base + SLOT * i), "l%d:" % i]
            if i < len(items): L += [items[i][0], "addiu k1,k1,1"]
        L += [".org 0x%X" % (base + SLOT * N - 4), "nop", ".close"]
        L += [".definelabel %s,%s" % tuple(d.split(" equ_ ")) for d in defs]
        return "\n".join(L) + "\n"
    def render(self, c):
        t = self.program(c)
        if c[0] == "ok": t += "; states: " + repr([i[3] for i in c[3]])[:300]
        return t

    # ---- oracle
    def expect(self, arch, it, S, pc0):
        """list of (tag, state, target): acceptable final states; the first is the documented one"""
        kind, a = it[1], it[2]
        E = S.clone()
        wd = lambda b: (S.g(b[1]), S.s(b[1])) if b[0] == "r" else (sx(b[1], 32) & S.mask, sx(b[1], 32))
        out = None
        if kind == "li": E.set32(a[0], a[1])
        elif kind == "lis": E.f[a[0]] = a[1]
        elif kind == "load":
            z, sg = LOADS[a[0]]; v = S.load(a[2], z); E.set(a[1], sx(v, 8 * z) if sg else v)
        elif kind == "store":
            E.store(a[2], STORES[a[0]], S.g(a[1]))
            if a[0] in ("sc", "scd"): E.set(a[1], 1)
        elif kind == "cop":
            n = {"l.s": "lwc1", "s.s": "swc1", "l.d": "ldc1", "s.d": "sdc1"}.get(a[0], a[0])
            z = 8 if "d" in n else 4; R = E.c2 if n.endswith("2") else E.f
            if n[0] == "l": R[a[1]] = S.load(a[2], z)
            else: E.store(a[2], z, R[a[1]])
        elif kind in ("branch", "set"):
            if kind == "branch": c, u, likely, ra, b, tg = a
            else: c, u, rd, ra, b = a
            ua, sa = S.g(ra), S.s(ra); ub, sb = wd(b)
            r = CMP[c](ua, ub) if u or c in ("ne", "eq") else CMP[c](sa, sb)
            if kind == "set": E.set(rd, int(r))
            else: out = (r, likely, tg)
        elif kind == "rot":
            v = S.g32(a[2]); n = (S.g(a[3][1]) if a[3][0] == "r" else a[3][1]) & 31
            if a[0] == "ror": n = -n & 31
            E.set32(a[1], v << n | v >> (32 - n))
        elif kind == "abs":
            if a[0] == "abs": E.set32(a[1], abs(sx(S.g(a[2]), 32)))
            else: E.set(a[1], abs(S.s(a[2])))
        alts = [(None, E)]
        if kind in ("ul", "us"):
            n, rd, rb, off = a; ea = (S.g(rb) + off) & M32; z = dict(UL, **US)[n]
            if kind == "ul":
                v = S.load(ea, z); E.set(rd, v if n == "ulhu" else sx(v, 8 * z))
                K = S.clone()
                if z == 2:
                    lo, hi = S.byte(ea), S.byte(ea + 1)
                    K.set(rd, hi << 8 | lo if n == "ulhu" else (sx(hi, 8) << 8) | sx(lo, 8))
                else:
                    v = K.left((ea + z - 1) & M32, z, K.g(rd) & ((1 << 8 * z) - 1)); v = K.right(ea, z, v); K.set(rd, sx(v, 8 * z))
            else:
                E.store(ea, z, S.g(rd)); K = S.clone()
                if z == 2: K.w[ea] = S.g(rd) & 255; K.w[(ea + 1) & M32] = S.g(rd) >> 8 & 255
                else: K.sleft((ea + z - 1) & M32, z, S.g(rd)); K.sright(ea, z, S.g(rd))
            if S.e == "big": alts.append(("be-unaligned", K))
            elif n == "ulh": alts.append(("ulh-sign", K))
        return alts, out

    def run(self, c, env):
        r = env.run({"a.asm": self.program(c)})
        if c[0] == "bad":
            if r.rc != 1 or not r.errors(): raise Fail("macro call that has no meaning accepted on %s: %s" % (c[1], c[3]))
            return 1, [(c[1], c[3])], c[3]
        _, arch, base, items, defs, N = c
        if r.rc: raise Fail("valid macro rejected: " + r.text[:500])
        out = r.read("o.bin"); e = M.ARCH[arch][3]
        if len(out) != SLOT * N: raise Fail("output has %d bytes, expected %d" % (len(out), SLOT * N))
        code = lambda pc: int.from_bytes(out[pc - base:pc - base + 4], e)
        tagged = None; n = 0
        for i, it in enumerate(items):
            pc0 = base + SLOT * i
            for regs, hi, key in it[3]:
                S = Sim(BITS[arch], e, arch == ".psp", arch == ".psx", b"%d:" % key)
                for k, v in regs.items():
                    S.set32(k, v)
                    if hi and S.bits == 64: S.set(k, v | hi[k] << 32)
                S.f = [(key * (k + 3) * 2654435761) & (M64 if S.bits == 64 else M32) for k in range(32)]
                S.c2 = [(key * (k + 7) * 40503) & M32 for k in range(32)]
                A = S.clone(); A.w = {}
                what = "[%s] %s at %X" % (arch, it[0].replace("\n", " / "), pc0)
                try: pc = A.run(code, pc0, pc0 + SLOT)
                except Unknown as x: raise Fail("%s expands to something unexpected: %s (%s)" % (what, x, out[SLOT * i:SLOT * i + 32].hex()))
                alts, br = self.expect(arch, it, S, pc0)
                ok = None
                for tag, E in alts:
                    marker = 1
                    wantpc = pc0 + SLOT
                    if br:
                        if br[0]: wantpc = br[2]
                        elif br[1]: marker = 0
                    E.set32(K1, E.g(K1) + marker)
                    bad = []
                    for k in range(2, 32):
                        if A.r[k] != E.r[k]: bad.append("r%d=%X, expected %X" % (k, A.r[k], E.r[k]))
                    if A.f != E.f: bad.append("FPU registers %s" % [(k, hex(A.f[k]), hex(E.f[k])) for k in range(32) if A.f[k] != E.f[k]])
                    if A.c2 != E.c2: bad.append("GTE registers")
                    if A.w != E.w: bad.append("memory %s, expected %s" % ({hex(k): hex(v) for k, v in A.w.items()}, {hex(k): hex(v) for k, v in E.w.items()}))
                    if pc & M32 != wantpc & M32: bad.append("continues at %X, expected %X" % (pc, wantpc))
                    if not bad: ok = tag or True; break
                    if tag is None: first = bad
                if ok is None: raise Fail("%s with %s: %s" % (what, ["r%d=%X" % (k, v) for k, v in enumerate(S.r) if k and self.uses(it, k)], "; ".join(first)))
                if ok is not True: tagged = (ok, what, first)
                n += 1
        if tagged: raise Fail("%s: %s" % (tagged[1], "; ".join(tagged[2])), tagged[0])
        return n, [(arch, it[0]) for it in items], "%s: %s" % (arch, items[0][0])
    @staticmethod
    def uses(it, k):
        return k in [x for x in it[2] if isinstance(x, int)] or any(isinstance(x, tuple) and x == ("r", k) for x in it[2])

CHECK = C14()
