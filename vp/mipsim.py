"""A small MIPS interpreter (integer core, loads/stores, cop1/cop2 transfers), used as the oracle for macro expansions."""
import hashlib
M32, M64 = 0xFFFFFFFF, 0xFFFFFFFFFFFFFFFF
def sx(v, n): v &= (1 << n) - 1; return v - (1 << n) if v >> (n - 1) else v

class Unknown(Exception): pass

class Sim:
    def __init__(self, bits, endian, psp=False, loaddelay=False, key=b""):
        self.bits, self.e, self.psp, self.ld = bits, endian, psp, loaddelay
        self.mask = M64 if bits == 64 else M32
        self.r = [0] * 32; self.f = [0] * 32; self.c2 = [0] * 32
        self.mem = {}; self.key = key; self.w = {}
    def clone(self):
        s = Sim(self.bits, self.e, self.psp, self.ld, self.key)
        s.r, s.f, s.c2, s.w, s.mem = list(self.r), list(self.f), list(self.c2), dict(self.w), self.mem
        return s
    # memory
    def byte(self, a):
        a &= M32
        if a in self.w: return self.w[a]
        if a not in self.mem: self.mem[a] = hashlib.md5(self.key + b"%d" % a).digest()[0]
        return self.mem[a]
    def load(self, a, n):
        b = bytes(self.byte(a + i) for i in range(n)); return int.from_bytes(b, self.e)
    def store(self, a, n, v):
        for i, b in enumerate((v & ((1 << 8 * n) - 1)).to_bytes(n, self.e)): self.w[(a + i) & M32] = b
    def left(self, a, n, old):      # lwl/ldl
        k = a & (n - 1); w = self.load(a - k, n); full = (1 << 8 * n) - 1
        sh = 8 * (k if self.e == "big" else n - 1 - k)
        return (w << sh | old & ((1 << sh) - 1)) & full
    def right(self, a, n, old):
        k = a & (n - 1); w = self.load(a - k, n); full = (1 << 8 * n) - 1
        sh = 8 * (n - 1 - k if self.e == "big" else k)
        return (old & ~(full >> sh) & full) | w >> sh
    def sleft(self, a, n, v):
        k = a & (n - 1); base = a - k
        v &= (1 << 8 * n) - 1
        b = v.to_bytes(n, "big")
        if self.e == "big":
            for i in range(n - k): self.w[(a + i) & M32] = b[i]
        else:
            for i in range(k + 1): self.w[(a - i) & M32] = b[i]
    def sright(self, a, n, v):
        k = a & (n - 1)
        b = (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
        if self.e == "big":
            for i in range(k + 1): self.w[(a - i) & M32] = b[i]
        else:
            for i in range(n - k): self.w[(a + i) & M32] = b[i]
    # registers
    def g(self, n): return self.r[n]
    def g32(self, n): return self.r[n] & M32
    def s(self, n): return sx(self.r[n], self.bits)
    def set(self, n, v):
        if n: self.r[n] = v & self.mask
    def set32(self, n, v): self.set(n, sx(v, 32))

    def run(self, code, pc, end):
        """execute from pc until end or the first taken branch; returns the new pc"""
        pending = None
        steps = 0
        while pc < end:
            steps += 1
            if steps > 64: raise Unknown("no progress")
            p, pending = pending, None
            t = self.step(code(pc), pc)
            if isinstance(t, tuple) and t[0] == "load":
                _, rt, v = t
                if self.ld:
                    if p and p[0] != rt: self.set(p[0], p[1])
                    pending = (rt, v)
                else: self.set(rt, v)
                pc += 4; continue
            if p and not (isinstance(t, tuple) and t[0] == "wrote" and t[1] == p[0]): self.set(p[0], p[1])
            if isinstance(t, tuple) and t[0] == "branch":
                _, target, taken, likely = t
                if taken or not likely:
                    t2 = self.step(code(pc + 4), pc + 4)
                    if isinstance(t2, tuple) and t2[0] == "branch": raise Unknown("branch in a delay slot")
                    if isinstance(t2, tuple) and t2[0] == "load": self.set(t2[1], t2[2])
                if taken: return target
                pc += 8; continue
            pc += 4
        if pending: self.set(*pending)
        return pc

    def wr(self, n, v, w32=True):
        if w32: self.set32(n, v)
        else: self.set(n, v)
        return ("wrote", n)

    def step(self, w, pc):
        op, rs, rt, rd, sa, fn = w >> 26, w >> 21 & 31, w >> 16 & 31, w >> 11 & 31, w >> 6 & 31, w & 63
        imm = w & 0xFFFF; si = sx(imm, 16)
        ea = (self.g(rs) + si) & M32
        if op == 0:
            if fn == 0: return self.wr(rd, self.g32(rt) << sa)
            if fn == 2:
                v = self.g32(rt)
                if rs == 1 and self.psp: return self.wr(rd, v >> sa | v << (32 - sa))
                if rs == 0: return self.wr(rd, v >> sa)
            if fn == 3 and rs == 0: return self.wr(rd, sx(self.g32(rt), 32) >> sa)
            if fn == 4: return self.wr(rd, self.g32(rt) << (self.g(rs) & 31))
            if fn == 6:
                v, n = self.g32(rt), self.g(rs) & 31
                if sa == 1 and self.psp: return self.wr(rd, v >> n | v << (32 - n))
                if sa == 0: return self.wr(rd, v >> n)
            if fn == 7: return self.wr(rd, sx(self.g32(rt), 32) >> (self.g(rs) & 31))
            if fn in (0x20, 0x21): return self.wr(rd, self.g(rs) + self.g(rt))
            if fn in (0x22, 0x23): return self.wr(rd, self.g(rs) - self.g(rt))
            if fn == 0x24: return self.wr(rd, self.g(rs) & self.g(rt), False)
            if fn == 0x25: return self.wr(rd, self.g(rs) | self.g(rt), False)
            if fn == 0x26: return self.wr(rd, self.g(rs) ^ self.g(rt), False)
            if fn == 0x27: return self.wr(rd, ~(self.g(rs) | self.g(rt)), False)
            if fn == 0x2A: return self.wr(rd, int(self.s(rs) < self.s(rt)), False)
            if fn == 0x2B: return self.wr(rd, int(self.g(rs) < self.g(rt)), False)
            if fn == 0x0A and self.g(rt) == 0: return self.wr(rd, self.g(rs), False)
            if fn == 0x0B and self.g(rt) != 0: return self.wr(rd, self.g(rs), False)
            if fn in (0x0A, 0x0B): return None
            if self.psp and fn == 0x2C: return self.wr(rd, max(self.s(rs), self.s(rt)), False)
            if self.bits == 64:
                if fn in (0x2C, 0x2D): return self.wr(rd, self.g(rs) + self.g(rt), False)
                if fn in (0x2E, 0x2F): return self.wr(rd, self.g(rs) - self.g(rt), False)
                if fn == 0x38: return self.wr(rd, self.g(rt) << sa, False)
                if fn == 0x3A: return self.wr(rd, self.g(rt) >> sa, False)
                if fn == 0x3B: return self.wr(rd, self.s(rt) >> sa, False)
                if fn == 0x3C: return self.wr(rd, self.g(rt) << (sa + 32), False)
                if fn == 0x3E: return self.wr(rd, self.g(rt) >> (sa + 32), False)
                if fn == 0x3F: return self.wr(rd, self.s(rt) >> (sa + 32), False)
        elif op == 1 and rt in (0, 1, 2, 3):
            return ("branch", pc + 4 + si * 4, (self.s(rs) >= 0) == bool(rt & 1), rt >= 2)
        elif op in (4, 20): return ("branch", pc + 4 + si * 4, self.g(rs) == self.g(rt), op == 20)
        elif op in (5, 21): return ("branch", pc + 4 + si * 4, self.g(rs) != self.g(rt), op == 21)
        elif op in (6, 22): return ("branch", pc + 4 + si * 4, self.s(rs) <= 0, op == 22)
        elif op in (7, 23): return ("branch", pc + 4 + si * 4, self.s(rs) > 0, op == 23)
        elif op in (8, 9): return self.wr(rt, self.g(rs) + si)
        elif op == 10: return self.wr(rt, int(self.s(rs) < si), False)
        elif op == 11: return self.wr(rt, int(self.g(rs) < (si & self.mask)), False)
        elif op == 12: return self.wr(rt, self.g(rs) & imm, False)
        elif op == 13: return self.wr(rt, self.g(rs) | imm, False)
        elif op == 14: return self.wr(rt, self.g(rs) ^ imm, False)
        elif op == 15: return self.wr(rt, imm << 16)
        elif op in (24, 25) and self.bits == 64: return self.wr(rt, self.g(rs) + si, False)
        elif op == 17 and rs == 4: self.f[rd] = self.g32(rt); return None
        elif op == 17 and rs == 0: return ("load", rt, sx(self.f[rd], 32))
        elif op == 0x20: return ("load", rt, sx(self.load(ea, 1), 8))
        elif op == 0x21: return ("load", rt, sx(self.load(ea, 2), 16))
        elif op == 0x22: return ("wrote", rt) if self.set32(rt, self.left(ea, 4, self.g32(rt))) else ("wrote", rt)
        elif op in (0x23, 0x30): return ("load", rt, sx(self.load(ea, 4), 32))
        elif op == 0x24: return ("load", rt, self.load(ea, 1))
        elif op == 0x25: return ("load", rt, self.load(ea, 2))
        elif op == 0x26: self.set32(rt, self.right(ea, 4, self.g32(rt))); return ("wrote", rt)
        elif op == 0x27 and self.bits == 64: return ("load", rt, self.load(ea, 4))
        elif op == 0x28: self.store(ea, 1, self.g(rt)); return None
        elif op == 0x29: self.store(ea, 2, self.g(rt)); return None
        elif op == 0x2A: self.sleft(ea, 4, self.g(rt)); return None
        elif op == 0x2B: self.store(ea, 4, self.g(rt)); return None
        elif op == 0x2E: self.sright(ea, 4, self.g(rt)); return None
        elif op == 0x31: self.f[rt] = self.load(ea, 4); return None
        elif op == 0x32: self.c2[rt] = self.load(ea, 4); return None
        elif op == 0x38: self.store(ea, 4, self.g(rt)); return self.wr(rt, 1)
        elif op == 0x39: self.store(ea, 4, self.f[rt]); return None
        elif op == 0x3A: self.store(ea, 4, self.c2[rt]); return None
        elif self.bits == 64:
            if op == 0x1A: self.set(rt, self.left(ea, 8, self.g(rt))); return ("wrote", rt)
            if op == 0x1B: self.set(rt, self.right(ea, 8, self.g(rt))); return ("wrote", rt)
            if op == 0x2C: self.sleft(ea, 8, self.g(rt)); return None
            if op == 0x2D: self.sright(ea, 8, self.g(rt)); return None
            if op in (0x34, 0x37): return ("load", rt, self.load(ea, 8))
            if op == 0x3C: self.store(ea, 8, self.g(rt)); return self.wr(rt, 1)
            if op == 0x3F: self.store(ea, 8, self.g(rt)); return None
            if op == 0x35: self.f[rt] = self.load(ea, 8); return None
            if op == 0x3D: self.store(ea, 8, self.f[rt]); return None
        raise Unknown("%08X at %X" % (w, pc))
