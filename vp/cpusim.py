"""Small interpreters that run a routine until it returns and record the calls it makes (ARM/THUMB v4T-v5, SH-2, MIPS)."""
from .mipsim import Sim as Mips, Unknown, sx
M = 0xFFFFFFFF
LIMIT = 4000
RET = 0x0DEAD000                            # return address of the routine under test

class Mem:
    def __init__(self, base, data, e): self.base, self.d, self.e, self.w = base, data, e, {}
    def b(self, a):
        a &= M
        if a in self.w: return self.w[a]
        if self.base <= a < self.base + len(self.d): return self.d[a - self.base]
        raise Unknown("read of %08X" % a)
    def load(self, a, n):
        if a % n: raise Unknown("unaligned read of %08X" % a)
        return int.from_bytes(bytes(self.b(a + i) for i in range(n)), self.e)
    def store(self, a, n, v):
        if a % n: raise Unknown("unaligned write of %08X" % a)
        if self.base <= a < self.base + len(self.d): raise Unknown("write into the image at %08X" % a)
        for i, x in enumerate((v & ((1 << 8 * n) - 1)).to_bytes(n, self.e)): self.w[a + i & M] = x

class Arm:
    """call(addr) runs the routine; calls: list of (target, thumb)"""
    def __init__(self, mem, v5): self.m, self.v5 = mem, v5
    def call(self, entry, functions):
        r = self.r = [0x1000 + i for i in range(16)]; sp = 0x7F000000; r[13] = sp
        saved = r[4:12]
        self.t = bool(entry & 1); pc = entry & ~1
        self.N = self.Z = self.C = self.V = False
        r[14] = RET | 1; calls = []
        for _ in range(LIMIT):
            if pc == RET:
                if not self.t: raise Unknown("returned in ARM mode")
                if r[13] != sp or r[4:12] != saved: raise Unknown("stack pointer or saved registers changed")
                return calls
            if pc in functions:
                if self.t != functions[pc]: raise Unknown("function at %08X entered in the wrong mode" % pc)
                calls.append(pc)
                if r[13] % 4: raise Unknown("stack")
                for i in (0, 1, 2, 3, 12): r[i] = 0xBAD0000 + i
                lr = r[14]; r[14] = 0xBAD; self.N = self.C = not self.N
                self.t = bool(lr & 1); pc = lr & ~1; continue
            pc = self.thumb(pc) if self.t else self.arm(pc)
        raise Unknown("does not return")
    def flags(self, v): self.N, self.Z = bool(v >> 31 & 1), v & M == 0
    def sub(self, a, b, c=1):
        x = a + (~b & M) + c; self.C = x > M; v = x & M; self.flags(v); self.V = bool((a ^ b) & (a ^ v) >> 31 & 1); self.V = bool(((a ^ b) & (a ^ v)) >> 31 & 1); return v
    def add(self, a, b):
        x = a + b; self.C = x > M; v = x & M; self.flags(v); self.V = bool((~(a ^ b) & (a ^ v)) >> 31 & 1); return v
    def cond(self, c):
        r = [self.Z, self.C, self.N, self.V, self.C and not self.Z, self.N == self.V, not self.Z and self.N == self.V, True][c >> 1]
        return r if c == 14 or not c & 1 else not r
    def bx(self, a): self.t = bool(a & 1); return a & ~1 if a & 1 else a & ~3
    def thumb(self, pc):
        r, m = self.r, self.m; w = m.load(pc, 2); r[15] = pc + 4 & M; n = pc + 2
        lo = lambda s: w >> s & 7
        k = w >> 13
        if w >> 11 == 3:                                  # add/sub 3
            b = lo(6) if w & 0x400 else r[lo(6)]
            r[lo(0)] = self.sub(r[lo(3)], b) if w & 0x200 else self.add(r[lo(3)], b); return n
        if k == 0:
            op, s, v = w >> 11 & 3, w >> 6 & 31, r[lo(3)]
            r[lo(0)] = v << s & M if op == 0 else v >> (s or 32) if op == 1 else sx(v, 32) >> (s or 31) & M; self.flags(r[lo(0)]); return n
        if k == 1:
            op, d, i = w >> 11 & 3, lo(8), w & 255
            if op == 0: r[d] = i; self.flags(i)
            elif op == 1: self.sub(r[d], i)
            elif op == 2: r[d] = self.add(r[d], i)
            else: r[d] = self.sub(r[d], i)
            return n
        if w >> 10 == 16:
            op, b, d = w >> 6 & 15, r[lo(3)], lo(0)
            if op == 10: self.sub(r[d], b)
            elif op in (0, 1, 12, 14): r[d] = [r[d] & b, r[d] ^ b][op] if op < 2 else r[d] | b if op == 12 else r[d] & ~b & M; self.flags(r[d])
            else: raise Unknown("thumb %04X" % w)
            return n
        if w >> 10 == 17:
            op, s, d = w >> 8 & 3, w >> 3 & 15, w & 7 | w >> 4 & 8
            if op == 0: r[d] = r[d] + r[s] & M
            elif op == 1: self.sub(r[d], r[s])
            elif op == 2: r[d] = r[s]
            else:
                a = r[s]
                if w & 0x80:
                    if not self.v5: raise Unknown("blx on ARMv4")
                    r[14] = n | 1
                return self.bx(a)
            return r[15] & ~1 if d == 15 and op != 1 else n
        if w >> 11 == 9: r[lo(8)] = m.load((r[15] & ~3) + (w & 255) * 4, 4); return n
        if k == 3:
            z = 1 if w & 0x1000 else 4; a = r[lo(3)] + (w >> 6 & 31) * z & M
            if w & 0x800: r[lo(0)] = m.load(a, z)
            else: m.store(a, z, r[lo(0)])
            return n
        if w >> 12 == 9:
            a = r[13] + (w & 255) * 4
            if w & 0x800: r[lo(8)] = m.load(a, 4)
            else: m.store(a, 4, r[lo(8)])
            return n
        if w >> 12 == 10: r[lo(8)] = ((r[13] if w & 0x800 else r[15] & ~3) + (w & 255) * 4) & M; return n
        if w >> 8 == 0xB0: r[13] += (-1 if w & 128 else 1) * (w & 127) * 4; return n
        if w >> 9 == 0x5A:
            L = [i for i in range(8) if w >> i & 1] + ([14] if w & 256 else [])
            r[13] -= 4 * len(L)
            for i, x in enumerate(L): m.store(r[13] + 4 * i, 4, r[x])
            return n
        if w >> 9 == 0x5E:
            for i in range(8):
                if w >> i & 1: r[i] = m.load(r[13], 4); r[13] += 4
            if w & 256:
                a = m.load(r[13], 4); r[13] += 4
                if self.v5: return self.bx(a)
                return a & ~1                              # no interworking on ARMv4
            return n
        if w >> 12 == 12:
            b = lo(8)
            for i in range(8):
                if w >> i & 1:
                    if w & 0x800: r[i] = m.load(r[b], 4)
                    else: m.store(r[b], 4, r[i])
                    r[b] += 4
            return n
        if w >> 12 == 13 and w >> 8 & 15 < 14: return r[15] + sx(w, 8) * 2 & M if self.cond(w >> 8 & 15) else n
        if w >> 11 == 28: return r[15] + sx(w, 11) * 2 & M
        if w >> 11 == 30:
            x = m.load(n, 2); o = sx((w & 0x7FF) << 11 | x & 0x7FF, 22) * 2; r[14] = pc + 4 | 1
            if x >> 11 == 31: return r[15] + o & M
            if x >> 11 == 29 and self.v5: self.t = False; return (r[15] + o & M) & ~3
        raise Unknown("thumb %04X at %X" % (w, pc))
    def arm(self, pc):
        r, m = self.r, self.m; w = m.load(pc, 4); r[15] = pc + 8 & M; n = pc + 4
        c = w >> 28
        if c == 15:
            if w >> 25 == 0x7D and self.v5: r[14] = n; self.t = True; return r[15] + sx(w, 24) * 4 + (w >> 23 & 2) & M
            raise Unknown("arm %08X" % w)
        if not self.cond(c): return n
        if w & 0x0FFFFFF0 == 0x012FFF10: return self.bx(r[w & 15])
        if w & 0x0FFFFFF0 == 0x012FFF30:
            if not self.v5: raise Unknown("blx on ARMv4")
            a = r[w & 15]; r[14] = n; return self.bx(a)
        rn, rd = w >> 16 & 15, w >> 12 & 15
        if w >> 25 & 7 == 5:
            if w >> 24 & 1: r[14] = n
            return r[15] + sx(w, 24) * 4 & M
        if w >> 25 & 7 == 4:
            L = [i for i in range(16) if w >> i & 1]; up, pre, wb, ld = w >> 23 & 1, w >> 24 & 1, w >> 21 & 1, w >> 20 & 1
            a = r[rn]; st = a + (4 if pre else 0) if up else a - 4 * len(L) + (0 if pre else 4)
            if wb: r[rn] = a + 4 * len(L) * (1 if up else -1) & M
            res = n
            for i, x in enumerate(L):
                if ld:
                    v = m.load(st + 4 * i & M, 4)
                    if x == 15: res = self.bx(v) if self.v5 else v & ~3
                    else: r[x] = v
                else: m.store(st + 4 * i & M, 4, r[x])
            return res
        if w >> 26 & 3 == 1 and not w >> 25 & 1:
            pre, up, by, wb, ld = w >> 24 & 1, w >> 23 & 1, w >> 22 & 1, w >> 21 & 1, w >> 20 & 1
            o = (w & 0xFFF) * (1 if up else -1); a = r[rn] + (o if pre else 0) & M; z = 1 if by else 4
            if not pre or wb: r[rn] = r[rn] + o & M
            if ld:
                v = m.load(a, z)
                if rd == 15: return self.bx(v) if self.v5 else v & ~3
                r[rd] = v
            else: m.store(a, z, r[rd])
            return n
        if w >> 26 & 3 == 0 and (w >> 25 & 1 or not w & 0x90 == 0x90):
            op, S = w >> 21 & 15, w >> 20 & 1
            if w >> 25 & 1: s = 2 * (w >> 8 & 15); v = w & 255; b = (v >> s | v << 32 - s) & M if s else v
            else:
                if w >> 4 & 0xFF: raise Unknown("arm %08X" % w)
                b = r[w & 15]
            a = r[rn]; f = (self.N, self.Z, self.C, self.V)
            if op in (2, 10): v = self.sub(a, b)
            elif op == 3: v = self.sub(b, a)
            elif op in (4, 11): v = self.add(a, b)
            else:
                v = {0: a & b, 1: a ^ b, 8: a & b, 9: a ^ b, 12: a | b, 13: b, 14: a & ~b & M, 15: ~b & M}.get(op)
                if v is None: raise Unknown("arm %08X" % w)
                self.flags(v)
            if not S: self.N, self.Z, self.C, self.V = f
            if 8 <= op <= 11: return n
            if rd == 15: return v & ~3
            r[rd] = v; return n
        raise Unknown("arm %08X at %X" % (w, pc))

class Sh:
    def __init__(self, mem): self.m = mem
    def call(self, entry, functions):
        r = self.r = [0x1000 + i for i in range(16)]; r[15] = sp = 0x7F000000; saved = r[8:15]; self.pr = RET; self.T = False
        pc = entry; calls = []
        for _ in range(LIMIT):
            if pc == RET:
                if r[15] != sp or r[8:15] != saved: raise Unknown("stack pointer or saved registers changed")
                return calls
            if pc in functions:
                calls.append(pc)
                for i in range(8): r[i] = 0xBAD0000 + i
                pc = self.pr; self.pr = 0xBAD; self.T = not self.T; continue
            j = self.step(self.m.load(pc, 2), pc)
            if j is None: pc += 2
            elif j[1]:
                if self.step(self.m.load(pc + 2, 2), pc + 2) is not None: raise Unknown("branch in a delay slot")
                pc = j[0]
            else: pc = j[0]
        raise Unknown("does not return")
    def step(self, w, pc):
        r, m = self.r, self.m; n, k = w >> 8 & 15, w >> 4 & 15; t = w >> 12; l = w & 15; d8 = w & 255
        if w == 9: return
        if w == 0xB: return self.pr, True
        if t == 2 and l == 6: r[n] -= 4; m.store(r[n], 4, r[k]); return
        if t == 2 and l == 2: m.store(r[n], 4, r[k]); return
        if t == 6 and l == 2: r[n] = m.load(r[k], 4); return
        if t == 6 and l == 3: r[n] = r[k]; return
        if t == 6 and l == 6:
            v = m.load(r[k], 4); r[k] += 4; r[n] = v; return
        if t == 5: r[n] = m.load(r[k] + l * 4, 4); return
        if t == 1: m.store(r[n] + l * 4, 4, r[k]); return
        if t == 7: r[n] = r[n] + sx(d8, 8) & M; return
        if t == 14: r[n] = sx(d8, 8) & M; return
        if t == 13: r[n] = m.load((pc + 4 & ~3) + d8 * 4, 4); return
        if w >> 8 == 0xC7: r[0] = (pc + 4 & ~3) + d8 * 4; return
        if t == 3 and l in (0, 2, 3, 6, 7, 8, 12):
            a, b = r[n], r[k]
            if l == 12: r[n] = a + b & M
            elif l == 8: r[n] = a - b & M
            else: self.T = {0: a == b, 2: a >= b, 3: sx(a, 32) >= sx(b, 32), 6: a > b, 7: sx(a, 32) > sx(b, 32)}[l]
            return
        if w & 0xF0FF == 0x4022: r[n] -= 4; m.store(r[n], 4, self.pr); return
        if w & 0xF0FF == 0x4026: self.pr = m.load(r[n], 4); r[n] += 4; return
        if w & 0xF0FF == 0x400B: a = r[n]; self.pr = pc + 4; return a, True
        if w & 0xF0FF == 0x402B: return r[n], True
        if w >> 8 in (0x89, 0x8B): return ((pc + 4 + sx(d8, 8) * 2) & M, False) if self.T == (w >> 8 == 0x89) else None
        if w >> 8 in (0x8D, 0x8F): return (pc + 4 + sx(d8, 8) * 2 & M if self.T == (w >> 8 == 0x8D) else pc + 4), True
        if t == 10: return pc + 4 + sx(w, 12) * 2 & M, True
        raise Unknown("sh %04X at %X" % (w, pc))

class MipsRun:
    def __init__(self, mem, delay): self.m, self.delay = mem, delay
    def call(self, entry, functions):
        s = Mips(32, self.m.e); s.load = self.m.load; s.store = self.m.store
        s.r = [0] + [0x1000 + i for i in range(1, 32)]; s.r[29] = sp = 0x7F000000; s.r[31] = RET
        saved = s.r[16:24] + s.r[28:31]; calls = []; pc = entry; nxt = None; pend = None
        for _ in range(LIMIT):
            if pc == RET and nxt is None:
                if pend: s.set(*pend); pend = None
                if s.r[16:24] + s.r[28:31] != saved: raise Unknown("stack pointer or saved registers changed")
                return calls
            if pc in functions and nxt is None:
                if pend: s.set(*pend); pend = None
                calls.append(pc)
                for i in list(range(1, 16)) + [24, 25]: s.r[i] = 0xBAD0000 + i
                pc = s.r[31]; s.r[31] = 0xBAD; continue
            w = self.m.load(pc, 4); p, pend = pend, None
            if w >> 26 == 0 and w & 63 in (8, 9):
                if nxt is not None: raise Unknown("branch in a delay slot")
                a = s.r[w >> 21 & 31]
                if p: s.set(*p)
                if w & 63 == 9: s.set(w >> 11 & 31, pc + 8)
                nxt = a; pc += 4; continue
            t = s.step(w, pc)
            if isinstance(t, tuple) and t[0] == "load":
                if self.delay:
                    if p and p[0] != t[1]: s.set(*p)
                    pend = t[1:]
                else: s.set(t[1], t[2])
            elif p and not (isinstance(t, tuple) and t[0] == "wrote" and t[1] == p[0]): s.set(*p)
            if nxt is not None:
                if isinstance(t, tuple) and t[0] == "branch": raise Unknown("branch in a delay slot")
                pc, nxt = nxt, None; continue
            if isinstance(t, tuple) and t[0] == "branch":
                if t[2] or not t[3]: nxt = t[1] if t[2] else pc + 8; pc += 4
                else: pc += 8
                continue
            pc += 4
        raise Unknown("does not return")
