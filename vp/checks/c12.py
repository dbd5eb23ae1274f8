from ..core import Check, Fail
from .. import arm as A
import struct

M32 = 0xFFFFFFFF
BASES = [0, 0x40, 0x02000104, 0x08000104, 0x80000104, 0xFFFF0104]

class C12(Check):
    ID = "C12"
    RULE = "one literal load whose loaded value was checked (or a program rejected for a missing/unreachable pool); distinct = (program fingerprint, position, value), excluding programs without a pool load"
    QUICK, THOROUGH = 72000, 1500000
    QUICK_S, THOROUGH_S = 100, 1800
    ASSUMPTIONS = ["a value may be stored twice when label-valued literals collide with constants and make the layout oscillate (low base addresses)"]

    def gen(self, s):
        arch, endian = s.pick(A.ARCHS)
        base = s.pick(BASES)
        big = base > 0x1000 and s.bool(0.4)
        consts = s.many(lambda s: s.pick([s.edgy(32), s.below(1 << 32), s.below(256) << s.below(25), ~s.below(1 << 12), 0x12345678, -1, 0xFFFFFFFF]), 1, 4)
        consts = [c for c in consts if -(1 << 31) <= c <= M32] or [7]
        def item(s):
            k = s.wpick([(10, "ldr"), (4, "nop"), (3, "data"), (2, "pool"), (1, "mode"), (1, "far")])
            if k == "ldr":
                v = s.wpick([(4, "c"), (3, "l"), (1, "f"), (1, "lx")])
                cn, cv = s.pick(A.CONDS) if s.bool(0.3) else ("", 14)
                if v == "c": val = ("c", s.pick(consts))
                elif v == "f": val = ("f", s.pick([1.0, -2.5, 0.1, 3.0e10]))
                else: val = ("l", s.below(1000), s.pick([0, 1, -1, 4]) if v == "lx" else 0)
                return ("ldr", s.below(16), cn, cv, val, s.bool())
            if k == "data": return ("data", [s.below(256) for _ in range(s.int(1, 9))])
            if k == "far":
                if not big: return ("nop",)
                return ("far", s.pick([1012, 1016, 1020, 1024, 4080, 4088, 4092, 4096, 4100, 4104, s.below(4200)]))
            return (k,)
        items = s.many(item, 1, 18)
        if s.bool(0.02):               # pools with many values, most of them used again
            n = s.pick([9, 18, 34, 66, 130, 260, 300]); r = s.int(1, 3); v0 = s.below(1 << 32) | 0x100000; at = s.below(len(items) + 1)
            burst = [("ldr", i & 7, "", 14, ("c", (v0 + 0x10101 * i & M32) - (1 << 31)), False) for _ in range(r) for i in range(n)]
            items[at:at] = s.shuffle(burst) if s.bool(0.3) and n < 100 else burst
        return (arch, endian, base, s.bool(), items, s.bool(0.9))

    def build(self, c):
        """-> source, list of (kind, data) per label, label i precedes item i"""
        arch, endian, base, thumb, items, final = c
        L = [arch, '.create "o.bin",0x%X' % base, ".thumb" if thumb else ".arm"]
        ops = []; n = [0]; T = thumb
        def put(txt, op):
            L.append("q%d:" % n[0]); n[0] += 1
            L.extend(txt if isinstance(txt, list) else [txt]); ops.append(op)
        N = len(items)
        aligned = True   # position is instruction aligned by construction: data is followed by .align
        for it in items:
            if it[0] == "ldr":
                _, rd, cn, cv, val, hs = it
                if T: rd &= 7; cn, cv = "", 14
                if val[0] == "c": t = "%d" % val[1]
                elif val[0] == "f": t = repr(val[1])
                else: t = "q%d%s" % (val[1] % (N + 1), "" if not val[2] else "%+d" % val[2])
                put("ldr%s r%d,=%s%s" % (cn, rd, "#" if hs else "", t), ("ldr", T, rd, cv, val))
            elif it[0] == "nop": put("nop", ("bytes", (0x46C0 if T else 0xE1A00000).to_bytes(2 if T else 4, endian)))
            elif it[0] == "data": put([".byte " + ",".join(map(str, it[1])), ".align 4"], ("data", bytes(it[1])))
            elif it[0] == "far": put([".fill %d,0x5A" % it[1], ".align 4"], ("data", b"\x5A" * it[1]))
            elif it[0] == "pool": put(".pool", ("pool",)) if not T else put([".pool"], ("pool",))
            elif it[0] == "mode": T = not T; put([".align 4", ".thumb" if T else ".arm"], ("data", b""))
        if final: put(".pool", ("pool",))
        else: put([], ("data", b""))
        while n[0] <= N: put([], ("data", b""))
        put([], ("end",))
        L += [".align 4"]
        L += [".word " + ",".join("q%d" % i for i in range(n[0]))]
        return "\n".join(L + [".close", ""]), ops, n[0]
    def render(self, c): return self.build(c)[0]

    def value(self, val, addr, N):
        if val[0] == "c": return val[1] & M32
        if val[0] == "f": return struct.unpack("<I", struct.pack("<f", val[1]))[0]
        return (addr[val[1] % (N + 1)] + val[2]) & M32
    def needs(self, T, v):
        return T or (A.imm12(v) is None and A.imm12(~v) is None)

    def model(self, c, ops):
        """layout fixpoint -> (addresses, missing, outofrange) or None when not converging"""
        N = len(c[4]); base = c[2]
        addr = [0] * len(ops)
        for _ in range(40):
            a = base; new = []; pend = []; oor = False
            for op in ops:
                new.append(a)
                if op[0] == "ldr":
                    v = self.value(op[4], addr, N)
                    if self.needs(op[1], v): pend.append((a, op[1], v))
                    a += 2 if op[1] else 4
                elif op[0] == "bytes": a += len(op[1])
                elif op[0] == "data": a = (a + len(op[1]) + 3) & ~3 if op[1] else (a + 3) & ~3
                elif op[0] == "pool":
                    a = (a + 3) & ~3; vals = []
                    for p, t, v in pend:
                        if v not in vals: vals.append(v)
                        d = a + 4 * vals.index(v) - ((p + 4) & ~3 if t else p + 8)
                        if (d < 0 or d > 1020) if t else abs(d) > 4095: oor = True
                    a += 4 * len(vals); pend = []
            if new == addr: return addr, bool(pend), oor
            addr = new
        return None

    def run(self, c, env):
        arch, endian, base, thumb, items, final = c
        src, ops, n = self.build(c)
        N = len(items)
        r = env.run({"a.asm": src})
        m = self.model(c, ops)
        if r.rc:
            if r.rc != 1 or not r.errors(): raise Fail("bad failure rc=%d: %s" % (r.rc, r.text[:300]))
            pools = [l for l in r.errors() if "iteral pool" in l]
            if m is None and all("iteral pool" in l or "validation loop" in l for l in r.errors()): return 0, [], None
            if len(pools) != len(r.errors()): raise Fail("unexpected error: " + r.text[:400])
            if not m[1] and not m[2]: raise Fail("program with reachable pools rejected: " + r.text[:400])
            return 1, [src], None
        if m is not None and m[1]: raise Fail("literal load without a following pool accepted")
        if m is not None and m[2] and base > 0x1000: raise Fail("literal load with an unreachable pool accepted")
        out = r.read("o.bin")
        tab = struct.unpack("%s%dI" % ("<" if endian == "little" else ">", n), out[-4 * n:])
        if tab[0] != base & M32: raise Fail("label table damaged")
        addr = [(a - base & M32) for a in tab]      # offsets
        def word(o): return int.from_bytes(out[o:o + 4], endian)
        def half(o): return int.from_bytes(out[o:o + 2], endian)
        keys = []; pend = []; loads = 0; anypool = False
        for i, op in enumerate(ops):
            o = addr[i]
            nxt = addr[i + 1] if i + 1 < n else len(out)
            if op[0] == "bytes":
                if out[o:o + len(op[1])] != op[1]: raise Fail("code at p%d disturbed" % i)
            elif op[0] == "data":
                if out[o:o + len(op[1])] != op[1]: raise Fail("data at p%d disturbed" % i)
            elif op[0] == "ldr":
                _, T, rd, cv, val = op
                v = self.value(val, tab, N)
                if T:
                    w = half(o)
                    if w >> 8 != 0x48 | rd: raise Fail("p%d: not a literal load: %04X" % (i, w))
                    pend.append((i, ((base + o + 4) & ~3) + 4 * (w & 255) - base, v))
                else:
                    w = word(o)
                    if w >> 28 != cv or (w >> 12 & 15) != rd: raise Fail("p%d: condition or register wrong: %08X" % (i, w))
                    k = w >> 16 & 0xFFF
                    if k in (0x3A0, 0x3E0):
                        x = A.ror(w & 255, (w >> 8 & 15) * 2)
                        if k == 0x3E0: x = ~x & M32
                        if x != v: raise Fail("p%d: loads %08X instead of %08X (%08X)" % (i, x, v, w))
                    elif k in (0x59F, 0x51F): pend.append((i, o + 8 + (w & 0xFFF) * (1 if k == 0x59F else -1), v))
                    else: raise Fail("p%d: not a literal load: %08X" % (i, w))
                loads += 1; keys.append((hash(src), i, v))
            elif op[0] == "pool":
                st = ((base + o + 3) & ~3) - base
                vals = [word(x) for x in range(st, nxt, 4)]
                if (nxt - st) % 4: raise Fail("pool at p%d is not a multiple of 4" % i)
                for j, t, v in pend:
                    anypool = True
                    if not (st <= t < nxt) or (t - st) % 4: raise Fail("p%d loads from offset %X, outside the pool %X-%X" % (j, t, st, nxt))
                    if word(t) != v: raise Fail("p%d loads %08X instead of %08X" % (j, word(t), v))
                if set(vals) != set(v for _, _, v in pend): raise Fail("pool at p%d holds %s, needed %s" % (i, vals, pend))
                if base > 0x1000 and len(vals) != len(set(vals)): raise Fail("pool at p%d holds a value twice: %s" % (i, vals))
                if any(out[o:st]): raise Fail("pool alignment bytes not zero")
                pend = []
        if pend: raise Fail("literal load without a pool accepted")
        return loads, keys if anypool else [], src[:200] if anypool else None

CHECK = C12()
