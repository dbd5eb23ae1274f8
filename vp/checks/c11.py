from ..core import Check, Fail
from .. import arm as A, thumb as T

class C11(Check):
    ID = "C11"
    RULE = "one THUMB instruction with an encoding, or one rejected instruction; distinct = (architecture, instruction text)"
    QUICK, THOROUGH = 60000, 1500000
    QUICK_S, THOROUGH_S = 100, 1800
    ASSUMPTIONS = ["mov rd,rs of low registers is ADD rd,rs,#0; the 3-operand add/sub with immediate uses the 3-bit form only"]

    def gen(self, s):
        arch, endian = s.pick(A.ARCHS)
        base = s.pick([0, 0x8000, 0x02000000, 0x08000000])
        if s.bool(0.25):
            n = s.below(4); return ("bad", arch, base, n, T.bad(s, base + 2 * n, arch))
        # a fixed grid: slot i starts at base+8*i and holds the instruction at offset 0, 2 or 4 with nops around it
        N = 24; idx = [0]; cur = [0]
        def target(s, kind):
            pc = cur[0]
            a4 = (pc + 4) & ~3
            if kind == "near":
                c = [i for i in range(N) if 0 <= base + 8 * i - a4 <= 1020]
                if not c: return None
                i = s.pick(c); return "l%d" % i, base + 8 * i
            if kind == "blx":
                if s.bool(0.6): i = s.below(N); return "l%d" % i, base + 8 * i
                v = a4 + s.pick([4 * s.int(-200, 200), 4 * s.int(-0xFFFFF, 0xFFFFE), 0x3FFFF8])
                if v < 0: v = a4 + 8
                return "0x%X" % v, v
            lo, hi = kind
            if s.bool(0.5):
                c = [i for i in range(N) if lo <= base + 8 * i - pc - 4 <= hi]
                if c: i = s.pick(c); return "l%d" % i, base + 8 * i
            v = pc + 4 + s.pick([lo, hi, 2 * s.int(lo // 2, hi // 2), 0, -4])
            if v < 0: v = pc + 4 + hi
            return "0x%X" % v, v
        def one(s):
            o = 2 * s.below(3)
            cur[0] = base + 8 * idx[0] + o
            t = T.gen(s, cur[0], arch, target)
            idx[0] += 1
            if s.bool(0.1) and "0x" not in t[0]: t = (t[0].upper(),) + t[1:]
            return (o, t)
        return ("ok", arch, endian, base, s.many(one, 1, N, 0.97), N)

    def program(self, c):
        if c[0] == "bad":
            _, arch, base, n, t = c
            return "%s\n.create \"o.bin\",0x%X\n.thumb\n.definelabel vz,0\n%s%s\n.close\n" % (arch, base, "nop\n" * n, t)
        _, arch, endian, base, items, N = c
        L = [arch, '.create "o.bin",0x%X' % base, ".thumb", ".definelabel vz,0"]
        for i in range(N):
            L.append("l%d:" % i)
            if i >= len(items): L += ["nop"] * 4; continue
            o, t = items[i]
            L += ["nop"] * (o // 2) + [t[0]] + ["nop"] * (4 - o // 2 - len(t[1]))
        return "\n".join(L + [".close", ""])
    def render(self, c): return self.program(c)

    def run(self, c, env):
        r = env.run({"a.asm": self.program(c)})
        if c[0] == "bad":
            if r.rc != 1 or not r.errors():
                o = r.read("o.bin")
                raise Fail("instruction without an encoding accepted: [%s] at %X: %s rc=%d %s output %s" % (c[1], c[2] + 2 * c[3], c[4], r.rc, r.text[:200], o.hex() if o else None))
            return 1, [(c[1], c[4])], c[4]
        _, arch, endian, base, items, N = c
        if r.rc: raise Fail("valid instruction rejected: " + r.text[:400])
        out = r.read("o.bin")
        if len(out) != 8 * N: raise Fail("output has %d bytes, expected %d" % (len(out), 8 * N))
        for i, (o, t) in enumerate(items):
            p = 8 * i + o
            w = [int.from_bytes(out[p + 2 * j:p + 2 * j + 2], endian) for j in range(len(t[1]))]
            if w != t[1]: raise Fail("[%s] at %X: '%s' gave %s, expected %s" % (arch, base + p, t[0], ["%04X" % x for x in w], ["%04X" % x for x in t[1]]))
        return len(items), [(arch, t[0]) for o, t in items], "%s %s -> %s" % (arch, items[0][1][0], ["%04X" % x for x in items[0][1][1]])

CHECK = C11()
