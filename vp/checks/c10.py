from ..core import Check, Fail
from .. import arm as A

class C10(Check):
    ID = "C10"
    RULE = "one instruction with an encoding, or one rejected instruction; distinct = (architecture, instruction text)"
    QUICK, THOROUGH = 60000, 1500000
    QUICK_S, THOROUGH_S = 100, 1800
    ASSUMPTIONS = ["immediates are taken modulo 2^32, as the repository's own tests require; 'cpsr'/'spsr' without fields means all four fields",
                   "unpredictable register combinations are encoded as written"]

    def gen(self, s):
        arch, endian = s.pick(A.ARCHS)
        base = s.pick([0, 0x8000, 0x02000000, 0x08000000])
        if s.bool(0.25):
            n = s.below(4); pc = base + 4 * n
            return ("bad", arch, base, n, A.bad(s, pc, arch))
        N = 24
        idx = [0]
        items = []
        def target(s, kind):
            if s.bool(0.6):
                i = s.below(N); return "l%d" % i, base + 4 * i
            if kind == "near": return None
            pc = base + 4 * idx[0]
            d = s.pick([s.int(-400, 400) * 4, s.int(-0x7FFFFF, 0x7FFFFF) * 4, 0x1FFFFFC, -0x1FFFFFC, -8, -4, 0])
            v = pc + 8 + d
            if v < 0: v = pc + 8 + abs(d)
            if kind == "half" and s.bool() and d != 0x1FFFFFC: v += 2
            return "0x%X" % v, v
        def one(s):
            t = A.gen(s, base + 4 * idx[0], arch, target)
            idx[0] += 1
            if s.bool(0.1): t = (t[0].upper() if "0x" not in t[0] and '"' not in t[0] else t[0],) + t[1:]
            return t
        items = s.many(one, 1, N, 0.97)
        return ("ok", arch, endian, base, items, N)

    def program(self, c):
        if c[0] == "bad":
            _, arch, base, n, t = c
            return "%s\n.create \"o.bin\",0x%X\n.arm\n.definelabel vz,0\n%s%s\n.close\n" % (arch, base, "nop\n" * n, t)
        _, arch, endian, base, items, N = c
        L = [arch, '.create "o.bin",0x%X' % base, ".arm", ".definelabel vz,0"]
        for i in range(N):
            L.append("l%d:" % i)
            L.append(items[i][0] if i < len(items) else "nop")
        return "\n".join(L + [".close", ""])
    def render(self, c): return self.program(c)

    def run(self, c, env):
        r = env.run({"a.asm": self.program(c)})
        if c[0] == "bad":
            if r.rc != 1 or not r.errors():
                o = r.read("o.bin")
                raise Fail("instruction without an encoding accepted: [%s] %s rc=%d %s output %s" % (c[1], c[4], r.rc, r.text[:200], o.hex() if o else None))
            return 1, [(c[1], c[4])], c[4]
        _, arch, endian, base, items, N = c
        if r.rc: raise Fail("valid instruction rejected: " + r.text[:400])
        out = r.read("o.bin")
        if len(out) != 4 * N: raise Fail("output has %d bytes, expected %d" % (len(out), 4 * N))
        for i, it in enumerate(items):
            w = int.from_bytes(out[4 * i:4 * i + 4], endian)
            if w != it[1]: raise Fail("[%s] at %X: '%s' gave %08X, expected %08X" % (arch, base + 4 * i, it[0], w, it[1]))
        return len(items), [(arch, it[0]) for it in items], "%s %s -> %08X" % (arch, items[0][0], items[0][1])

CHECK = C10()
