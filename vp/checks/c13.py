from ..core import Check, Fail
from .. import mips as M

class C13(Check):
    ID = "C13"
    RULE = "one MIPS instruction with an encoding, or one rejected instruction; distinct = (architecture, instruction text)"
    QUICK, THOROUGH = 44000, 1200000
    QUICK_S, THOROUGH_S = 100, 1800
    ASSUMPTIONS = ["operand expressions are taken modulo 2^32 (by design, see Tests/ARM/Immediates)",
                   "16-bit immediates are checked in [-32768,65535] and beyond +-65535; the spellings in between are not claimed",
                   "VFPU operand sizes and matrix notations that the hardware does not have are not generated"]

    def gen(self, s):
        arch = s.pick(M.ARCHS)
        base = s.pick([0, 0x8000, 0x80010000, 0x08804000, 0x04001000])
        if s.bool(0.25):
            n = s.below(4); return ("bad", arch, base, n, M.bad(s, base + 4 * n, arch))
        N = 20; idx = [0]
        def target(s):
            i = s.below(N); return "l%d" % i, base + 8 * i
        def one(s):
            t = M.gen(s, base + 8 * idx[0], arch, target); idx[0] += 1
            return t
        return ("ok", arch, base, s.many(one, 1, N, 0.97), N)

    def program(self, c):
        if c[0] == "bad":
            _, arch, base, n, t = c
            return "%s\n.create \"o.bin\",0x%X\n.definelabel vz,0\n%s%s\nnop\n.close\n" % (arch, base, "nop\n" * n, t)
        _, arch, base, items, N = c
        L = [arch, '.create "o.bin",0x%X' % base, ".definelabel vz,0"]
        for i in range(N):
            L.append("l%d:" % i)
            L += [items[i][0] if i < len(items) else "nop", "nop"]      # every delay slot holds a nop
        return "\n".join(L + [".close", ""])
    def render(self, c): return self.program(c)

    def run(self, c, env):
        r = env.run({"a.asm": self.program(c)})
        if c[0] == "bad":
            if r.rc != 1 or not r.errors():
                o = r.read("o.bin")
                raise Fail("instruction without an encoding accepted: [%s] at %X: %s rc=%d %s output %s" % (c[1], c[2] + 4 * c[3], c[4], r.rc, r.text[:200], o.hex() if o else None))
            return 1, [(c[1], c[4])], c[4]
        _, arch, base, items, N = c
        if r.rc: raise Fail("valid instruction rejected: " + r.text[:400])
        out = r.read("o.bin")
        if len(out) != 8 * N: raise Fail("output has %d bytes, expected %d" % (len(out), 8 * N))
        e = M.ARCH[arch][3]
        for i, t in enumerate(items):
            w = int.from_bytes(out[8 * i:8 * i + 4], e)
            if w != t[1]: raise Fail("[%s] at %X: '%s' gave %08X, expected %08X" % (arch, base + 8 * i, t[0], w, t[1]))
        return len(items), [(arch, t[0]) for t in items], "%s %s -> %08X" % (arch, items[0][0], items[0][1])

CHECK = C13()
