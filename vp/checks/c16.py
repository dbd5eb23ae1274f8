import re
from ..core import Check, Fail
from .. import sh as S
from .. import arm as A

class C16(Check):
    ID = "C16"
    RULE = "one SuperH instruction with an encoding, or one rejected instruction; distinct = (address, instruction text)"
    QUICK, THOROUGH = 40000, 1200000
    QUICK_S, THOROUGH_S = 80, 1500
    ASSUMPTIONS = ["operand expressions are taken modulo 2^32", "@(n,pc) counts from the address of the instruction itself (armips dialect, pinned by Tests/SuperH/Opcodes)",
                   "8-bit immediates may be written signed or unsigned (-128..255)"]
    N = 20

    def gen(self, s):
        base = s.pick([0, 2, 0x06004000, 0x06004002, 0x80000000, 0xC0000002, 0x2600FFFE])
        if s.bool(0.3):
            n = s.below(4)
            return ("bad", base, n, self.bad(s, base + 2 * n))
        idx = [0]
        def one(s):
            pc = base + 2 * idx[0]
            def target(lo, hi, al, b):
                if s.bool(0.35):
                    i = s.below(self.N); v = base + 2 * i
                    if lo <= v - b <= hi and (v - b) % al == 0 and (al == 2 or v % 4 == 0): return "l%d" % i, v
                d = s.pick([s.int(lo, hi), lo, hi, hi - al + 1, s.int(max(lo, -20), 20), 0])
                d -= d % al
                v = b + d
                if not lo <= d <= hi or not 0 <= v < 1 << 32: return None
                if s.bool(0.2): return ".%+d" % (v - pc), v
                if s.bool(0.2): return "org()%+d" % (v - pc), v
                return A.num(s, v) if s.bool(0.3) else "0x%X" % v, v
            while True:
                row = s.pick(S.T)
                if any(x in row[1] for x in ("W", "L", "B")) and False: continue
                t = S.encode(s, row, pc, target)
                if t: break
            idx[0] += 1
            return t
        return ("ok", base, s.many(one, 1, self.N, 0.97))

    def bad(self, s, pc):
        r = lambda: "r%d" % s.below(16)
        if s.bool(0.2):
            t = None
            while not t: t = S.encode(s, s.pick(S.T), pc, lambda lo, hi, al, b: ("0x%X" % (b - b % al + (hi - hi % al) // 2), 0) if lo <= hi else None)
            t = A.corrupt(s, t[0], ["r3x", "pr", "mach"])
            if t: return t
        k = s.below(10)
        if k == 0:      # displacement range and alignment
            b, sc, f = s.pick([(4, 1, "mov.b r0,@(%s,{r})"), (4, 2, "mov.w r0,@(%s,{r})"), (4, 4, "mov.l {r},@(%s,{q})"), (4, 1, "mov.b @(%s,{r}),r0"), (4, 2, "mov.w @(%s,{r}),r0"), (4, 4, "mov.l @(%s,{r}),{q}"),
                               (8, 1, "mov.b r0,@(%s,gbr)"), (8, 2, "mov.w r0,@(%s,gbr)"), (8, 4, "mov.l r0,@(%s,gbr)"), (8, 1, "mov.b @(%s,gbr),r0"), (8, 2, "mov.w @(%s,gbr),r0"), (8, 4, "mov.l @(%s,gbr),r0")])
            v = s.pick([(1 << b) * sc, (1 << b) * sc + sc * s.below(300), -sc, -sc * s.int(1, 1 << b), 0x10000 * sc])
            if sc > 1 and s.bool(0.3): v = sc * s.below(1 << b) + s.int(1, sc - 1)
            return f.format(r=r(), q=r()) % A.num(s, v)
        if k == 1:      # immediates
            f = s.pick(["mov #%%s,%s" % r(), "add #%%s,%s" % r(), "cmp/eq #%s,r0", "and #%s,r0", "or #%s,r0", "xor #%s,r0", "tst #%s,r0", "and.b #%s,@(r0,gbr)", "trapa #%s", "mov %%s,%s" % r()])
            return f % A.num(s, s.pick([256, -129, 256 + s.below(1000), -129 - s.below(400), 0x7FFFFFFF, -0x7FFFFFFF, 0x100FF]))
        if k in (2, 3): # branches
            n = s.pick(["bf", "bt", "bf/s", "bt/s", "bra", "bsr"]); b = 12 if n[1] in "rs" and n[:2] in ("br", "bs") else 8
            lo, hi = -(1 << b), (1 << b) - 2
            d = s.pick([hi + 2, lo - 2, hi + 2 + 2 * s.below(5000), lo - 2 - 2 * s.below(5000), 0x10000000, 2 * s.int(-20, 20) + 1])
            v = pc + 4 + d
            if v < 0: v = pc + 4 + abs(d)
            if (v - pc - 4) in range(lo, hi + 1, 2): v = pc + 4 + hi + 2
            return "%s 0x%X" % (n, v)
        if k == 4:      # pc relative loads
            n, sc = s.pick([("mov.w", 2), ("mov.l", 4), ("mova", 4)])
            b = pc + 4 if sc == 2 else pc + 4 & ~3
            d = s.pick([256 * sc, -sc, 256 * sc + sc * s.below(1000), -sc * s.int(1, 100), sc * s.below(256) + s.int(1, sc - 1)])
            v = b + d
            if v < 0: v = b + 256 * sc
            dst = "r0" if n == "mova" else r()
            if s.bool(0.3): return "%s @(%s,pc),%s" % (n, A.num(s, v - pc), dst)
            return "%s 0x%X,%s" % (n, v, dst)
        if k == 5:      # a register that does not exist or is not allowed there
            return s.pick(["mov r16,r0", "mov.l r0,@r16", "add r1,gbr", "ldc r1,pr", "lds r1,sr", "sts gbr,r1", "stc pr,r1", "mov.b r1,@(1,r2)", "mov.w @(2,r2),r1", "cmp/eq #1,r1", "and #1,r3", "mova 0x%X,r1" % (pc + 8 & ~3),
                           "mov.b r1,@(r2,r3)", "mov.b @(r1,r2),r3", "mov.l r1,@(0,gbr)", "mov.l @(0,gbr),r1", "and.b #1,@(r1,gbr)", "tst.b #1,@(r0,vbr)", "ldc.l @r1+,pr", "jmp sr", "mov.b r0,@(1,pc)", "mov.b @(4,pc),r0"])
        if k == 6:      # wrong addressing mode
            a, b = r(), r()
            return s.pick(["add @%s,%s", "mov @%s,%s", "mov %s,@%s", "mov.l @%s,@%s", "mov.b @%s+,@%s", "mov.l %s,@%s+", "mov.l @-%s,%s", "and %s,@%s", "mac.w %s,%s", "mac.l @%s,@%s", "swap.b @%s,%s", "cmp/hs %s,@%s", "neg @%s,%s"]) % (a, b)
        if k == 7:
            a = r()
            return s.pick(["shll @%s", "rotl #%s", "tas.b %s", "dt @%s", "movt @%s", "shll2 %s,r1", "cmp/pl @%s", "stc sr,@%s", "ldc @%s,sr", "lds.l %s,pr", "sts.l pr,%s", "sts.l pr,@%s+", "lds.l @-%s,pr", "nop %s", "rts %s", "jmp @%s+", "bra %s", "trapa %s"]) % a
        if k == 8: return s.pick(["foo r1,r2", "mov.q r1,r2", "cmp/lt r1,r2", "cmp r1,r2", "bf/t 0", "bts 0", "bt/ 0", "shll4 r1", "mova", "mov r1", "add r1,r2,r3", "cmp/ r1,r2", "addd r1,r2", "ad r1,r2", "fadd fr0,fr1", "shad r1,r2", "pref @r1", "ldc r1,ssr", "bra/s 0", "mov/eq r1,r2"])
        return ("odd", s.pick(["nop", "add r1,r2", "mov #1,r1", "rts"]))

    def program(self, c):
        if c[0] == "bad":
            _, base, n, t = c
            pre = ""
            if isinstance(t, tuple): t = t[1]; pre = ".byte 1\n"
            return ".saturn\n.create \"o.bin\",0x%X\n.definelabel vz,0\n%s%s%s\nnop\n.close\n" % (base, "nop\n" * n, pre, t)
        _, base, items = c
        L = [".saturn", '.create "o.bin",0x%X' % base, ".definelabel vz,0"]
        for i in range(self.N):
            L.append("l%d:" % i); L.append(items[i][0] if i < len(items) else "nop")
        return "\n".join(L + [".close", ""])
    def render(self, c): return self.program(c)

    def run(self, c, env):
        r = env.run({"a.asm": self.program(c)})
        if c[0] == "bad":
            if r.rc != 1 or not r.errors():
                o = r.read("o.bin")
                raise Fail("instruction without an encoding accepted: at %X: %s rc=%d %s output %s" % (c[1] + 2 * c[2], c[3], r.rc, r.text[:200], o.hex() if o else None))
            return 1, [(c[1] + 2 * c[2], c[3])], str(c[3])
        _, base, items = c
        if r.rc: raise Fail("valid instruction rejected: " + r.text[:400])
        out = r.read("o.bin")
        if len(out) != 2 * self.N: raise Fail("output has %d bytes, expected %d" % (len(out), 2 * self.N))
        for i, t in enumerate(items):
            w = int.from_bytes(out[2 * i:2 * i + 2], "big")
            if w != t[1]: raise Fail("at %X: '%s' gave %04X, expected %04X" % (base + 2 * i, t[0], w, t[1]))
        return len(items), [(base + 2 * i, t[0]) for i, t in enumerate(items)], "%s -> %04X" % items[0]

CHECK = C16()
