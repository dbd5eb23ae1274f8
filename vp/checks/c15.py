import re
from ..core import Check, Fail
from .. import mips as M

class Few:
    """a choice source whose register numbers come from a small set, so that hazards are frequent"""
    def __init__(self, s, pool): self.s, self.pool = s, pool
    def __getattr__(self, n): return getattr(self.s, n)
    def below(self, n):
        if n == 32 and self.s.bool(0.9): return self.s.pick(self.pool)
        return self.s.below(n)

def reads(w):
    """general registers read by a MIPS I instruction"""
    op, rs, rt, fn = w >> 26, w >> 21 & 31, w >> 16 & 31, w & 63
    if op == 0:
        if fn in (0, 2, 3): return {rt}
        if fn in (8, 9, 0x11, 0x13): return {rs}
        if fn in (0xC, 0xD, 0x10, 0x12): return set()
        return {rs, rt}
    if op in (1, 6, 7): return {rs}
    if op in (4, 5): return {rs, rt}
    if op in (2, 3, 15): return set()
    if 8 <= op <= 14: return {rs}
    if op in (0x10, 0x12): return {rt} if not w >> 25 & 1 and rs in (4, 6) else set()
    if op in (0x22, 0x26): return {rs, rt}
    if 0x20 <= op <= 0x26: return {rs}
    if op in (0x28, 0x29, 0x2A, 0x2B, 0x2E): return {rs, rt}
    return {rs}
def loaded(w):
    op = w >> 26
    return w >> 16 & 31 if 0x20 <= op <= 0x26 else 0
def hazard(a, b):
    """instruction b uses what the load a directly before it has not delivered yet"""
    r = loaded(a)
    if not r: return False
    if b >> 26 in (0x22, 0x26):         # lwl and lwr merge into a pending load
        return b >> 21 & 31 == r
    return r in reads(b)

class C15(Check):
    ID = "C15"
    RULE = "a program with at least one load directly before a user of its register, one filled delay slot, or one branch in a delay slot; distinct = the program"
    QUICK, THOROUGH = 36000, 900000
    QUICK_S, THOROUGH_S = 80, 1500
    ASSUMPTIONS = ["only loads from memory are subject to the load delay check (moves from coprocessors are not checked by armips)",
                   "sequential order counts, there is no flow analysis (documented)", ".resetdelay is judged for the instruction after it only",
                   "syscall and break in delay slots are not claimed"]

    def gen(self, s):
        arch = s.wpick([(6, ".psx"), (1, ".n64"), (1, ".ps2"), (1, ".psp"), (1, ".rsp")])
        kind = s.wpick([(5, "good"), (3, "bad")])
        pool = [s.int(0, 31) for _ in range(s.int(1, 3))] + ([0] if s.bool(0.2) else [])
        f = Few(s, pool)
        R = M.BYARCH[arch]
        isbr = lambda x: "IPCR" in x[1][4] or "IPCA" in x[1][4] or x[0] in ("jr", "jalr")
        B = [x for x in R if isbr(x)]
        O = [x for x in R if not isbr(x) and x[0] not in ("syscall", "break", "eret", "cop2", "vwb.q")]
        L = [x for x in O if re.fullmatch(r"l[bhw][ulr]*", x[0])]
        state = {"slot": False}
        def ins(x):
            while True:
                t = M.encode(f, x[0], x[1], x[2], 0x8000, lambda s: ("l0", 0x8000))
                if t and not re.search(r"\bk1\b", t[0]): break
            return t[0]
        def one(s):
            k = s.wpick([(6, "load"), (6, "any"), (3, "br"), (1, "macro"), (1, "sep"), (1, "reset")])
            if k == "sep":
                state["slot"] = False
                n = s.int(1, 3)
                return s.pick([("data", ".word " + ",".join("0x8C%06X" % s.below(1 << 24) for _ in range(n)), n),
                               ("data", ".fill %d" % (4 * n), n), ("data", ".org org()+%d" % (4 * n), n),
                               ("data", ".incbin \"w.bin\",0,%d" % (4 * n), n), ("data", ".dh 1,2", 1),
                               ("data", ".ascii \"abcd\"", 1), ("data", ".skip 4", 1)])
            if k == "reset":
                if kind == "bad" or arch != ".psx" or s.bool(0.5): return ("note", s.pick(["; comment", "x equ_", ".if 1 :: .endif", "", "/* */"]), 0)
                state["slot"] = False
                return ("reset", ".resetdelay", 0)
            if k == "macro" and arch == ".rsp": k = "any"
            if k == "br" and kind == "good" and state["slot"]: k = "any"
            if k == "macro":
                r = lambda: s.pick(M.GPR[s.pick(pool)])
                was = state["slot"]; state["slot"] = False
                if was or s.bool(0.7):
                    t = s.pick(["li %s,%s" % (r(), s.pick(["0x12345678", "4", "0x10000", "-5"])), "lw %s,0x%X" % (r(), s.pick([0x80123456 & ~3, 0x20, 0x8000])), "lb %s,0x12345" % r(), "sw %s,0x12348000" % r(), "abs %s,%s" % (r(), r()),
                                "seq %s,%s,%s" % (r(), r(), r()), "sle %s,%s,5" % (r(), r()), "rol %s,%s,%s" % (r(), r(), r())])
                else: t = "%s %s,%s,@" % (s.pick(["blt", "bge", "bgtu", "bleu"]), r(), s.pick([r(), "0x12345", "5"])); state["slot"] = True
                return ("macro", t, was)
            x = s.pick(B if k == "br" else L if k == "load" else O)
            t = ins(x)
            if k == "br" and x[1][1] and ("IPCR" in x[1][4] or "IPCA" in x[1][4]):
                h, sep, _ = t.rpartition("," if "," in t else " ")
                t = h + sep + "@"
            bad = state["slot"] and k == "br"
            state["slot"] = k == "br"
            return ("br" if k == "br" else "ins", t, bad)
        items = s.many(one, 2, 24, 0.93)
        items = [(k, t.replace("@", "l%d" % s.below(len(items))), b) for k, t, b in items]
        fixat = s.below(len(items) + 1) if kind == "good" and arch == ".psx" else 0
        labels = [s.bool(0.4) for _ in items]
        return (arch, kind, items, labels, fixat)

    def program(self, c, fix=False, nops=()):
        """-> source, line of each item"""
        arch, kind, items, labels, fixat = c
        L = [arch, '.create "o.bin",0x8000', '.definelabel vz,0']; at = []
        used = set(re.findall(r"\bl(\d+)\b", "\n".join(t for _, t, _ in items)))
        eq = 0
        for i, (k, t, b) in enumerate(items):
            if fix and i == fixat: L.append(".fixloaddelay")
            if k == "macro": L.append("m%d:" % i)
            if labels[i] or str(i) in used: L.append("l%d:" % i)
            if i in nops: L.append("nop")
            if t == "x equ_": t = "x%d equ 5" % eq; eq += 1
            L.append(t); at.append(len(L))
            if k == "macro": L.append("n%d:" % i)
        if fix and fixat == len(items): L.append(".fixloaddelay")
        for i, (k, _, _) in enumerate(items):
            if k == "macro": L.append(".word n%d-m%d" % (i, i))
        return "\n".join(L + [".word 0", ".close", ""]), at
    def render(self, c): return self.program(c, c[1] == "good" and c[0] == ".psx")[0]

    def lines(self, msgs, pat):
        r = []
        for m in msgs:
            if re.search(pat, m):
                x = re.match(r"a\.asm\((\d+)\)", m)
                r.append(int(x.group(1)) if x else None)
        return sorted(r, key=lambda v: -1 if v is None else v)

    def run(self, c, env):
        arch, kind, items, labels, fixat = c
        files = {"w.bin": bytes(range(0x80, 0x90))}
        src, at = self.program(c)
        r = env.run(dict(files, **{"a.asm": src}))
        want = [at[i] for i, (k, t, b) in enumerate(items) if k == "br" and b]
        got = self.lines(r.errors(), "delay slot")
        if got != want: raise Fail("delay slot errors in lines %s, expected %s: %s" % (got, want, r.text[:300]))
        if want:
            if r.rc != 1: raise Fail("branch in a delay slot, but exit status %d" % r.rc)
            return 1, [src], items[0][1]
        if r.rc: raise Fail("valid program rejected: " + r.text[:300])
        out = r.read("o.bin"); e = M.ARCH[arch][3]
        W = [int.from_bytes(out[i:i + 4], e) for i in range(0, len(out) - 3, 4)]
        nm = sum(k == "macro" for k, _, _ in items)
        sizes = W[len(W) - nm - 1:] if nm else []
        prev = None; pos = 0; mi = 0; exp = []; slotwarn = []; haz = []; care = True; inner = False
        for i, (k, t, b) in enumerate(items):
            if k == "note": continue
            if k == "reset":
                prev = None; care = "next"; continue
            if k == "data": pos += b; prev = None; n = 0; continue
            n = 1
            if k == "macro":
                n = sizes[mi] // 4; mi += 1
                if b and n > 1 and care is True: slotwarn.append(at[i])
            for j in range(n):
                w = W[pos]; pos += 1
                if arch == ".psx" and prev is not None and hazard(prev, w):
                    if care is True: exp.append(at[i]); haz.append(i)
                    inner = inner or j > 0
                prev = w
                if care == "next": care = False; nocare_from = at[i]
        if pos + nm + 1 != len(W): raise Fail("output has %d words, expected %d" % (len(W), pos + nm + 1))
        lim = 1 << 30 if care is True else nocare_from if care is False else 1 << 30
        got = [l for l in self.lines(r.warnings(), "load delay") if l is None or l <= lim]
        if got != exp: raise Fail("load delay warnings in lines %s, expected %s: %s" % (got, exp, r.text[:300]))
        got = [l for l in self.lines(r.warnings(), "delay slot") if l is None or l <= lim]
        if got != slotwarn: raise Fail("multi-opcode macro warnings in lines %s, expected %s: %s" % (got, slotwarn, r.text[:300]))
        nt = 1 if exp or slotwarn or any(k == "br" for k, _, _ in items) else 0
        if arch == ".psx" and care is True and not inner:
            a, _ = self.program(c, True)
            b, _ = self.program(c, False, set(haz))
            ra = env.run(dict(files, **{"a.asm": a})); oa = ra.read("o.bin")
            rb = env.run(dict(files, **{"a.asm": b})); ob = rb.read("o.bin")
            if ra.rc != rb.rc: raise Fail("with .fixloaddelay exit status %d, with nops written out %d: %s" % (ra.rc, rb.rc, ra.text[:200]))
            if rb.rc == 0 and oa != ob: raise Fail(".fixloaddelay output differs from nops at the hazards (lines %s):\n%s\n%s" % (exp, oa.hex(), ob.hex()))
            if self.lines(rb.warnings(), "load delay"): raise Fail("hazards left with nops written out: " + rb.text[:200])
        return nt, [src] if nt else [], ".fixloaddelay nops at %s" % exp if exp else items[0][1]

CHECK = C15()
