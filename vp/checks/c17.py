import re, struct
from ..core import Check, Fail
from .c13 import CHECK as MIPS
from .c16 import CHECK as SH
# the listing of these does not show all operands (the formatter says so: coprocessor registers, VFPU, RSP vectors)
NOT_LISTED = re.compile(r"(v|[ls].?v|[ls][dltq]?v|bv|d?[cm][ft]c[012]|[cm][ft]v|[ls]wc2|[ls][a-z]v$)", re.I)

SZ = {".byte": 1, ".d8": 1, ".d16": 2, ".d32": 4, ".d64": 8}
ARCHES = [".psx", ".psp", ".n64", ".gba", ".nds", ".saturn"]

class M:                                  # lays out a program and collects what the files have to say about it
    def __init__(self, arch):
        self.arch = arch
        self.src = {"a.asm": []}; self.cur = "a.asm"; self.stack = []
        self.addr = None; self.phys = None; self.base = 0; self.out = None
        self.temp = []; self.sym = []; self.funcs = []; self.mod = 0; self.on = True
        self.areas = []; self.pools = []; self.labels = {}; self.thumb = arch == ".gba"; self.lits = []; self.n = 0; self.inc = 0
        self.outs = {}; self.where = None; self.macros = 0; self.unknown = False; self.depth = 0; self.nested = False; self.fix = []
    def line(self, t, mac=None):
        if mac is None: self.src[self.cur].append(t); self.where = (self.cur, len(self.src[self.cur]))
    def t(self, addr, text, where=None): self.temp.append((addr & 0xFFFFFFFF, text, where or self.where))
    def label(self, name, orig, func=None):
        self.labels[orig] = self.addr
        if self.on: self.sym.append((self.addr, orig, self.mod, func))
    def data(self, n, kind): 
        if self.on: self.sym.append((self.addr, ".%s:%04X" % (kind, n), None, None))
    def put(self, b):
        if not b: return
        o = self.outs[self.out]
        if len(o) < self.phys: o.extend(bytes(self.phys - len(o)))
        o[self.phys:self.phys + len(b)] = b
        self.addr += len(b); self.phys += len(b)

class C17(Check):
    ID = "C17"
    RULE = "a program with at least three listed statements; distinct = program text and options"
    QUICK, THOROUGH = 24000, 1200000
    QUICK_S, THOROUGH_S = 90, 1500
    ASSUMPTIONS = ["the text of ARM instructions in the temp file is their mnemonic", "a label at the start of a function, other than its own, may or may not carry its size", "-stat is checked for areas that are disjoint or nested"]

    def gen(self, s):
        if s.bool(0.2):
            c = MIPS.gen(s)
            if c[0] == "ok": return ("mips", c[:3] + ([("nop",) if NOT_LISTED.match(x[0].split()[0]) else x for x in c[3]],) + c[4:])
        if s.bool(0.1):
            c = SH.gen(s)
            if c[0] == "ok": return ("sh", c)
        if s.bool(0.06): return ("stat", self.stat_case(s))
        arch = s.pick(ARCHES)
        nf = s.pick([1, 1, 2, 3])
        files = []
        for i in range(nf):
            files.append((s.pick([0, 0x1000, 0x8000000, 0x80010000, 0x7FFFFF00]), s.many(lambda s: self.stmt(s, 3, arch), 1, 14, 0.9)))
        return (arch, files, s.pick(["-sym", "-sym2"]), s.bool(), s.below(1 << 30))

    # areas and regions, nested, and what .autoregion puts into the regions: only the statistics are of interest
    def stat_case(self, s):
        def area(s, d, reg):
            body = s.many(lambda s: s.int(1, 12) if d == 0 or s.bool(0.6) else area(s, d - 1, False), 0, 4, 0.8)
            return (reg, s.pick([0, 0, 1, 8, 40]), s.bool(0.3), body)
        tops = s.many(lambda s: (s.pick([0, 0, 4, 64]), area(s, s.below(3), s.bool(0.4))), 1, 5, 0.9)
        autos = s.many(lambda s: (s.int(1, 24), s.bool(0.3)), 0, 4, 0.7)
        return (s.pick([0, 0x1000, 0x80010000]), tops, autos)
    def stat_build(self, c):
        base, tops, autos = c
        L = [".psx", '.create "o.bin",0x%X' % base]; A = []; pos = base
        def size(a):
            n = e = 0
            for x in a[3]:
                if isinstance(x, int): n += x
                else:
                    k, sp = size(x); e = max(e, n + sp); n += sp if x[2] else k
            return n, max(n, e) + a[1]
        def emit(a):
            n, sp = size(a)
            L.append("%s %d%s" % (".region" if a[0] else ".area", sp, ",0" if a[2] else ""))
            for x in a[3]:
                if isinstance(x, int): L.append(".byte " + ",".join(["1"] * x))
                else: emit(x)
            L.append(".endregion" if a[0] else ".endarea")
        for gap, a in tops:
            if gap: L.append(".skip %d" % gap)
            pos += gap; n, sp = size(a); emit(a)
            if sp: A.append([1, pos, sp, n, a[0]])
            pos += sp if a[2] or a[0] else n
            if not a[2] and not a[0]: L.append(".skip %d" % (sp - n)); pos += sp - n
        ok = True
        for n, inner in autos:
            r = next((a for a in A if a[4] and a[3] + n <= a[2]), None)
            if r is None: ok = False; continue
            L += [".autoregion", ".byte " + ",".join(["2"] * n)] if not inner else [".autoregion", ".area %d" % n, ".byte " + ",".join(["2"] * n), ".endarea"]
            L.append(".endautoregion"); r[3] += n
        return "\n".join(L + [".close", ""]), A
    def run_stat(self, c, env):
        src, A = self.stat_build(c)
        r = env.run({"a.asm": src}, ["a.asm", "-stat"])
        if r.rc: raise Fail("rejected: " + r.text[:400])
        class M: pass
        m = M(); m.nested = False; m.areas = [tuple(a) for a in A]; m.pools = []
        self.check_stat(m, r.text)
        return len(A), [src], src[:300]

    def stmt(self, s, d, arch):
        k = s.below(26)
        if k == 0 and arch not in (".gba", ".nds") and s.bool(0.05): return ("data", s.pick(list(SZ) + [".double", ".ascii"]), [(i * 37 + i // 7) & 0x7F for i in range(s.pick([100, 255, 256, 257, 690, 700, 817, 900, 1500]))])
        if k < 6: return ("data", s.pick(list(SZ) + [".float", ".double", ".ascii", ".asciiz", ".sjis", ".sjisn"]), [s.pick([0, 1, -1, 255, 0x1234, 0x12345678, 0x123456789ABCDEF0, "lab"]) for _ in range(s.int(1, 5))])
        if k < 9: return ("lab", s.below(3), s.below(3))
        if k < 11: return ("ins", s.int(1, 3))
        if k == 11: return ("def", s.pick([0, 0x10, 0x8000000, 0x80001234, 0x7FFFFFFF, 0xFFFFFFFF, 0x123456789, -1, -2]), s.below(3))
        if k == 12: return ("sym", s.bool())
        if k == 13: return ("skip", s.int(0, 40))
        if k == 14: return ("org", s.bool(), s.int(0, 0x40))
        if k == 15: return ("fill", s.int(0, 20), s.pick([None, 0, 5, 0xFF]))
        if k == 16: return ("align", s.pick([1, 2, 4, 8, 16, 32]), s.bool())
        if k == 17: return ("incbin", s.int(0, 20), s.pick([0xFFFF, 0x10000, 0x10005, 0x1FFFF]) if arch not in (".gba", ".nds") and s.bool(0.01) else s.int(0, 20))
        if k == 18 and arch in (".gba", ".nds"): return s.pick([("arm", s.bool()), ("lit", s.pick([0x12345678, 0x12345679, 0x7FF0FFF1])), ("pool",)])
        sub = lambda: s.many(lambda s: self.stmt(s, d - 1, arch), 0, 5, 0.8) if d > 0 else []
        if k == 18: return ("ins", 1)
        if k < 21: return ("func", s.below(3), sub()) + tuple(sub() for _ in range(s.wpick([(3, 0), (2, 1), (1, 2)])))
        if k == 21: return ("area", s.pick([0, 1, 8, 40]), s.pick([None, 0, 7, 0xFE]), sub(), s.bool(0.3), s.below(3))
        if k == 22: return ("if", s.below(5), sub(), sub())
        if k == 23: return ("mac", sub(), s.int(1, 3))
        if k == 24: return ("inc", sub())
        return ("ins", 2)

    # -- rendering and expectation
    def name(self, m, case):
        m.n += 1; n = "Label_%d" % m.n
        return n if case == 0 else n.lower() if case == 1 else n.upper()
    def do(self, m, st, st_func, mac=None):
        k = st[0]
        if k == "data":
            dr, vals = st[1], st[2]
            if dr in (".float", ".double"):
                vs = [1.5 if v == "lab" else (v & 0xFFFF) * 0.25 for v in vals]
                m.line("%s %s" % (dr, ",".join(repr(v) for v in vs)), mac)
                z = 4 if dr == ".float" else 8
                raw = [struct.unpack(">I" if z == 4 else ">Q", struct.pack(">f" if z == 4 else ">d", v))[0] for v in vs]
                txt, kind = (".word " if z == 4 else ".doubleword ") + "".join("0x%0*X," % (z * 2, r) for r in raw), "dbl"
            elif dr in (".ascii", ".asciiz", ".sjis", ".sjisn"):
                t = "".join(chr(97 + (v if isinstance(v, int) else 3) % 26) for v in vals)
                m.line('%s "%s"' % (dr, t), mac)
                raw = list(t.encode()) + ([0] if dr in (".asciiz", ".sjis") else []); z = 1
                txt, kind = ".byte " + "".join("0x%02X," % r for r in raw), "asc" if "asc" in dr else "byt"
            else:
                z = SZ[dr]; L = sorted(m.labels)
                vs = []; raw = []
                for v in vals:
                    if v == "lab":
                        if L and not st_func and mac is None and not L[0].startswith("@"): vs.append(L[0]); raw.append(m.labels[L[0]] % (1 << 8 * z))
                        else: vs.append("7"); raw.append(7)
                    else: vs.append("%d" % (v % (1 << 8 * z - 1))); raw.append(v % (1 << 8 * z - 1))
                m.line("%s %s" % (dr, ",".join(vs)), mac)
                txt = {1: ".byte ", 2: ".halfword ", 4: ".word ", 8: ".doubleword "}[z] + "".join("0x%0*X," % (z * 2, r) for r in raw)
                kind = {1: "byt", 2: "wrd", 4: "dbl", 8: "dbl"}[z]
            m.t(m.addr, txt); m.data(len(raw) * z, kind)
            m.put(b"".join(r.to_bytes(z, "big" if m.arch in (".n64", ".saturn") else "little") for r in raw))
        elif k == "lab":
            n = self.name(m, st[2])
            n = ["", "@", "@@"][st[1]] + n
            if st[1] and mac is not None: n = n.lstrip("@"); n = "@@" + n
            if mac is not None:
                if mac[1] == 0: m.line("%s:" % n, None)
                return n
            m.line("%s:" % n)
            m.t(m.addr, n.lower() + ":"); m.label(n, n)
        elif k == "ins":
            self.do(m, ("align", 4, False), st_func, mac)
            z = 4 if m.arch not in (".gba", ".nds", ".saturn") or m.arch in (".gba", ".nds") and not m.thumb else 2
            for _ in range(st[1]):
                m.line(" nop", mac); m.t(m.addr, "nop")
                m.put({".saturn": b"\0\x09"}.get(m.arch, bytes(4)) if m.arch not in (".gba", ".nds") else b"\xc0\x46" if m.thumb else b"\0\0\xa0\xe1")
        elif k == "def":
            if mac is not None: return
            n = self.name(m, st[2])
            m.line(".definelabel %s,%s" % (n, "0x%X" % st[1] if st[1] >= 0 else st[1]))
            m.t(st[1], n.lower() + ":")
            if m.on and st[1] != -1: m.sym.append((st[1], n, m.mod, None))
        elif k == "sym":
            m.line(".sym %s" % ("on" if st[1] else "off"), mac); m.on = st[1]
        elif k == "skip":
            m.line(".skip %d" % st[1], mac); m.t(m.addr, ".skip 0x%08X" % st[1]); m.addr += st[1]; m.phys += st[1]
        elif k == "org":
            if st_func: return
            a = m.phys + st[2]
            if st[1]: m.line(".orga 0x%X" % a, mac); m.t(m.addr, ".orga 0x%08X" % a)
            else: m.line(".org 0x%X" % (a + m.base), mac); m.t(m.addr, ".org 0x%08X" % (a + m.base))
            m.addr, m.phys = a + m.base, a
        elif k == "fill":
            v = st[2]
            m.line(".fill %d%s" % (st[1], "" if v is None else ",%d" % v), mac); m.t(m.addr, ".fill 0x%08X,0x%02X" % (st[1], v or 0))
            m.data(st[1], "byt"); m.put(bytes([v or 0]) * st[1])
        elif k == "align":
            m.line("%s %d" % (".aligna" if st[2] else ".align", st[1]), mac)
            m.t(m.addr, "%s 0x%08X" % (".aligna" if st[2] else ".align", st[1]))
            m.put(bytes(-(m.phys if st[2] else m.addr) % st[1]))
        elif k == "incbin":
            m.line('.incbin "d.bin",%d,%d' % (st[1], st[2] + 1), mac); m.t(m.addr, '.incbin "%s"' % "d.bin"); m.data(st[2] + 1, "byt")
            m.put((bytes(range(100)) + bytes(0x20000))[st[1]:st[1] + st[2] + 1])
        elif k == "arm":
            if mac is not None: return
            m.line(".arm" if st[1] else ".thumb"); m.thumb = not st[1]
            if m.on: m.sym.append((m.addr, ".arm" if st[1] else ".thumb", None, "dedupe%d" % m.mod))
        elif k == "lit":
            if mac is not None or st_func or m.thumb or len(m.lits) > 3: return
            if m.addr % 4: self.do(m, ("align", 4, False), st_func)
            if m.addr % 4 or m.phys % 4: return
            m.line(" ldr r0,=0x%X" % st[1]); m.t(m.addr, "ldr"); m.fix.append((m.out, m.phys)); m.lits.append(st[1]); m.put(b"\0\0\0\0")
        elif k == "pool":
            if mac is not None or st_func: return
            m.line(".pool")
            al = m.addr % 4
            m.t(m.addr, ".align 0x00000004"); m.put(bytes(-m.addr % 4))
            vs = list(dict.fromkeys(m.lits)); m.lits = []
            p = m.addr
            if vs:
                if m.on: m.sym.append((p, ".pool", None, "dedupe%d" % m.mod))
                m.data(len(vs) * 4, "dbl"); m.pools.append((p, len(vs) * 4))
            for v in vs: m.t(m.addr, ".word 0x%08X" % v); m.put(v.to_bytes(4, "little"))
        elif k == "func":
            if mac is not None or st_func: return [self.do(m, x, st_func, mac) for b in st[2:] for x in b] and None
            # a function without .endfunc ends where the next one starts
            for i, body in enumerate(st[2:]):
                n = self.name(m, st[1])
                m.line("%s %s" % (".function" if i % 2 else ".func", n)); m.t(m.addr, n.lower() + ":")
                f = [m.addr, 0, m.mod]; m.funcs.append(f)
                m.label(n, n, f)
                for x in body: self.do(m, x, True)
                f[1] = m.addr - f[0]
            m.line(".endfunc" if len(st) % 2 else ".endfunction")
        elif k == "area":
            if mac is not None: return
            i = len(m.src[m.cur]); m.line("?")
            start = m.addr; j = len(m.temp); m.t(start, "?"); w = m.where
            m.depth += 1; m.nested |= m.depth > 1
            for x in st[3]:
                if x[0] not in ("org", "area", "skip"): self.do(m, x, True if st_func else "area")
            use = m.addr - start; size = use + st[1]
            reg = st[4]
            m.src[m.cur][i] = "%s 0x%X%s" % (".region" if reg else ".area", size, "" if st[2] is None else ",0x%X" % st[2])
            m.temp[j] = (start & 0xFFFFFFFF, "%s 0x%08X%s" % (".region" if reg else ".area", size, ",0x%02x" % st[2] if reg and st[2] is not None else ""), w)
            m.line(".endregion" if reg else ".endarea")
            if st[2] is not None and not reg:
                m.t(m.addr, ".fill 0x%08X,0x%02X" % (size - use, st[2]), "any"); m.t(start + size, ".endarea", "any")
            else: m.t(m.addr, ".end" + ("region" if reg else "area"), "any")
            if st[2] is not None: m.data(size - use, "byt"); m.put(bytes([st[2]]) * (size - use))
            elif reg: m.addr += size - use; m.phys += size - use
            m.depth -= 1
            m.areas.append((m.mod, start, size, use, reg))
        elif k == "if":
            if mac is not None: return
            L = [l for l in sorted(m.labels) if not l.startswith("@")]
            c = [("1", True), ("0", False), ("defined(nope_)", False), (L[0] + " >= 0" if L else "1", True), (L[0] + " < 0" if L else "0", False)][st[1]]
            def hide(b, on):
                if on:
                    for x in b: self.do(m, x, st_func)
                else:
                    for x in b:
                        if x[0] == "data" and ".a" in x[1]: m.line('.ascii "zz"')
                        elif x[0] == "ins": m.line(" nop")
                        elif x[0] == "fill": m.line(".fill 77")
                        elif x[0] == "lab" and x[1] == 0: m.line("Hid%d:" % len(m.src[m.cur]))
                        elif x[0] == "func" and not st_func: m.line(".func Hf%d" % len(m.src[m.cur])); m.line(" nop"); m.line(".endfunc")
                        else: m.line(".byte 5")
            ou = m.unknown; m.unknown = ou or st[1] in (2, 3, 4)
            m.line(".if " + c[0]); hide(st[2], c[1]); m.line(".else"); hide(st[3], not c[1]); m.line(".endif"); m.unknown = ou
        elif k == "mac":
            if mac is not None or m.unknown: return
            nm = "mac%d" % m.macros; m.macros += 1
            body = [x for x in st[1] if x[0] in ("data", "ins", "fill", "skip", "align", "incbin", "lab")]
            body = [("data", x[1], [v if v != "lab" else 7 for v in x[2]]) if x[0] == "data" else x for x in body]
            m.line(".macro %s" % nm)
            names = []
            for x in body:
                if x[0] == "lab": n = "@@L%d" % len(names); names.append(n); m.line("%s:" % n)
                else: self.render_only(m, x)
            m.line(".endmacro")
            for c in range(st[2]):
                m.line(" %s" % nm)
                i = 0
                for x in body:
                    if x[0] == "lab":
                        n = "@@%s_%s_%08X" % (nm, names[i].lstrip("@").lower(), c); i += 1
                        m.t(m.addr, n.lower() + ":"); 
                        if m.on: m.sym.append((m.addr, ("macl", n), m.mod, None))
                    else: self.do(m, x, st_func, mac=(nm, 1))
        elif k == "inc":
            if mac is not None: return
            n = "i%d.asm" % m.inc; m.inc += 1
            m.line('.include "%s"' % n)
            old = m.cur; m.cur = n; m.src[n] = []
            for x in st[1]: self.do(m, x, st_func)
            m.cur = old
        return None
    def render_only(self, m, x):
        c = M(m.arch); c.addr = c.phys = 0; c.out = "x"; c.outs["x"] = bytearray(); c.thumb = m.thumb
        self.do(c, x, True)
        for l in c.src["a.asm"]: m.line(l)

    def build(self, c):
        arch, files, symopt, stat, how = c
        m = M(arch); m.line(arch); m.pre = {}
        for _ in range({96: 1200, 95: 66000 if how >> 23 & 3 == 3 else 300, 94: 10000}.get((how >> 16) % 97, 0)): m.line("")   # high line numbers
        for i, (base, sts) in enumerate(files):
            o = "o%d.bin" % i
            m.out = o; m.outs[o] = bytearray(); m.mod = i; m.base = base; m.addr = base; m.phys = 0
            w = how >> (4 * i) & 15
            if w < 12:
                m.line('.create "%s",0x%X' % (o, base))
                m.t(-1, '.create "%s",0x%08X' % (o, base))
            elif w < 14:
                m.pre[o] = bytes(w)
                m.line('.open "%s",0x%X' % (o, base))
                m.t(-1, '.open "%s",0x%08X' % (o, base))
            else:
                m.pre["p%d.bin" % i] = bytes(w); m.pre[o] = m.pre["p%d.bin" % i] if w & 1 else b""
                m.line('.open "p%d.bin","%s",0x%X' % (i, o, base))
                m.t(-1, '.open "p%d.bin","%s",0x%08X' % (i, o, base))
            for st in sts: self.do(m, st, False)
            if m.lits: self.do(m, ("pool",), False)
            m.line(".close"); m.t(m.addr, ".close")
            if w >= 12: m.outs[o] += bytes(max(0, w - len(m.outs[o])))
        return m
    def render(self, c):
        if c[0] == "mips": return MIPS.program(c[1])
        if c[0] == "sh": return SH.program(c[1])
        if c[0] == "stat": return self.stat_build(c[1])[0]
        m = self.build(c)
        return {"files": {k: "\n".join(v) for k, v in m.src.items()}, "options": c[2]}

    def run_mips(self, c, env, sh=False):
        if sh: src = SH.program(c); arch, base, items, z = ".saturn", c[1], c[2], 2
        else: src = MIPS.program(c); arch, base, items, z = c[1], c[2], c[3], 4
        r = env.run({"a.asm": src}, ["a.asm", "-temp", "t.txt"])
        if r.rc: raise Fail("rejected: " + r.text[:400])
        o = r.read("o.bin")
        L = [arch, '.create "p.bin",0x%X' % base]; pos = base; lines = src.split("\n")
        for l in r.read("t.txt").decode().split("\n"):
            g = re.match(r"([0-9A-F]{8}) (   \S.*?) *; \S*a\.asm line (\d+)$", l)
            if not g: continue
            if int(g.group(1), 16) != pos: raise Fail("listed at %s, is at %08X: %s" % (g.group(1), pos, g.group(2)))
            if not lines[int(g.group(3)) - 1].lower().startswith(g.group(2).split()[0][:1].lower()): raise Fail("line %s is listed as %s" % (lines[int(g.group(3)) - 1], g.group(2)))
            L.append(g.group(2)); pos += z
        if pos != base + len(o): raise Fail("%d bytes listed, %d bytes written" % (pos - base, len(o)))
        r2 = env.run({"a.asm": "\n".join(L + [".close", ""])})
        if r2.rc: raise Fail("the listing does not assemble: %s" % r2.text[:300])
        p = r2.read("p.bin")
        for i in range(0, len(o), z):
            if o[i:i + z] != p[i:i + z]: raise Fail("listed as %r: %s instead of %s" % (L[2 + i // z], p[i:i + z].hex(), o[i:i + z].hex()))
        return len(o) // z, [arch + x[0] for x in items if x[0] != "nop"], src[:300]

    def run(self, c, env):
        if c[0] == "mips": return self.run_mips(c[1], env)
        if c[0] == "sh": return self.run_mips(c[1], env, True)
        if c[0] == "stat": return self.run_stat(c[1], env)
        arch, files, symopt, stat, _ = c
        m = self.build(c)
        src = {k: "\n".join(v) + "\n" for k, v in m.src.items()}; src["d.bin"] = bytes(range(100)) + (bytes(0x20000) if re.search(r"incbin [^\n]*,(65|131)\d{3}", repr(m.src)) else b""); src.update(m.pre)
        r = env.run(src, ["a.asm", "-temp", "t.txt", symopt, "s.txt"] + (["-stat"] if stat else []))
        if r.rc: raise Fail("rejected: " + r.text[:400])
        for o, b in m.outs.items():
            g = bytearray(r.read(o))
            for oo, p in m.fix:
                if oo == o: g[p:p + 4] = bytes(4)
            if g != b: raise Fail("output %s differs: %s expected %s" % (o, bytes(g).hex()[:200], bytes(b).hex()[:200]))
        outs = {o: r.read(o) for o in m.outs}
        self.check_sym(m, r.read("s.txt").decode("utf-8"), symopt)
        self.check_temp(m, r.read("t.txt").decode("utf-8"))
        if stat: self.check_stat(m, r.text)
        r2 = env.run(src, ["a.asm"])
        if r2.rc or any(r2.read(o) != outs[o] for o in outs): raise Fail("output depends on -temp/-sym/-stat: rc=%d %s" % (r2.rc, r2.text[:200]))
        n = len(m.temp)
        return n, [repr(sorted(src.items())) + symopt] if n >= 3 else [], src["a.asm"][:300]

    def check_sym(self, m, t, opt):
        L = t.split("\n")
        if L[0] != "00000000 0" or L[-1] != "\x1a": raise Fail("frame of the symbol file: %r ... %r" % (L[0], L[-1]))
        got = []
        for l in L[1:-1]:
            a, _, x = l.partition(" ")
            got.append((int(a, 16), x))
        sg = [(a - (1 << 64) if a >> 63 else a, x) for a, x in got]
        if sg != sorted(sg): raise Fail("symbol file is not in address order: %s" % L)
        low = opt == "-sym"
        fs = {}
        for a, z, mod in m.funcs: fs.setdefault((a, mod), []).append(z)
        exp = []; seen = set()
        for a, x, mod, f in m.sym:
            if isinstance(f, str):
                if (f, a, x) in seen: continue
                seen.add((f, a, x)); exp.append((a, {x})); continue
            if mod is None:
                if ((m, a, x)) in seen and False: continue
                exp.append((a, {x})); continue
            if isinstance(x, tuple): x = x[1]
            if low: exp.append((a, {x.lower()})); continue
            zs = fs.get((a, mod), [])
            if f is None: exp.append((a, {x + (",%08X" % z if z else "") for z in zs} | {x}))
            else: exp.append((a, {x + (",%08X" % f[1] if f[1] else "")}))
        # identical data entries of one output file may be merged
        rest = list(sg); low_ = lambda q: q.lower() if low else q
        used = {}
        for a, s in sorted(exp, key=lambda e: (e[0], len(e[1]))):
            for g in list(rest):
                if g[0] == a and (g[1] in s or g[1].lower() in {q.lower() for q in s if "@@mac" in q}):
                    rest.remove(g); used[(a, g[1])] = 1; break
            else:
                if any((a, q) in used for q in s if q[0] == "."): continue
                raise Fail("symbol file lacks %08X %s\n%s" % (a & (1 << 64) - 1, sorted(s), t))
        if rest: raise Fail("symbol file has an entry too many: %08X %s\n%s" % (rest[0][0] & (1 << 64) - 1, rest[0][1], t))

    def check_temp(self, m, t):
        t = t.lstrip("\ufeff")
        got = []
        for l in t.split("\n"):
            if not l or l.startswith(";"): continue
            g = re.fullmatch(r"([0-9A-F]{8}) (.*?) *; (\S*?)([^/\s]+\.asm) line (\d+)", l)
            if not g: raise Fail("temp line not understood: %r" % l)
            text = re.sub(r'"[^"]*/', '"', g.group(2).strip())
            got.append((int(g.group(1), 16), re.sub(r"\s+", " ", text), (g.group(4), int(g.group(5)))))
        got = [g for g in got if g[1] not in (m.arch, ".thumb", ".arm") or g[2] != ("a.asm", 1)]
        for i in range(max(len(got), len(m.temp))):
            g = got[i] if i < len(got) else None; e = m.temp[i] if i < len(m.temp) else None
            ok = g and e and g[0] == e[0] and g[1].strip().lower() == e[1].strip().lower() and (e[2] == "any" or g[2] == e[2])
            if not ok: raise Fail("temp file: entry %d is %r, expected %r" % (i, g, e))
        fn = sorted(re.findall(r"^; (?:\S*/)?([^/\s]+\.asm)$", t, re.M))
        if fn != sorted(m.src): raise Fail("files listed: %s, expected %s" % (fn, sorted(m.src)))
        n = re.search(r"^; (\d+) lines?$", t, re.M)

    def check_stat(self, m, text):
        if m.nested: return
        A = sorted(m.areas)
        for x, y in zip(A, A[1:]):
            if x[0] == y[0] and y[1] < x[1] + x[2]: return
        A = [a for a in A if a[2]]
        def best(key, L):                 # every area that qualifies
            b = max(map(key, L), default=0)
            return [a for a in L if key(a) == b] if b else [(0, 0, 0, 0, False)]
        R = [a for a in A if a[4]]
        free = lambda a: a[2] - a[3]
        f = lambda n, a: "Most free %s: 0x%08X, %d / %d (free at 0x%08X)" % (n, a[1], a[3], a[2], a[1] + a[3])
        exp = [["Total areas and regions: %d / %d" % (sum(a[3] for a in A), sum(a[2] for a in A))], ["Total regions: %d / %d" % (sum(a[3] for a in R), sum(a[2] for a in R))],
               ["Largest area or region: 0x%08X, %d / %d" % (a[1], a[3], a[2]) for a in best(lambda a: a[2], A)],
               [f("area or region", a) for a in best(free, A)], [f("region", a) for a in best(free, R)]]
        if m.pools:
            exp.append(["Total pool size: %d" % sum(p[1] for p in m.pools)]); b = max(p[1] for p in m.pools)
            exp.append(["Largest pool: 0x%08X, %d" % (p[0], b) for p in m.pools if p[1] == b])
        for e in exp:
            if not any(q in text for q in e): raise Fail("statistics lack %r:\n%s" % (e, text))

CHECK = C17()
