import struct
from ..core import Check, Fail
from .. import elf as X
from ..elf import Sec, Sym
from .. import cpusim

FUNC, OBJECT, NOTYPE, SECTION = 2, 1, 0, 3
LOCAL, GLOBAL, WEAK = 0, 1, 2
ARCHS = {".gba": ("arm", False), ".nds": ("arm", False), ".psx": ("mips", False), ".n64": ("mips", True), ".psp": ("mips", False), ".saturn": ("sh", True)}
BASES = [0, 0x1000, 0x100002, 0x8000000, 0x80010000, 0x02000001, 0x7FFFF0]

def sx(v, n): v &= (1 << n) - 1; return v - (1 << n) if v >> (n - 1) else v
class Unlinkable(Exception): pass

class C19(Check):
    ID = "C19"
    RULE = "an import with at least one relocation or exported symbol; distinct = (architecture, program, objects)"
    QUICK, THOROUGH = 60000, 1200000
    QUICK_S, THOROUGH_S = 90, 1500
    ASSUMPTIONS = ["REL relocations on ARM and MIPS, RELA on SuperH", "no two units define a symbol of the same name unless that is the fault under test",
                   "one relocation section per section; R_MIPS_HI16 is followed by an R_MIPS_LO16 of the same symbol"]

    # ---- generation: an object is (sections, symbols); a relocation is (offset, type, symbol, addend)
    def gen(self, s):
        if s.bool(0.08):               # constructors: a unit is its functions (size, thumb) and its constructor tables (lists of functions)
            arch = s.pick(list(ARCHS))
            def unit(s):
                n = s.int(1, 4)
                return [(4 * s.int(1, 3), s.bool()) for _ in range(n)], s.many(lambda s: (s.bool(), [s.below(n) for _ in range(s.int(1, 3))]), 0, 2)
            return ("ctor", arch, s.pick([0x1000, 0x8000000, 0x80010000, 0x02000004, 4 * s.below(0x100), 0x8000000 + 4 * s.below(0x80)]), s.bool(), s.many(unit, 1, 3), s.pick([0, 0, 4, 12]))
        arch = s.pick(list(ARCHS)); cpu, big = ARCHS[arch]
        base = s.pick(BASES)
        units = []; nu = s.pick([1, 1, 1, 2, 3])
        names = ["Sym%d" % i for i in range(12)]
        free = list(names)
        ext = []                       # names that the assembly code provides
        for i in range(s.below(4)): ext.append((free.pop(), s.pick(["label", "def", "thumb", "arm", "data"]), s.pick([0, 0x100, 0x1000, 0x8001000, 0x80020000, 0x2001000, 0x102, base + s.pick([0x400000, -0x400000, 0x2000000, -0x2000000]) + 2 * s.int(-8, 60) & 0xFFFFFFFF])))
        for u in range(nu): units.append(self.unit(s, cpu, free, u))
        # undefined symbols of every unit: any name provided elsewhere
        out = []
        for u, (secs, syms, lay) in enumerate(units):
            other = [n for v, (_, sy, _) in enumerate(units) if v != u for n, *r in sy if r[2] != LOCAL and r[3] != "und"] + [n for n, *_ in ext]
            for k in range(min(len(other), s.below(4))):
                n = s.pick(other)
                if all(n != y[0] for y in syms): syms = syms + [(n, 0, 0, s.pick([GLOBAL, WEAK]), "und", NOTYPE)]
            secs = [sc + (self.rels(s, cpu, sc, secs, syms),) for sc in secs]
            out.append((secs, syms, lay))
        split = s.bool(0.3)            # several imports instead of one archive
        fault = s.pick([None] * 11 + ["undef", "dup", "type", "machine", "endian", "etype"])
        pre = s.pick([0, 0, 1, 2, 3, 6]); mode = s.bool()
        refs = s.many(lambda s: (s.pick(names), s.pick([0, 4, -1])), 0, 4)
        ctor = s.bool(0.15)
        return (arch, base, ext, out, split, fault, pre, mode, refs, s.bool(0.5), ctor, s.bool(0.3))

    def unit(self, s, cpu, free, u):
        secs = []
        def sec(s):
            i = len(secs)
            kind = s.pick(["text", "text", "data", "bss", "rodata", "empty", "debug", "note"])
            al = s.pick([4, 4, 1, 2, 8, 16, 32, 0])
            if kind == "text": al = s.pick([4, 4, 8, 16])
            n = 4 * s.int(1, 12)
            if kind in ("data", "rodata", "debug") and s.bool(0.3): n += s.int(1, 3)
            if kind == "empty": n = 0
            r = (kind, al, n, s.below(1 << 16)); secs.append(r)
            return r
        s.many(sec, 1, 6, 0.7)
        if s.bool(0.25): secs.append(("ctor", 4, 4 * s.int(1, 3), s.below(2)))
        syms = []; k = s.wpick([(120, ""), (1, "secs"), (1, "syms"), (1, "rels"), (0.5, "size")])   # counts beyond 8 bits
        if k == "secs": z = s.pick([60, 70, 130, 250, 300]); secs[:0] = [(["text", "note", "empty", "debug", "data"][i % 5], 4, 4 * (i % 3), i) for i in range(z)]
        elif k == "syms": syms = [("st%d" % i, 0, 0, LOCAL, "abs", NOTYPE) for i in range(s.pick([60, 130, 250, 257, 300, 520]))]
        elif k == "rels": secs.append(("text" if s.bool(0.7) else "data", 4, 4 * s.pick([150, 300, 650]), s.below(1 << 16)))
        elif k == "size": secs.insert(s.below(2), (s.pick(["text", "data", "bss", "rodata"]), 4, 4 * s.pick([0x1001, 0x3FFF, 0x4001, 0x8003]), s.below(1 << 16)))
        place = [i for i, x in enumerate(secs) if x[0] not in ("debug", "note")]
        def sym(s):
            b = s.pick([GLOBAL, GLOBAL, LOCAL, WEAK])
            if b == LOCAL: n = s.pick(["loc%d" % len(syms), ".L%d" % len(syms), ""])
            elif free: n = free.pop()
            else: return
            k = s.pick(["sec", "sec", "sec", "sec", "abs", "com"])
            if k == "com" and b != GLOBAL: k = "sec"
            if k == "sec" and not place: k = "abs"
            if k == "abs": syms.append((n, s.pick([0, 4, 0x1234, 0x80000000]), 0, b, "abs", NOTYPE))
            elif k == "com": syms.append((n, s.pick([1, 2, 4, 8, 16]), s.int(1, 20), b, "com", OBJECT))
            else:
                i = s.pick(place); kind, al, z, _ = secs[i]
                t = SECTION if n == "" else s.pick([FUNC, FUNC, NOTYPE, OBJECT]) if kind == "text" else s.pick([NOTYPE, OBJECT])
                v = 0 if t == SECTION else s.below(z + 1) & (~3 if kind == "text" else ~0)
                if t == FUNC and cpu == "arm" and s.bool(): v |= 1 | s.below(2) * 2
                syms.append((n, v, s.int(0, 8), b, i, t))
        for _ in range(s.int(0, 5)): sym(s)
        lay = (s.shuffle(["secs", "rels", "sym", "str", "shstr", "extra"]) if s.bool(0.5) else ["secs", "rels", "sym", "str", "shstr", "extra"], s.pick([0, 0, 1, 5]), s.bool(0.3), s.bool(0.3), s.bool(0.3), s.bool(0.3))
        return secs, syms, lay

    def rels(self, s, cpu, sc, secs, syms):
        kind, al, n, _ = sc
        if not syms or n < 4 or kind in ("bss", "empty", "note"): return []
        if n > 4000: n = 40
        ok = lambda f: [i for i, y in enumerate(syms) if f(y)]
        out = []; off = 0
        while off + 4 <= n:
            if s.bool(0.45):
                if kind == "ctor": t = "abs"
                elif kind != "text": t = "abs"
                elif cpu == "arm": t = s.pick(["abs", "thm", "thm", "thmx", "call", "call", "callx", "jump", "bx"])
                elif cpu == "mips": t = s.pick(["abs", "26", "hilo", "hilo", "hihilo", "hilolo"])
                else: t = s.pick(["abs", "rel"])
                need = {"hilo": 2, "hihilo": 3, "hilolo": 3}.get(t, 1)
                i = s.below(len(syms))
                al_ = s.pick([0, 0, 0, 4, -4, 0x100, 0x7FFF, 0x8000, -0x8000, 0x12340000, -1, 2])
                if off + 4 * need <= n: out.append((off, t, i, al_, s.below(1 << 32))); off += 4 * need; continue
            off += 4
        return out

    # ---- model
    def build(self, c):
        arch, base, ext, units, split, fault, pre, mode, refs, sym, ctor, lib = c
        cpu, big = ARCHS[arch]; E = "big" if big else "little"
        thumb = mode if cpu == "arm" else None
        # assembly part: externals
        val = {}; head = []; tail = []
        for n, k, v in ext:
            if k == "thumb" and cpu == "arm": head.append(".definethumblabel %s,0x%X" % (n.lower(), v)); val[n] = (v, True)
            elif k == "arm" and cpu == "arm": head.append(".definearmlabel %s,0x%X" % (n.upper(), v)); val[n] = (v, False)
            elif k == "data": head.append(".definedatalabel %s,0x%X" % (n, v)); val[n] = (v, False)
            elif k == "label": tail.append(n)
            else: head.append(".definelabel %s,0x%X" % (n, v)); val[n] = (v, bool(thumb))
        groups = [[u] for u in units] if split else [units]
        return cpu, big, E, thumb, val, head, tail, groups

    def objects(self, c):
        """the object files as Sec/Sym lists with random contents"""
        arch, base, ext, units, split, fault, pre, mode, refs, sym, ctor, lib = c
        cpu, big = ARCHS[arch]; E = "big" if big else "little"
        objs = []
        for u, (secs, syms, lay) in enumerate(units):
            S = []
            for i, (kind, al, n, seed, rels) in enumerate(secs):
                rnd = bytes((seed * (k + 3) * 40503 >> 5) & 255 for k in range(n))
                name = {"text": ".text", "data": ".data", "bss": ".bss", "rodata": ".rodata", "empty": ".text.e", "debug": ".debug_info", "note": ".comment", "ctor": [".ctors", ".init_array"][seed & 1 if kind == "ctor" else 0]}[kind] + (".%d" % i if kind != "ctor" else "")
                typ = {"bss": X.NOBITS}.get(kind, X.INIT_ARRAY if name == ".init_array" else X.PROGBITS)
                fl = {"text": X.ALLOC | X.EXEC, "debug": 0, "note": 0, "rodata": X.ALLOC}.get(kind, X.ALLOC | X.WRITE)
                sc = Sec(name, typ, fl, al, b"" if kind == "bss" else rnd, n); sc.kind = kind; sc.rela = cpu == "sh"
                sc.items = rels
                for off, t, y, a, r in rels: self.place(cpu, E, sc, off, t, y, a, r)
                S.append(sc)
            Y = [Sym(n, v, z, b, t, None if k == "und" else X.ABS if k == "abs" else X.COMMON if k == "com" else k) for n, v, z, b, k, t in syms]
            objs.append((S, Y, lay))
        return objs

    def place(self, cpu, E, sc, off, t, y, a, r):
        """store the instruction or word to be relocated, with its addend"""
        def put(o, v): sc.data[o:o + 4] = (v & 0xFFFFFFFF).to_bytes(4, E)
        R = lambda o, ty, ad=0: sc.rels.append((o, ty, y, ad))
        if t == "abs":
            if cpu == "sh": put(off, 0); R(off, 1, a)
            else: put(off, a); R(off, (2 if r & 3 else 38) if cpu == "arm" else 2)
        elif t == "rel": put(off, 0); R(off, 2, a)
        elif t in ("thm", "thmx"):
            x = (sx(a, 12) & ~1) - 4
            hi, lo = 0xF000 | x >> 12 & 0x7FF, (0xF800 if t == "thm" else 0xE800) | x >> 1 & 0x7FF
            put(off, hi | lo << 16); R(off, 10)
        elif t in ("call", "callx", "jump"):
            x = (sx(a, 16) & ~3) - 8
            cond = 0xE if t != "jump" and r & 3 or t == "callx" else r >> 4 & 15
            if cond == 15: cond = 14
            w = (cond << 28 | (0xA000000 if t == "jump" else 0xB000000)) if t != "callx" else 0xFA000000
            put(off, w | x >> 2 & 0xFFFFFF); R(off, 29 if t == "jump" else 28)
        elif t == "bx": put(off, 0xE12FFF10 | r & 15); R(off, 40)
        elif t == "26": put(off, (0x0C000000 if r & 1 else 0x08000000) | (a & 0xFFFFFFF) >> 2 & 0x3FFFFFF); R(off, 4)
        else:
            op = [0x3C000000 | (r >> 16 & 31) << 16, 0x24000000 | (r >> 8 & 0x3FF) << 16, 0x8C000000 | (r >> 8 & 0x3FF) << 16]
            hi = (a + 0x8000) >> 16 & 0xFFFF
            if t == "hilo": seq = [(5, op[0] | hi), (6, op[1] | a & 0xFFFF)]
            elif t == "hihilo": seq = [(5, op[0] | hi), (5, op[0] ^ 0x10000 | hi), (6, op[1] | a & 0xFFFF)]
            else: seq = [(5, op[0] | hi), (6, op[1] | a & 0xFFFF), (6, op[2] | a & 0xFFFF)]
            for i, (ty, w) in enumerate(seq): put(off + 4 * i, w); R(off + 4 * i, ty)

    def link(self, cpu, E, v5, S, addr, symaddr, out):
        """apply the relocations of one object: symaddr[i] = (address, thumb function?)"""
        for i, sc in enumerate(S):
            if addr[i] is None: continue
            d = bytearray(sc.data)
            def put(o, v): d[o:o + 4] = (v & 0xFFFFFFFF).to_bytes(4, E)
            for off, t, y, a, r in sc.items:
                s_, T = symaddr[y]; P = addr[i] + off
                w = int.from_bytes(d[off:off + 4], E)
                if t == "abs": put(off, (s_ + a) | (1 if T and cpu == "arm" else 0))
                elif t == "rel": put(off, s_ + a - P)
                elif t in ("thm", "thmx"):
                    x = (sx(a, 12) & ~1) - 4
                    if T:
                        if s_ % 2: raise Unlinkable("target alignment")
                        o = s_ + x - P; lo = 0xF800
                    else:
                        if not v5: raise Unlinkable("ARM from THUMB")
                        if s_ % 4: raise Unlinkable("target alignment")
                        o = s_ + x - (P & ~3); lo = 0xE800
                        if o % 4: raise Unlinkable("?")       # an addend that a blx cannot express
                    o = sx(o, 32)
                    if not -0x400000 <= o < 0x400000: raise Unlinkable("range")
                    put(off, 0xF000 | o >> 12 & 0x7FF | (lo | o >> 1 & 0x7FF) << 16)
                elif t in ("call", "callx", "jump"):
                    x = (sx(a, 16) & ~3) - 8; o = sx(s_ + x - P, 32)
                    if T:
                        if s_ % 2: raise Unlinkable("target alignment")
                        if t == "jump" or not v5 or (w >> 28 != 14 and t == "call"): raise Unlinkable("mode")
                        w = 0xFA000000 | (o >> 1 & 1) << 24
                    else:
                        if s_ % 4: raise Unlinkable("target alignment")
                        if t == "callx": w = 0xEB000000
                        w &= 0xFF000000
                    if not -0x2000000 <= o < 0x2000000: raise Unlinkable("range")
                    put(off, w | o >> 2 & 0xFFFFFF)
                elif t == "26": put(off, w & 0xFC000000 | ((w & 0x3FFFFFF) + (s_ >> 2)) & 0x3FFFFFF)
                elif t in ("hilo", "hihilo", "hilolo"):
                    v = s_ + a
                    n = {"hilo": 1, "hihilo": 2, "hilolo": 1}[t]
                    for k in range(3 if t != "hilo" else 2):
                        w = int.from_bytes(d[off + 4 * k:off + 4 * k + 4], E)
                        put(off + 4 * k, w & 0xFFFF0000 | (v + 0x8000 >> 16 if k < n else v) & 0xFFFF)
            p = addr[i] - out[0]
            out[1][p:p + len(d)] = d

    def program(self, c):
        arch, base, ext, units, split, fault, pre, mode, refs, sym, ctor, lib = c
        cpu, big, E, thumb, val, head, tail, groups = self.build(c)
        v5 = arch == ".nds"
        objs = self.objects(c)
        L = [arch] + ([".thumb" if mode else ".arm"] if cpu == "arm" else []) + ['.create "o.bin",0x%X' % base] + head
        if pre: L.append(".fill %d,0x55" % pre)
        files = {}; n = 0
        if split: G = [[o] for o in objs]
        else: G = [objs]
        errs = fault
        for g, os_ in enumerate(G):
            blobs = []
            for k, (S, Y, lay) in enumerate(os_):
                kw = {}
                first = g == 0 and k == 0
                if first and fault == "machine": kw["emachine"] = {"arm": 8, "mips": 40, "sh": 3}[cpu]
                if first and fault == "etype": kw["etype"] = 2
                big_ = not big if first and fault == "endian" else big
                if first and fault == "type":
                    for sc in S:
                        if sc.rels and sc.kind != "debug": sc.rels[0] = (sc.rels[0][0], 77) + sc.rels[0][2:]; break
                    else: errs = None
                order, gap, merge, extra, mixed, sf = lay
                blobs.append(("unit%d_%d%s" % (g, k, "_with_a_long_name" if gap == 5 else ""), X.relocatable(cpu, big_, S, Y, order, gap, merge, b"\0xx\0\0Sym1\0" if extra else None, rel_first="mixed" if mixed else False, shdr_first=sf, **kw)))
            if len(blobs) > 1 or lib:
                files["l%d.a" % g] = X.archive([(n_ + ".o", b) for n_, b in blobs], symbols=gap != 1); nm = "l%d.a" % g
            else: files["l%d.o" % g] = blobs[0][1]; nm = "l%d.o" % g
            L.append('%s "%s"' % (".importlib" if lib else ".importobj", nm))
            L.append("mk%d:" % g)
        for t in tail: L += ["%s:" % t, ".byte 0x99"]
        # layout
        pos = base + pre; out = (base, bytearray(b"\x55" * pre)); lay_ = []
        marks = {}
        for g, os_ in enumerate(G):
            for S, Y, _ in os_:
                addr = []
                for sc in S:
                    if sc.kind in ("debug", "note"): addr.append(None); continue
                    if sc.align: pos += -pos % sc.align
                    addr.append(pos); pos += sc.size
                com = {}
                order = [i for i, y in enumerate(Y)]
                for i in order:
                    if Y[i].sec == X.COMMON: pos += -pos % Y[i].value; com[i] = pos; pos += Y[i].size
                lay_.append((S, Y, addr, com))
            marks["mk%d" % g] = pos
        end = pos
        for t in tail: val[t] = (pos, bool(thumb)); pos += 1
        out[1].extend(bytes(end - base - len(out[1]))); out[1].extend(b"\x99" * len(tail))
        exp = {}; bad = None
        for S, Y, addr, com in lay_:
            for i, y in enumerate(Y):
                if y.bind == LOCAL or y.sec is None: continue
                f = cpu == "arm" and y.type == FUNC
                v = y.value & ~1 if f else y.value
                a = v if y.sec == X.ABS else com[i] if y.sec == X.COMMON else addr[y.sec] + v
                exp[y.name] = (a, f and y.value & 1 == 1, y)
        if fault == "dup":
            k = sorted(exp)
            if k: L.insert(3, ".definelabel %s,5" % k[-1].upper())
            else: errs = None
        for S, Y, addr, com in lay_:
            sa = []
            for i, y in enumerate(Y):
                if y.sec is None: q = exp.get(y.name) or val.get(y.name); sa.append(q[:2]); continue
                f = cpu == "arm" and y.type == FUNC
                v = y.value & ~1 if f else y.value
                sa.append((v if y.sec == X.ABS else com[i] if y.sec == X.COMMON else addr[y.sec] + v, f and y.value & 1 == 1))
            try: self.link(cpu, E, v5, S, addr, sa, out)
            except Unlinkable as e: bad = str(e)
        if fault == "undef":
            for S, Y, addr, com in lay_:
                used = {r[2] for i, sc in enumerate(S) if addr[i] is not None for r in sc.items if r[1] != "bx"}
                und = [y for i, y in enumerate(Y) if y.sec is None and i in used]
                if und: break
            else: errs = None
            if errs:
                nm = und[0].name
                if nm in exp: errs = None
                else:
                    L = [l for l in L if nm.lower() + "," not in l.lower() and l.lower() != nm.lower() + ":"]
        L.append(".align 4"); x = len(out[1]); out[1].extend(bytes(-(base + x) % 4))
        for k, a in sorted(marks.items()): L.append(".d32 %s" % k); out[1].extend(a.to_bytes(4, E))
        for n_, (a, T, y) in sorted(exp.items()): L.append(".d32 %s" % n_); out[1].extend((a & 0xFFFFFFFF).to_bytes(4, E))
        L.append(".close")
        files["a.asm"] = "\n".join(L) + "\n"
        return files, bytes(out[1]), exp, errs, bad

    def ctor_program(self, c):
        _, arch, base, thumb, units, pre = c
        cpu, big = ARCHS[arch]
        blobs = []; n = 0; F = []; order = []
        for fs, tabs in units:
            text = b""; Y = []
            for z, t in fs:
                t = t and arch == ".nds" or thumb and arch == ".gba"
                Y.append(Sym("Fn%d" % n, len(text) | (1 if t and cpu == "arm" else 0), z, GLOBAL, FUNC, 0)); F.append(("Fn%d" % n, bool(t))); n += 1
                text += bytes(z)
            S = [Sec(".text", data=text, flags=X.ALLOC | X.EXEC)]
            for ia, l in tabs:
                S.append(Sec(".init_array" if ia else ".ctors", X.INIT_ARRAY if ia else X.PROGBITS, X.ALLOC | X.WRITE, 4, bytes(4 * len(l)), rels=[(4 * i, 1 if cpu == "sh" else 2, q, 0) for i, q in enumerate(l)]))
                order += [F[n - len(fs) + q] for q in l]
            for x in S: x.rela = cpu == "sh"
            blobs.append(("u%d.o" % len(blobs), X.relocatable(cpu, big, S, Y, ["secs", "rels", "sym", "str", "shstr", "extra"])))
        L = [arch] + ([".thumb" if thumb else ".arm"] if cpu == "arm" else []) + ['.create "o.bin",0x%X' % base] + ([".fill %d" % pre] if pre else [])
        L += ['.importlib "l.a",RunAll', "after:", ".d32 runall,after"] + [".d32 %s" % f for f, _ in F] + [".close", ""]
        return {"a.asm": "\n".join(L), "l.a": X.archive(blobs) if len(blobs) > 1 else blobs[0][1]}, F, order
    def run_ctor(self, c, env):
        _, arch, base, thumb, units, pre = c
        cpu, big = ARCHS[arch]; E = "big" if big else "little"
        files, F, order = self.ctor_program(c)
        r = env.run(files)
        if r.rc or "warning" in r.text: raise Fail("constructor routine: rc=%d %s" % (r.rc, r.text[:400]))
        o = r.read("o.bin"); w = [int.from_bytes(o[i:i + 4], E) for i in range(len(o) - 4 * len(F) - 8, len(o), 4)]
        if w[0] != base + pre: raise Fail("routine at %X, expected %X" % (w[0], base + pre))
        A = {f: a for (f, _), a in zip(F, w[2:])}; fn = {A[f]: t for f, t in F}
        mem = cpusim.Mem(base, o, E)
        if cpu == "arm": sim = cpusim.Arm(mem, arch == ".nds"); e = w[0] | thumb
        elif cpu == "sh": sim = cpusim.Sh(mem); e = w[0]
        else: sim = cpusim.MipsRun(mem, arch == ".psx"); e = w[0]
        try: calls = sim.call(e, fn)
        except cpusim.Unknown as x: raise Fail("constructor routine: %s" % x)
        if calls != [A[f] for f, _ in order]: raise Fail("constructors called: %s, expected %s" % ([hex(x) for x in calls], [hex(A[f]) for f, _ in order]))
        return 1 + len(order), [repr(c)], files["a.asm"]

    def render(self, c):
        if c[0] == "ctor": f = self.ctor_program(c)[0]; return {"files": {k: v if isinstance(v, str) else v.hex() for k, v in f.items()}, "case": repr(c)}
        files, out, exp, errs, bad = self.program(c)
        return {"files": {k: v if isinstance(v, str) else v.hex() for k, v in files.items()}, "objects": repr(c[3]), "expected": "error: %s" % (errs or bad) if errs or bad else out.hex()}

    def run(self, c, env):
        if c[0] == "ctor": return self.run_ctor(c, env)
        files, out, exp, errs, bad = self.program(c)
        if bad == "?": return 0, [], ""
        r = env.run(files, ["a.asm"] + (["-sym2", "s.txt"] if c[9] else []))
        if errs or bad:
            if r.rc != 1 or not r.errors(): raise Fail("accepted in spite of %s: rc=%d %s" % (errs or bad, r.rc, r.text[:300]))
            return 1, [repr(c[:6])], files["a.asm"]
        if r.rc: raise Fail("rejected: %s" % r.text[:400])
        got = r.read("o.bin")
        if got != out:
            i = next((i for i in range(min(len(got), len(out))) if got[i] != out[i]), min(len(got), len(out)))
            raise Fail("output differs at address %X (%d bytes, expected %d): %s expected %s" % (c[1] + i, len(got), len(out), got[i & ~3:i + 12].hex(), out[i & ~3:i + 12].hex()))
        if c[9]: self.check_sym(exp, r.read("s.txt").decode())
        nr = sum(len(x[4]) for u in c[3] for x in u[0])
        return 1 + nr + len(exp), [repr(c[:6])] if nr or exp else [], files["a.asm"]

    def check_sym(self, exp, t):
        L = t.split("\n")
        for n, (a, T, y) in exp.items():
            e = "%08X %s" % (a, n) + (",%08X" % y.size if y.type == FUNC and y.size else "")
            if e not in L: raise Fail("symbol file lacks %r:\n%s" % (e, t))

CHECK = C19()
