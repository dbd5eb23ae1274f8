import struct
from ..core import Check, Fail

H, I = (lambda v: struct.pack("<H", v & 0xFFFF)), (lambda v: struct.pack("<I", v & 0xFFFFFFFF))
def pstr(n): return bytes([len(n)]) + n.encode()
OPC = {"word": 0x10, "jal": 0x4A, "hi": 0x52, "lo": 0x54}
INS = {"word": [0], "jal": [0x0C000000, 0x08000000], "hi": [0x3C010000, 0x3C1F0000, 0x3C020000], "lo": [0x24210000, 0x8C430000, 0xACA60000, 0x24840000]}
SEGS = [".text", ".data", ".rdata", ".bss", ".sdata", ".sbss", ".ctors"]
BASES = [0x80010000, 0x1000, 0, 0x8001FFF0, 0x80007FF0]

class C23(Check):
    ID = "C23"
    RULE = "an import with at least one relocation or symbol, or one that has to be rejected; distinct = (program, objects)"
    QUICK, THOROUGH = 60000, 1200000
    QUICK_S, THOROUGH_S = 90, 1500
    ASSUMPTIONS = ["the fields to be relocated hold zero, as compilers for the format emit them", "symbol names are unique among the exported and uninitialized symbols of all objects",
                   "every upper half relocation has a lower half relocation of the same expression in its segment", "objects are imported at addresses that are multiples of 4"]

    # ---- generation. an object is (segments, symbols, chunks, layout choices)
    def gen(self, s):
        tail = "_" + "Long.name" * 30 if s.bool(0.1) else ""
        names = s.shuffle([("Sym%d" % i + tail)[:s.pick([16, 63, 64, 127, 128, 129, 200, 255]) if tail else 99] for i in range(14)]); free = list(names)
        ext = [(free.pop(), s.pick(["label", "before", "def", "def"]), s.pick([0, 0x100, 0x8000, 0x80020000, 0x8000FFFC, 0x1234, 0x80017FFF])) for _ in range(s.below(4))]
        units = []
        for u in range(s.pick([1, 1, 2, 2, 3])):
            ids = s.shuffle([3, 4, 7, 0, 0x21, 0x1234, 0x100, 0xFFFF])[:s.int(1, 4)]
            segs = [(i, s.pick(SEGS), s.pick([0, 0, 0, 5])) for i in ids]
            def sym(s):
                k = s.pick(["exp", "exp", "exp", "bss", "int", "func"])
                if k in ("exp", "bss"):
                    if not free: return ("none",)
                    n = free.pop()
                else: n = s.pick(["static_%d_%d" % (u, s.below(4)), "a%d" % s.below(3)])
                return (k, n, s.pick(ids), 4 * s.below(8), s.pick([4, 8, 1, 6, 64, 2, 0]), s.bool(0.3))
            syms = [y for y in s.many(sym, 0, 6) if y[0] != "none"]
            units.append((segs, syms, s.below(1 << 16)))
        out = []
        for u, (segs, syms, seed) in enumerate(units):
            other = [y[1] for v, x in enumerate(units) if v != u for y in x[1] if y[0] in ("exp", "bss")] + [n for n, *_ in ext]
            for n in s.shuffle(other)[:s.below(4)]: syms = syms + [("ext", n, 0, 0, 0, False)]
            syms = s.shuffle(syms)
            targets = [("sym", y[1]) for y in syms if y[0] in ("exp", "bss", "ext")]
            def chunk(s):
                sg = s.pick(segs)[0]
                if s.bool(0.15): return ("zero", sg, s.pick([1, 4, 8, 3, 300, 32, 1, 4, 8, 3, 300, 32, 0x1001, 0xFFFC]))
                def item(s):
                    if not s.bool(0.6): return ("fill", s.pick([70, 600, 1025, 2048, 4100])) if s.bool(0.02) else ("raw", s.below(1 << 32))
                    t = s.pick(targets) if targets and s.bool(0.7) else ("seg", s.pick(segs)[0], 4 * s.below(10) if s.bool(0.8) else s.pick([0x7FFC, 0x8000, 0x12345]))
                    off = s.many(lambda s: s.pick([4, 8, -4, 0x7FFF, 0x8000, -0x8000, 0x12340, -1, 1, -0x10000, 12]), 0, 2, 0.35)
                    return (s.pick(["word", "jal", "pair", "pair", "pair", "lo"]), t, tuple(off), s.below(1 << 16))
                return ("data", sg, s.many(item, 1, 8), s.pick([0, 0, 0, 1, 2, 3]), s.below(1 << 16))
            chunks = s.many(chunk, 0, 5)
            out.append((segs, syms, chunks, s.below(4), s.bool(0.3), seed))
        return (s.pick(BASES), s.pick([0, 0, 4, 12]), ext, out, s.bool(0.4), s.bool(0.6), s.pick([None] * 10 + ["undef", "dup", "op", "noseg", "reltype", "trunc", "symid", "reloff"]), s.bool(0.4), s.bool(0.5))

    # ---- writing
    def items(self, c):
        """-> per unit: {segment: (bytes, [(offset, type, target, offsets)])} and the records of its data"""
        res = []
        for segs, syms, chunks, lay, dbg, seed in c[3]:
            S = {i: (bytearray(), []) for i, _, _ in segs}; recs = []; cur = None
            for ch in chunks:
                kind, sg = ch[:2]
                if sg != cur or lay & 1: recs.append(b"\x06" + H(sg)); cur = sg
                d, R = S[sg]
                if kind == "zero": recs.append(b"\x08" + I(ch[2])); d.extend(bytes(ch[2])); continue
                start = len(d); body = bytearray(); rl = []
                pend = []
                for it in ch[2]:
                    if it[0] == "raw": body += I(it[1]); continue
                    if it[0] == "fill": body += b"".join(I(w * 0x01030507) for w in range(it[1])); continue
                    k, t, off, r = it
                    seq = ["hi", "lo"] if k == "pair" else [k]
                    if k == "pair" and r & 1: seq = ["hi", "lo", "lo"]
                    if k == "pair" and r & 6 == 6: seq = ["hi", "hi", "lo"]
                    if k == "pair" and r & 24 == 24:      # the lower half follows at the end of the chunk
                        body += I(INS["hi"][r % 3]); rl.append((len(body) - 4, "hi", t, off)); pend.append((t, off)); continue
                    for q in seq:
                        body += I(INS[q][r % len(INS[q])]); rl.append((len(body) - 4, q, t, off))
                if ch[4] & 1: pend.reverse()
                for t, off in pend: body += I(INS["lo"][ch[4] % 4]); rl.append((len(body) - 4, "lo", t, off))
                body += b"\xA5" * ch[3]
                if ch[4] & 6 == 6: rl.reverse()
                elif ch[4] & 24 == 24: rl = rl[::2] + rl[1::2]
                d.extend(body); R += [(start + o, q, t, off) for o, q, t, off in rl]
                recs.append(b"\x02" + H(len(body)) + bytes(body))
                for o, q, t, off in rl: recs.append(("rel", o, q, t, off))
                if dbg: recs.append(b"\x3A" + H(4) + I(77) + H(1)); recs.append(b"\x32" + H(0))
            res.append((S, recs))
        return res

    def objects(self, c):
        out = []
        for u, ((segs, syms, chunks, lay, dbg, seed), (S, recs)) in enumerate(zip(c[3], self.items(c))):
            ids = {}; n = 1
            for y in syms:
                if y[0] in ("exp", "bss", "ext"): ids[y[1]] = n; n += 1 + (seed & 7) * 37
            d = [b"LNK\x02\x2E\x07"]
            if dbg: d.append(b"\x1C" + H(1) + pstr("FILE%d.C" % u)); d.append(b"\x14" + H(5) + b"\0" + pstr("grp"))
            for i, nm, g in segs: d.append(b"\x10" + H(i) + H(g) + b"\x08" + pstr(nm))
            ys = []
            for k, n, sg, off, z, fn in syms:
                if k == "exp":
                    ys.append(b"\x0C" + H(ids[n]) + H(sg) + I(off) + pstr(n))
                    if fn: ys.append(b"\x4A" + H(sg) + I(off) + H(1) + I(5) + H(29) + I(24) + H(31) + I(0x80000000) + I(0xFFFFFFF8) + pstr(n)); ys.append(b"\x4C" + H(sg) + I(off + 8) + I(9))
                elif k == "bss": ys.append(b"\x30" + H(ids[n]) + H(sg) + I(z) + pstr(n))
                elif k == "int": ys.append(b"\x12" + H(sg) + I(off) + pstr(n))
                elif k == "func": ys.append(b"\x4A" + H(sg) + I(off) + H(1) + I(5) + H(29) + I(24) + H(31) + I(0) + I(0) + pstr(n))
                else: ys.append(b"\x0E" + H(ids[n]) + pstr(n))
            rs = []
            for r in recs:
                if isinstance(r, bytes): rs.append(r); continue
                _, o, q, t, offs = r
                e = b"".join((b"\x2C\x00" + I(x)) if x >= 0 else (b"\x2E\x00" + I(-x)) for x in offs)
                e += b"\x02" + H(ids[t[1]]) if t[0] == "sym" else b"\x2C\x04" + H(t[1]) + b"\x00" + I(t[2])
                rs.append(b"\x0A" + bytes([OPC[q]]) + H(o) + e)
            if dbg: rs.append(b"\x3C" + H(0))
            d += ys + rs if lay & 2 else rs + ys
            d.append(b"\0")
            f = c[6]
            if u == 0 and f == "op": d.insert(-1, b"\x7B\x01\x02")
            elif u == 0 and f == "noseg": d.insert(-1, b"\x06" + H(0x777) + b"\x02" + H(2) + b"ab")
            elif u == 0 and f == "reltype" and segs: d.insert(-1, b"\x06" + H(segs[0][0]) + b"\x02" + H(4) + b"\0\0\0\0" + b"\x0A\x77" + H(0) + b"\x2C\x04" + H(segs[0][0]) + b"\0" + I(0))
            elif u == 0 and f in ("symid", "reloff"): d.insert(-1, b"\x06" + H(segs[0][0]) + b"\x02" + H(4) + b"\0\0\0\0" + b"\x0A\x10" + H(1 + seed % 40 if f == "reloff" else 0) + (b"\x02" + H(0x7777) if f == "symid" else b"\x2C\x04" + H(segs[0][0]) + b"\0" + I(0)))
            elif u == 0 and f == "trunc": d[-1] = b"\x06" + H(segs[0][0]) + b"\x02" + H(0x60) + b"abc"
            out.append(b"".join(d))
        return out

    def library(self, objs):
        d = b"LIB\x01"
        for i, (nm, exps, o) in enumerate(objs):
            h = b"".join(pstr(x) for x in exps) + b"\0"
            d += nm.encode().ljust(8)[:8] + I(0x1C2B3A49) + I(20 + len(h)) + I(20 + len(h) + len(o)) + h + o
        return d

    # ---- model
    def program(self, c):
        base, pre, ext, units, split, lib, fault, early, sym = c
        objs = self.objects(c); its = self.items(c)
        groups = [[u] for u in range(len(units))] if split else [list(range(len(units)))]
        pos = base; L = [".psx", '.create "o.bin",0x%X' % base]; val = {}
        out = bytearray()
        for n, k, v in ext:
            if k == "def": L.append(".definelabel %s,0x%X" % (n, v)); val[n] = v
            elif k == "before": L += ["%s: .word 0x11" % n.lower()]; val[n] = pos; out += I(0x11); pos += 4
        exported = [y[1] for x in units for y in x[1] if y[0] in ("exp", "bss")]
        fix = []
        if early:
            for n in exported[:4]: L.append(".word %s" % n.upper()); fix.append((len(out), n)); out += bytes(4); pos += 4
        if pre: L.append(".fill %d,0x55" % pre); out += b"\x55" * pre; pos += pre
        segaddr = {}; symaddr = {}; files = {}; listing = []
        for g, us in enumerate(groups):
            if len(us) == 1 and not lib: files["l%d.obj" % g] = objs[us[0]]; nm = "l%d.obj" % g
            else:
                files["l%d.lib" % g] = self.library([("UNIT%d" % u, [y[1] for y in units[u][1] if y[0] == "exp"], objs[u]) for u in us]); nm = "l%d.lib" % g
            L.append('%s "%s"' % (".importlib" if lib else ".importobj", nm)); L.append("mk%d:" % g)
            for u in us:
                segs, syms = units[u][:2]; S, _ = its[u]
                for i, _, _ in segs:
                    segaddr[u, i] = pos; out += S[i][0]; pos += len(S[i][0]); p = -pos % 4; out += bytes(p); pos += p
                for k, n, sg, off, z, fn in syms:
                    if k == "bss":
                        symaddr[n] = pos; z += -(pos + z) % 4; out += bytes(z); pos += z; listing.append((symaddr[n], n))
                    elif k == "exp": symaddr[n] = segaddr[u, sg] + off; listing.append((symaddr[n], n))
            val["mk%d" % g] = pos
        for n, k, v in ext:
            if k == "label": L += ["%s: .word 0x22" % n]; val[n] = pos; out += I(0x22); pos += 4
        val.update(symaddr)
        for u, (segs, syms, *_) in enumerate(units):
            for i, _, _ in segs:
                for o, q, t, offs in its[u][0][i][1]:
                    v = (val[t[1]] if t[0] == "sym" else segaddr[u, t[1]] + t[2]) + sum(offs)
                    p = segaddr[u, i] + o - base; w = int.from_bytes(out[p:p + 4], "little")
                    w |= {"word": v, "jal": v >> 2 & 0x3FFFFFF, "hi": (v + 0x8000) >> 16 & 0xFFFF, "lo": v & 0xFFFF}[q] & 0xFFFFFFFF
                    out[p:p + 4] = I(w)
        for p, n in fix: out[p:p + 4] = I(val[n])
        for n in exported: L.append(".doubleword %s" % n); out += I(val[n]) + bytes(4)
        for n in sorted(val):
            if n.startswith("mk"): L.append(".word %s" % n); out += I(val[n])
        L.append(".close")
        bad = fault
        if fault == "undef":
            und = [y[1] for x in units for y in x[1] if y[0] == "ext" and y[1] not in exported]
            if not und: bad = None
            else: L = [l for l in L if not l.lower().startswith(und[0].lower() + ":") and und[0].lower() + "," not in l.lower()]
        if fault == "dup":
            if not exported: bad = None
            else: L.insert(2, ".definelabel %s,5" % exported[-1].upper())
        files["a.asm"] = "\n".join(L) + "\n"
        nr = sum(len(x[1]) for S, _ in its for x in S.values())
        return files, bytes(out), bad, listing, nr

    def run(self, c, env):
        files, out, bad, listing, nr = self.program(c)
        r = env.run(files, ["a.asm"] + (["-sym", "s.txt"] if c[8] else []))
        if bad:
            if r.rc != 1 or not r.errors(): raise Fail("accepted in spite of %s: rc=%d %s" % (bad, r.rc, r.text[:300]))
            return 1, [repr(c)], files["a.asm"]
        if r.rc or r.text.strip(): raise Fail("rejected: rc=%d %s" % (r.rc, r.text[:400]))
        got = r.read("o.bin")
        if got != out:
            i = next((i for i in range(min(len(got), len(out))) if got[i] != out[i]), min(len(got), len(out)))
            raise Fail("output differs at address %X (%d bytes, expected %d): %s expected %s" % (c[0] + i, len(got), len(out), got[i & ~3:i + 12].hex(), out[i & ~3:i + 12].hex()))
        if c[8]:
            t = r.read("s.txt").decode("utf-8", "replace").lower().replace("\r", "").split("\n")
            for a, n in listing:
                if ("%08X %s" % (a & 0xFFFFFFFF, n)).lower() not in t: raise Fail("symbol file lacks %08X %s: %r" % (a, n, t[:20]))
        return 1 + nr, [repr(c)] if nr or listing else [], files["a.asm"]

    def render(self, c):
        files, out, bad, listing, nr = self.program(c)
        return {"files": {k: v if isinstance(v, str) else v.hex() for k, v in files.items()}, "objects": repr(c[3]), "expected": "error: %s" % bad if bad else out.hex()}

CHECK = C23()
