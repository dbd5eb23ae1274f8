import struct
from ..core import Check, Fail
from .. import elf as X
from ..elf import Sec, Seg

ARCH = {".psp": False, ".n64": True}
STACK = 0x6474e551

class Bad(Exception): pass

class Exe:
    """abstract executable: what a loader or a debugger sees, plus the file offsets"""
    def __init__(self, d):
        p = X.parse(d); self.p = p
        self.mem = [bytearray(b) for _, b in p.segs]
        self.va = [h[2] for h, _ in p.segs]; self.off = [h[1] for h, _ in p.segs]
    def at(self, a):
        for i, m in enumerate(self.mem):
            if self.va[i] <= a < self.va[i] + len(m): return i
    def phys(self, p):
        for i, m in enumerate(self.mem):
            if self.off[i] <= p < self.off[i] + len(m): return self.va[i] + p - self.off[i]
    def pos(self, a):
        """file position of an address, also of one behind a segment"""
        i = self.at(a)
        if i is None: i = next((i for i, m in enumerate(self.mem) if m and self.va[i] + len(m) == a), None)
        return None if i is None else self.off[i] + a - self.va[i]
    def put(self, a, bs):
        for k, b in enumerate(bs):
            i = self.at(a + k)
            if i is None: raise Bad("late: write across a gap" if self.pos(a + len(bs)) is not None else "write to %X" % (a + k))
            self.mem[i][a + k - self.va[i]] = b

class C20(Check):
    ID = "C20"
    RULE = "a session that writes at least one byte, or a program that has to be rejected; distinct = (executables, sessions)"
    QUICK, THOROUGH = 60000, 1200000
    QUICK_S, THOROUGH_S = 90, 1500
    ASSUMPTIONS = ["segments do not overlap in memory or in the file, and sections lie inside one segment or outside all", "file positions (.orga, orga()) refer to the layout of the loaded file",
                   "file offsets, padding and bytes outside of all headers, segments and sections may change when the file is saved"]

    def gen(self, s):
        arch = s.pick([".psp", ".psp", ".psp", ".n64"])
        exes = s.many(lambda s: self.exe(s), 1, 2)
        fault = s.pick([None] * 9 + ["missing", "etype", "dir"])
        return (arch, exes, s.many(lambda s: self.session(s, len(exes)), 1, 3), fault, s.bool(0.2))

    def exe(self, s):
        def seg(s):
            def sec(s): return (s.below(5), s.pick([1, 4, 4, 16, 64]), s.pick([0, 4, 8, 12, 7, 32]), s.pick([0, 0, 0, 3, 16]), s.below(256))
            return (s.wpick([(6, "load"), (1, "empty"), (1, "note")]), s.many(sec, 0, 4, 0.75), s.pick([0, 0, 5, 16]), s.pick([0, 0, 0x40]), s.pick(["zero", "vaddr", "sec"]), s.pick([16, 16, 4, 0, 0x40, 0x1000]), s.below(8), s.pick([0x1000, 0, 0x10, 0x7F0]))
        return (s.pick([0x08804000, 0x1000, 0x80000400, 0]), s.many(seg, 1, 3), s.bool(0.3), s.many(lambda s: (s.pick([".comment", ".debug_info", ".symtab2", ".pdr", ".bss2"]), s.pick([1, 4, 0, 32]), s.pick([0, 5, 16, 33])), 0, 3),
                s.shuffle(["ph", "sh", "seg", "free"]) if s.bool(0.5) else ["ph", "seg", "free", "sh"], s.pick([0, 0, 3, 20]), s.bool(0.15), s.pick([32, 32, 40]), s.pick([40, 40, 48]), s.bool(0.9), s.pick([b"", b"trailer"]), s.bool(0.2), s.bool(0.3))

    def session(self, s, n):
        def op(s):
            k = s.wpick([(4, "org"), (2, "orga"), (6, "data"), (1, "fill"), (1, "skip"), (1, "align"), (2, "where"), (1, "outname"), (0.15, "badorg"), (0.15, "badorga"), (0.15, "over"), (1, "tail")])
            return (k, s.below(1 << 16), s.below(1 << 16), s.pick([1, 2, 4, 8]))
        return (s.below(n), s.pick([None, "out.elf", "out2.elf"]), s.bool(0.9), s.many(op, 0, 8, 0.8))

    def elf(self, arch, e):
        base, segs, desc, free, order, gap, hdr, pe, se, shd, trailer, inter, two = e
        G = []; a = base
        for i, (kind, secs, tail, bss, pa, al, fl, gapm) in enumerate(segs):
            if kind == "empty": G.append(Seg(0, [], b"", 0, STACK, 6, 16)); continue
            S = []
            for j, (nm, sal, n, pad, seed) in enumerate(secs):
                S.append((Sec("." + ["text", "data", "rodata", "lib.stub", "sdata"][nm] + (".%d%d" % (i, j) if nm else ""), 1, 2 | nm, sal, bytes((seed * 7 + k * (seed | 1) + 1) & 255 for k in range(n))), b"\xCC" * pad))
            t = bytes((k * 5 + 0x81) & 255 for k in range(tail))
            if bss and not tail: S.append((Sec(".bss.%d" % i, X.NOBITS, 3, 4, b"", bss), b""))
            if two and S and i == 0: S.insert(1, (Sec(".empty", 1, 2, 4, b""), b""))
            G.append(Seg(a, S, t, bss, 4 if kind == "note" else 1, fl, al, len(S) - 1 if pa == "sec" and S else "zero" if pa == "sec" else pa))
            n = sum(len(x.data) + len(p) for x, p in S) + tail
            if hdr and i == 0: n += 600
            a += n + gapm
        if desc: G = G[::-1]
        hdr_ = hdr and not desc and G[0].type != STACK and order[order.index("seg") - 1] == "ph" and order.index("seg") <= 1
        F = [Sec(n, X.NOBITS if n == ".bss2" else 1, 0, al, b"" if n == ".bss2" else bytes((k * 3 + 7) & 255 for k in range(z)), z) for n, al, z in free]
        return X.executable("mips", ARCH[arch], G, F, order, base, 0x10A23001, gap, hdr_, pe, se, shd, trailer, interleave=inter)

    def program(self, c):
        arch, exes, sess, fault, temp = c
        E = "big" if ARCH[arch] else "little"
        files = {"in%d.elf" % i: self.elf(arch, e) for i, e in enumerate(exes)}
        fs = {n: Exe(d) for n, d in files.items()}; rewritten = set(); bad = None; unspec = False; used = set(); nw = 0
        L = [arch]; first = []
        for q, (n, outn, setorg, ops) in enumerate(sess):
            nm = "in%d.elf" % n
            x = Exe(files[nm]); src = fs[nm]
            x.mem = [bytearray(m) for m in src.mem]
            moved = nm in rewritten
            ok = [i for i, m in enumerate(x.mem) if m]
            if not ok: continue
            L.append('.loadelf "%s"' % nm + (',"%s"' % outn if outn else ""))
            a = x.va[ok[0]]; first.append(a)
            for k, u, v, w in ops:
                i = ok[u % len(ok)]; ln = len(x.mem[i])
                try:
                    if k == "orga" and moved: k = "org"
                    if k == "org": a = x.va[i] + v % ln; L.append(".org 0x%X" % a)
                    elif k == "tail":          # the last bytes of a segment
                        m = min(ln, w); a = x.va[i] + ln - m; bs = bytes((v >> j) & 255 for j in range(m))
                        L += [".org 0x%X" % a, ".byte " + ",".join(map(str, bs))]; x.put(a, bs); a += m; nw += m
                    elif k == "orga": p = x.off[i] + v % ln; a = x.phys(p); L.append(".orga 0x%X" % p)
                    elif k == "data":
                        bs = (u * 0x10001 * (v | 1) & (1 << 8 * w) - 1).to_bytes(w, E); L.append("%s 0x%X" % ({1: ".byte", 2: ".halfword", 4: ".word", 8: ".doubleword"}[w], int.from_bytes(bs, E)))
                        x.put(a, bs); a += w; nw += w
                    elif k == "fill": m = u % 40 + 1; L.append(".fill %d,%d" % (m, v & 255)); x.put(a, bytes([v & 255]) * m); a += m; nw += m
                    elif k == "skip":
                        m = u % 20; L.append(".skip %d" % m); a += m
                        if x.pos(a) is None: raise Bad("skip")
                    elif k == "align": m = -a % (1 << w.bit_length()); L.append(".align %d,%d" % (1 << w.bit_length(), v & 255)); x.put(a, bytes([v & 255]) * m); a += m; nw += m
                    elif k == "where":
                        if moved or x.pos(a) is None: continue
                        if x.pos(a) != x.pos(a + 8) - 8 if x.pos(a + 8) is not None else True: continue
                        L.append(".word org(),orga()"); bs = a.to_bytes(4, E) + x.pos(a).to_bytes(4, E); x.put(a, bs); a += 8; nw += 8
                    elif k == "outname":
                        t = (outn or nm).encode(); L.append(".ascii outputname()"); x.put(a, t); a += len(t); nw += len(t)
                    elif k == "badorg":
                        a = max(x.va[j] + len(m) for j, m in enumerate(x.mem)) + 1 + v % 64; L.append(".org 0x%X" % a); raise Bad("org")
                    elif k == "badorga":
                        p = len(files[nm]) + v % 64; L.append(".orga 0x%X" % p); raise Bad("orga")
                    elif k == "over":
                        m = ln + 1 + u % 8; a = x.va[i]; L += [".org 0x%X" % a, ".fill %d,%d" % (m, v & 255)]; x.put(a, bytes([v & 255]) * m); a += m
                except Bad as b: bad = bad or str(b); break
            L.append(".close")
            out = outn or nm; y = Exe(files[nm]); y.mem = x.mem; fs[out] = y; used.add(out)
            if out == nm: rewritten.add(nm)
        if fault == "missing": L += ['.loadelf "nothere.elf"', ".close"]; bad = bad or fault
        elif fault == "etype":
            for ty in (1, 0xFFA0): files["o.elf"] = files["in0.elf"][:16] + struct.pack(">H" if ARCH[arch] else "<H", ty) + files["in0.elf"][18:]
            L += ['.loadelf "o.elf"', ".close"]; bad = bad or fault
        elif fault == "dir": L += ['.loadelf "in0.elf","nodir/out.elf"', ".close"]; bad = bad or fault
        files["a.asm"] = "\n".join(L) + "\n"
        return files, fs, used, bad, first, nw

    def run(self, c, env):
        if c[0] == "unmapped": return self.run_unmapped(c, env)
        files, fs, used, bad, first, nw = self.program(c)
        r = env.run(files, ["a.asm"] + (["-temp", "t.txt"] if c[4] else []))
        if bad:
            if r.rc != 1 or not r.errors(): raise Fail("accepted in spite of %s: rc=%d %s" % (bad, r.rc, r.text[:300]))
            for n, d in files.items():
                if n != "a.asm" and r.read(n) != d and "late" not in bad: raise Fail("%s changed in spite of the error" % n)
            if "late" not in bad:
                for n in ("out.elf", "out2.elf"):
                    if r.read(n) is not None: raise Fail("%s written in spite of the error" % n)
            return 1, [repr(c)], files["a.asm"]
        if r.rc or "error" in r.text or "warning" in r.text: raise Fail("rejected: rc=%d %s" % (r.rc, r.text[:400]))
        for n in sorted(set(files) | used):
            got = r.read(n)
            if n not in used:
                if n != "a.asm" and got != files[n]: raise Fail("%s changed" % n)
                continue
            if got is None: raise Fail("%s not written" % n)
            self.compare(n, got, fs[n])
        if c[4] and first:
            t = r.read("t.txt").decode("utf-8", "replace")
            have = [l for l in t.split("\n") if ".loadelf " in l and not l.strip().startswith(";")]
            if [l[:8] for l in have] != ["%08X" % a for a in first]: raise Fail("temp file: %r, expected addresses %s" % (have, ["%08X" % a for a in first]))
        return 1 + nw, [repr(c)] if nw else [], files["a.asm"]

    def compare(self, n, got, x):
        try: p = X.parse(got)
        except ValueError as e: raise Fail("%s: %s" % (n, e))
        o = x.p
        for f in ("ident", "type", "machine", "version", "entry", "flags", "ehsize", "phentsize", "shentsize", "shstrndx"):
            if getattr(p, f) != getattr(o, f): raise Fail("%s: %s is %r, was %r" % (n, f, getattr(p, f), getattr(o, f)))
        if len(p.segs) != len(o.segs) or len(p.secs) != len(o.secs): raise Fail("%s: %d segments, %d sections, expected %d, %d" % (n, len(p.segs), len(p.secs), len(o.segs), len(o.secs)))
        e = 0
        for a, z, w in p.spans:
            if a < e: raise Fail("%s: %s overlaps its predecessor: %r" % (n, w, p.spans))
            e = a + z
        for i, ((h, d), (g, _)) in enumerate(zip(p.segs, o.segs)):
            if h[0:1] + h[2:3] + h[4:] != g[0:1] + g[2:3] + g[4:]: raise Fail("%s: program header %d is %r, was %r" % (n, i, h, g))
            if d != bytes(x.mem[i]): raise Fail("%s: segment %d is %s, expected %s" % (n, i, d.hex(), x.mem[i].hex()))
            # PSP: p_paddr may be the file offset of the module info section and then has to follow it
            at = [j for j, (s, sd, _) in enumerate(o.secs) if j and g[3] and s[4] == g[3]]
            if len(at) == 1 and g[3] != g[2] and g[1] <= g[3] < g[1] + g[4] and o.secs[at[0]][0][5] and o.secs[at[0]][1] is not None:
                if h[3] != p.secs[at[0]][0][4]: raise Fail("%s: p_paddr of segment %d is %X, expected the offset of section %d" % (n, i, h[3], at[0]))
            elif not at and h[3] != g[3] and g[3] != g[1]: raise Fail("%s: p_paddr of segment %d is %X, was %X" % (n, i, h[3], g[3]))
        for i, ((h, d, nm), (g, od, on)) in enumerate(zip(p.secs, o.secs)):
            if i == 0: continue
            if h[:4] + h[5:] != g[:4] + g[5:] or nm != on: raise Fail("%s: section header %d is %r %r, was %r %r" % (n, i, h, nm, g, on))
            if od is None: continue
            own = next((k for k, (s, _) in enumerate(o.segs) if s[1] <= g[4] and g[4] + g[5] <= s[1] + s[4] and s[4]), None)
            if own is not None and g[5]:
                if h[4] - p.segs[own][0][1] != g[4] - o.segs[own][0][1]: raise Fail("%s: section %d moved inside its segment" % (n, i))
            elif d != od: raise Fail("%s: section %d is %s, expected %s" % (n, i, d.hex(), od.hex()))

    # ---- known finding: sections without an address
    def explicit(self): return [("unmapped", "unmapped")]
    def run_unmapped(self, c, env):
        f = Sec(".extra", 1, 0, 4, b"ABCDEFGH")
        d = X.executable("mips", False, [Seg(0x1000, [(Sec(".text", 1, 6, 4, bytes(16)), b"")])], [f], ["ph", "seg", "free", "sh"], 0x1000)
        pos = d.index(b"ABCDEFGH")
        r = env.run({"in.elf": d, "a.asm": '.psp\n.loadelf "in.elf","out.elf"\n.orga 0x%X\n.byte "x"\n.close\n' % (pos + 2)})
        if r.rc == 1 and "Not inside a mapped section" in r.text and r.read("out.elf") is None: raise Fail("sections outside of all segments cannot be written through .orga", tag="unmapped-section")
        if r.rc: raise Fail("rejected: %s" % r.text)
        p = X.parse(r.read("out.elf"))
        if p.secs[2][1] != b"ABxDEFGH": raise Fail("unmapped section is %r" % p.secs[2][1])
        return 1, ["unmapped"], None

    def render(self, c):
        if c[0] == "unmapped": return repr(c)
        files, fs, used, bad, first, nw = self.program(c)
        return {"files": {k: v if isinstance(v, str) else v.hex() for k, v in files.items()}, "expected": bad or "success", "case": repr(c)}

CHECK = C20()
