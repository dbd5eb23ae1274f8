from ..core import Check, Fail
import struct

MK = 0xC7E5000000000000

class Block:
    __slots__ = ("id", "size", "min", "max", "var", "bytes", "file")

class Gen:
    def __init__(self, s):
        self.s = s
        self.nb = 0
        self.blocks = []
        self.regions = []     # (file, addr, size, usage, fill|None)
        self.areas = []       # every area and region: (file, addr, size, content size, fill)
        self.writes = []      # (file, addr, bytes) plain content and fills are derived
        self.refs = []        # (file, addr, block id)
        self.var = False
        self.nested = False
    def data(self, n):
        b = self.s.bytes(n)
        return b
    def emit(self, L, b):
        if b: L.append(".byte " + ",".join(str(x) for x in b))
    def auto(self, L):
        s = self.s
        b = Block(); self.nb += 1; b.id = self.nb; b.file = self.file
        n = s.wpick([(3, 8), (2, 8 + s.below(8)), (2, 8 + s.below(40)), (1, 8 + s.below(150))])
        extra = self.data(n - 8)
        b.bytes = struct.pack("<Q", MK + b.id) + extra
        b.min = b.max = None
        k = s.wpick([(5, 0), (1, 1), (2, 2)])
        base = self.base
        if k:
            b.min = base + s.below(0x400)
            if k == 2: b.max = b.min + s.below(0x300)
        b.var = s.bool(0.1)
        head = ".autoregion" + ("" if b.min is None else " 0x%X" % b.min) + ("" if b.max is None else ",0x%X" % b.max)
        L.append(head); L.append("blk_%d:" % b.id); L.append(".d64 0x%X" % (MK + b.id)); self.emit(L, extra)
        if b.var:
            self.var = True
            L.append(s.pick([".align 16", ".if blk_%d & 4\n.byte 0x99\n.endif" % b.id, ".if blk_%d > 0x%X\n.fill 5,0x99\n.endif" % (s.int(1, self.nb), base + 0x100)]))
        L.append(".endautoregion")
        self.blocks.append(b)
    def content(self, L, addr, maxn, depth=0, sub=True):
        """plain bytes with autoregions and references in between; returns size"""
        s = self.s; n = 0
        def step(s):
            nonlocal n
            k = s.wpick([(4, "b"), (2, "a"), (1, "ref"), (1, "area")])
            if k == "b":
                m = min(s.below(9), maxn - n)
                b = self.data(m); self.emit(L, b); self.writes.append((self.file, addr + n, b)); n += m
            elif k == "a" and sub: self.auto(L)
            elif k == "ref" and maxn - n >= 4 and self.nb:
                L.append(None); self.refs.append((self.file, addr + n, L, len(L) - 1)); n += 4
            elif k == "area" and depth < 2 and maxn - n >= 1:
                n += self.area(L, addr + n, maxn - n, depth + 1, False)
        s.many(step, 0, 5)
        return n
    def area(self, L, addr, maxsize, depth=0, region=False):
        """-> bytes the position advances"""
        s = self.s
        size = s.int(1, max(1, min(maxsize, 24))) if depth else maxsize
        fill = s.pick([None, None, 0, 0xFF, 0x5A, -1, 0x1FF])
        if depth: self.nested = True
        L.append((".region" if region else ".area") + s.pick([" %d", " 0x%X"]) % size + ("" if fill is None else ",%d" % fill))
        used = self.content(L, addr, size, depth)
        L.append(".endregion" if region else ".endarea")
        self.areas.append((self.file, addr, size, used, fill))
        if region: self.regions.append((self.file, addr, size, used, fill))
        return size if region or fill is not None else used
    def org(self, L, a, gap):
        """.org to a, or to a place before it that an earlier pass of the assembler does not get right"""
        s = self.s
        if s.bool(0.75): L.append(".org 0x%X" % a); return
        g = s.below(gap + 1)
        if g == 0 or s.bool(0.3):
            L.append(".org 0x%X+mv_%d" % (a - g, g)) 
        else:
            L += [".org 0x%X" % (a - g), s.pick([".skip mv_%d", ".skip mv_%d*(mv_0+1)"]) % g]
        self.moves |= {0, g}
    def build(self):
        s = self.s; self.moves = set(); self.crowd = False
        self.nfiles = s.wpick([(3, 1), (1, 2)])
        self.arch = s.pick([".psx", ".gba", ".nds"])
        out = [self.arch]
        self.inputs = {}
        self.bases = []
        self.init = []
        for f in range(self.nfiles):
            self.file = f
            self.base = s.pick([0, 0x8000000, 0x1000]); self.bases.append(self.base)
            if s.bool(0.6):
                bg = bytes((i * 37 + f) & 0xFF for i in range(0x600)); self.inputs["o%d.bin" % f] = bg
                out.append('.open "o%d.bin",0x%X' % (f, self.base)); self.init.append(bytearray(bg))
            else:
                out.append('.create "o%d.bin",0x%X' % (f, self.base)); self.init.append(bytearray())
            items = []
            addr = self.base
            def item(s):
                nonlocal addr
                L = []
                gap = s.below(20)
                a = addr + gap
                k = s.wpick([(3, "region"), (2, "def"), (2, "area"), (3, "code"), (1, "areacode"), (0 if self.crowd else 0.2, "crowd"), (0 if self.crowd else 0.1, "many")])
                if k in ("crowd", "many"):         # more blocks or regions than usual
                    self.crowd = True; n = s.pick([9, 12, 17, 18, 20, 24])
                    if k == "crowd":
                        size = s.int(n * 16, n * 38); L.append(".defineregion 0x%X,%d" % (a, size))
                        self.areas.append((f, a, size, 0, None)); self.regions.append((f, a, size, 0, None)); addr = a + size
                    else:
                        for _ in range(n):
                            size = s.int(8, 20); L.append(".defineregion 0x%X,%d" % (a, size))
                            self.areas.append((f, a, size, 0, None)); self.regions.append((f, a, size, 0, None)); a += size
                        addr = a
                    for _ in range(n): self.auto(L)
                    items.append(L); return
                if k == "code":
                    self.org(L, a, gap); n = self.content(L, a, 40); addr = a + n
                elif k == "def":
                    size = s.pick([s.int(1, 120), s.int(60, 300)]); fill = s.pick([None, 0x77, 0])
                    L.append(".defineregion 0x%X,%d%s" % (a, size, "" if fill is None else ",%d" % fill))
                    self.areas.append((f, a, size, 0, fill)); self.regions.append((f, a, size, 0, fill)); addr = a + size
                    n = self.content(L, addr, 12); addr += n
                elif k == "region":
                    size = s.pick([s.int(1, 150), s.int(80, 300)])
                    self.org(L, a, gap); self.area(L, a, size, 0, True); addr = a + size
                    n = self.content(L, addr, 12); addr += n
                else:
                    size = s.int(1, 60)
                    self.org(L, a, gap); n = self.area(L, a, size, 0, False)
                    m = self.content(L, a + n, 12) if k == "areacode" and n == size else 0
                    addr = max(a + size, a + n + m)
                items.append(L)
            s.many(item, 1, 7)
            for L in s.shuffle(items): out.append(L)
            out.append(".close")
        for g in sorted(self.moves): out.append(".definelabel mv_%d,%d" % (g, g))
        flat = []
        for x in out:
            if isinstance(x, list): flat.append(x)
            else: flat.append([x])
        for f, a, L, i in self.refs:
            b = s.pick(self.blocks) if self.blocks else None
            L[i] = ".d32 " + ("blk_%d" % b.id if b else "0")
            self.writes.append((f, a, ("ref", b.id if b else None)))
        self.lines = flat
    def order(self):
        """program order of blocks"""
        import re
        r = []
        for L in self.lines:
            for l in L:
                m = re.match(r"blk_(\d+):", l or "")
                if m: r.append(int(m.group(1)))
        return r

class C09(Check):
    ID = "C09"
    RULE = "a program with at least one area or region with content or an auto-allocated block, or an invalid arrangement; distinct = distinct program text"
    QUICK, THOROUGH = 80000, 2000000
    QUICK_S, THOROUGH_S = 90, 1500
    def gen(self, s):
        g = Gen(s); g.build()
        bad = None
        if s.bool(0.2): bad = self.bad(s, g)
        text = "\n".join("\n".join(L) for L in g.lines) + "\n"
        order = g.order()
        bl = {b.id: b for b in g.blocks}
        return dict(text=text, inputs=g.inputs, bases=g.bases, init=g.init, blocks=[bl[i] for i in order], regions=g.regions, areas=g.areas,
                    writes=g.writes, bad=bad, var=g.var, nested=g.nested)
    def bad(self, s, g):
        hi = g.bases[-1] + 0x1000
        n = s.int(1, 40); k = s.int(1, 9)
        big = s.int(1000, 3000)
        alt = [("area overflow", [".org 0x%X" % hi, ".area %d" % n, ".fill %d" % (n + k), ".endarea"]),
               ("area overflow by fill area", [".org 0x%X" % hi, ".area %d,0" % n, ".fill %d" % (n + k), ".endarea"]),
               ("region overflow", [".org 0x%X" % hi, ".region %d,0" % n, ".fill %d" % (n + k), ".endregion"]),
               ("nested area larger than parent", [".org 0x%X" % hi, ".area %d" % n, ".area %d,0" % (n + k), ".byte 1", ".endarea", ".endarea"]),
               ("area overflow via align", [".org 0x%X" % (hi + 1), ".area 3", ".byte 1", ".align 8", ".endarea"]),
               ("negative area size", [".org 0x%X" % hi, ".area -%d" % k, ".endarea"]),
               ("block too large", [".org 0x%X" % hi, ".autoregion", ".fill %d" % big, ".endautoregion"]),
               ("block out of range", [".org 0x%X" % hi, ".autoregion 0x%X" % (hi + 0x1000), ".byte 1", ".endautoregion"]),
               ("block out of range 2", [".org 0x%X" % hi, ".autoregion 0x%X,0x%X" % (hi + 0x100, hi + 0x200), ".byte 1", ".endautoregion"]),
               ("missing endarea", [".org 0x%X" % hi, ".area 10", ".byte 1"]),
               ("missing endautoregion", [".org 0x%X" % hi, ".defineregion 0x%X,100" % hi, ".autoregion", ".byte 1"]),
               ("extra endarea", [".endarea"]),
               ("file closed in area", [".org 0x%X" % hi, ".area 10", ".close", ".endarea"]),
               ("file created in region", [".org 0x%X" % hi, ".region 10", '.create "zz.bin",0', ".endregion"]),
               ("file closed in autoregion", [".defineregion 0x%X,10" % hi, ".autoregion", '.close', ".endautoregion"]),
               ("regions too small in sum", [".defineregion 0x%X,20" % hi] + [".autoregion 0x%X" % hi, ".fill 8", ".endautoregion"] * 3),
               ("undefined size", [".area undef_7", ".byte 1", ".endarea"]),
               ("string fill", ['.area 8,"x"', ".byte 1", ".endarea"])]
        if s.bool(0.15):
            # two areas whose contents overlap get a warning
            a, n1, n2 = g.bases[-1] + s.below(64), s.int(2, 40), s.int(1, 40)
            d = s.int(1, n1 - 1)
            f1, f2 = s.pick(["", ",0"]), s.pick(["", ",0"])
            one = [".org 0x%X" % a, s.pick([".area", ".region"]) + " %d%s" % (n1 + s.below(9), f1), ".fill %d,1" % n1, ".endarea"]
            two = [".org 0x%X" % (a + d), s.pick([".area", ".region"]) + " %d%s" % (n2 + s.below(9), f2), ".fill %d,2" % n2, ".endarea"]
            if s.bool(0.3):
                # (what a block in a region uses is content of the region)
                one = [".org 0x%X" % a, ".region %d%s" % (n1 + 8, f1), ".fill %d,1" % s.int(0, d), ".endregion", ".autoregion", ".fill %d,3" % n1, ".endautoregion"]
                two = [".org 0x%X" % (a + d), ".area %d" % n2, ".fill %d,2" % n2, ".endarea"]
            g.lines[:] = [[".psx", ".erroronwarning on", '.create "o0.bin",0x%X' % g.bases[-1]], *s.shuffle([one, two]), [".close"]]
            return "overlapping areas without a warning"
        n, x = s.pick(alt)
        i = max(i for i, l in enumerate(g.lines) if l == [".close"])
        g.lines.insert(i, x)
        return n
    def render(self, case): return {"text": case["text"], "bad": case["bad"], "inputs": sorted(case["inputs"])}
    def run(self, case, env):
        r = env.run({"a.asm": case["text"], **case["inputs"]})
        if case["bad"]:
            if r.rc != 1 or not (r.errors() or r.warnings()): raise Fail("%s accepted: rc=%d %s" % (case["bad"], r.rc, r.text[:300]))
            return 1, [case["text"]], None
        place = self.model(case)
        impossible = self.impossible(case)
        if r.rc:
            if r.rc != 1 or not r.errors(): raise Fail("rc=%d %s" % (r.rc, r.text[:300]))
            errs = r.errors()
            if case["var"] or place is None:
                if all("No space available" in e or "validation loop" in e or "Undefined label" in e or "Invalid expression" in e for e in errs): return 1, [], None
                raise Fail("rejected: " + r.text[:500])
            raise Fail("content that fits was rejected: %s" % r.text[:500])
        if impossible and not case["var"]: raise Fail("accepted although %s" % impossible)
        outs = [r.read("o%d.bin" % f) for f in range(len(case["bases"]))]
        for o in outs:
            if o is None: raise Fail("output missing")
        # where are the blocks
        pos = {}
        for b in case["blocks"]:
            pat = struct.pack("<Q", MK + b.id)
            i = outs[b.file].find(pat)
            if i < 0: raise Fail("block %d not in its file (or overwritten)" % b.id)
            a = i + case["bases"][b.file]
            pos[b.id] = a
            if outs[b.file][i:i + len(b.bytes)] != b.bytes: raise Fail("block %d at 0x%X is damaged" % (b.id, a))
            if b.min is not None and a < b.min: raise Fail("block %d at 0x%X below the requested range 0x%X" % (b.id, a, b.min))
            if b.max is not None and a > b.max: raise Fail("block %d at 0x%X above the requested range 0x%X" % (b.id, a, b.max))
            if not any(f == b.file and ra + used <= a and a + len(b.bytes) <= ra + size for f, ra, size, used, fill in case["regions"]):
                raise Fail("block %d at 0x%X is not in the free part of a region" % (b.id, a))
        bs = sorted((b.file, pos[b.id], len(b.bytes), b.id) for b in case["blocks"])
        for x, y in zip(bs, bs[1:]):
            if x[0] == y[0] and x[1] + x[2] > y[1]: raise Fail("blocks %d and %d overlap" % (x[3], y[3]))
        # everything else
        for f, o in enumerate(outs):
            base = case["bases"][f]
            exp = bytearray(case["init"][f]); free = set()
            def put(a, b):
                i = a - base
                if i + len(b) > len(exp): exp.extend(b"\0" * (i + len(b) - len(exp)))
                exp[i:i + len(b)] = b
            # an inner area lies in its parent's content, so the fills of different areas are disjoint
            for ff, a, size, used, fill in case["areas"]:
                if ff != f: continue
                rest = [(a + used, size - used)]
                inb = [(pos[b.id], len(b.bytes)) for b in case["blocks"] if b.file == f and a + used <= pos[b.id] < a + size]
                if fill is not None:
                    put(a + used, bytes([fill & 0xFF]) * (size - used))
                if inb:
                    # blocks may keep the position of an earlier pass: a gap between the content and the last block is
                    # unspecified (with variable-size blocks, also their padding)
                    hi = max(p + l for p, l in inb) + (32 if case["var"] else 0)
                    free.update(range(a + used - base, min(hi, a + size) - base))
            for b in case["blocks"]:
                if b.file == f: put(pos[b.id], b.bytes)
            for ff, a, b in case["writes"]:
                if ff != f: continue
                if isinstance(b, tuple): b = struct.pack("<I", pos[b[1]] & 0xFFFFFFFF if b[1] else 0)
                if b: put(a, b)
            for b in case["blocks"]:
                if b.file == f and not b.var: free.difference_update(range(pos[b.id] - base, pos[b.id] - base + len(b.bytes)))
            o = bytearray(o)
            if len(o) != len(exp) and not (case["var"] and len(o) > len(exp)) : raise Fail("file %d has %d bytes, expected %d" % (f, len(o), len(exp)))
            for i in range(len(exp)):
                if o[i] != exp[i] and i not in free:
                    raise Fail("file %d: byte at 0x%X is %02x, expected %02x" % (f, base + i, o[i], exp[i]))
        if not case["nested"] and r.warnings() : raise Fail("warning for disjoint areas: " + r.text[:300])
        n = len(case["blocks"])
        return 1 + n, [case["text"]] if n or case["areas"] else [], case["text"][:400]
    def model(self, case):
        """first fit in address order; None if something does not fit"""
        use = {}
        for f, a, size, used, fill in case["regions"]: use[(f, a)] = used
        regs = sorted(case["regions"])
        for b in case["blocks"]:
            for f, a, size, used, fill in regs:
                if f != b.file: continue
                p = a + use[(f, a)]
                if b.min is not None and p < b.min: continue
                if b.max is not None and p > b.max: continue
                if use[(f, a)] + len(b.bytes) <= size:
                    use[(f, a)] += len(b.bytes); break
            else: return None
        return True
    def impossible(self, case):
        for b in case["blocks"]:
            ok = False
            for f, a, size, used, fill in case["regions"]:
                if f != b.file: continue
                lo = a + used; hi = a + size - len(b.bytes)
                if b.min is not None: lo = max(lo, b.min)
                if b.max is not None: hi = min(hi, b.max)
                if lo <= hi: ok = True; break
            if not ok: return "block %d fits nowhere" % b.id
        for f in range(len(case["bases"])):
            need = sum(len(b.bytes) for b in case["blocks"] if b.file == f)
            have = sum(size - used for ff, a, size, used, fill in case["regions"] if ff == f)
            if need > have: return "the regions of file %d are too small" % f
        return None
CHECK = C09()
