from ..core import Check, Fail
import struct

ALL = ["o0.bin", "o1.bin", "sub/o2.bin"]
INS = ["in0.bin", "sub/in1.bin"]

def rnd_bytes(s, lo, hi):
    n = s.int(lo, hi)
    a, b = s.below(256), s.int(1, 37)
    return bytes((a + i * b) & 0xFF for i in range(n))

class C04(Check):
    ID = "C04"
    RULE = "a history is non-trivial when it opens at least one file and performs at least 3 further operations; distinct = distinct program text"
    QUICK, THOROUGH = 60000, 2000000
    QUICK_S, THOROUGH_S = 90, 1500
    ASSUMPTIONS = ["files reopened in place exist before the run (armips checks existence before writing anything)",
                   ".incbin sources are not outputs of the same run"]

    def gen(self, s):
        init = {n: rnd_bytes(s, 0, 200) for n in INS}
        if s.bool(0.04):                # more than the buffers of any implementation
            d = rnd_bytes(s, 1, 60); n = s.pick([511, 512, 513, 1024, 4095, 4096, 4097, 8192, 10000, 32769, 65535, 65536, 65537, 70001, 131073, 200000])
            init[s.pick(INS)] = bytes((d[i % len(d)] + (i >> 8) + (i >> 16)) & 255 for i in range(n))
        for n in ALL:
            if s.bool(0.6): init[n] = rnd_bytes(s, 0, 300)
        init["bystander.bin"] = rnd_bytes(s, 1, 20)
        files = {k: bytearray(v) for k, v in init.items()}
        arch = s.pick([".psp", ".gba", ".n64", ".saturn"])
        big = arch in (".n64", ".saturn")
        L = [arch]
        cur = [None, 0, 0]   # name, header, phys
        root = s.bool(0.15)
        def emit(data):
            f, _, p = cur[0], cur[1], cur[2]
            b = files[f]
            if data:
                if len(b) < p: b.extend(b"\0" * (p - len(b)))
                b[p:p + len(data)] = data
            cur[2] += len(data)
        def num(v):
            if v < 0: return "-0x%X" % -v
            return s.pick(["%d", "0x%X"]) % v
        def hdr(s):
            return s.wpick([(2, 0), (3, 0x08000000), (2, 0x8000F800), (2, s.below(0x1000)), (1, -s.below(64)), (1, s.edgy(40, False))])
        def step(s):
            opts = []
            if cur[0] is None: opts = [(4, "open"), (4, "create"), (4, "copy")]
            else:
                opts = [(6, "data"), (3, "org"), (3, "orga"), (2, "hs"), (2, "skip"), (3, "align"), (2, "aligna"), (3, "fill"), (3, "incbin"),
                        (3, "rep"), (2, "close"), (1, "reopen")]
            k = s.wpick(opts)
            if k == "reopen": k = s.pick(["open", "create", "copy"])
            if k in ("open", "create", "copy"):
                h = hdr(s)
                ex = [n for n in ALL if n in init]
                if k == "open" and ex:
                    n = s.pick(ex); L.append('%s "%s",%s' % (s.pick([".open", ".openfile"]), n, num(h)))
                elif k == "copy":
                    src = s.pick(INS + ex); dst = s.pick([x for x in ALL if x != src])
                    if src == cur[0] or dst == cur[0]: pass
                    L.append('%s "%s","%s",%s' % (s.pick([".open", ".openfile"]), src, dst, num(h)))
                    files[dst] = bytearray(files[src]); n = dst
                else:
                    n = s.pick(ALL); L.append('%s "%s",%s' % (s.pick([".create", ".createfile"]), n, num(h)))
                    files[n] = bytearray()
                cur[:] = [n, h, 0]
                return
            name, h, p = cur
            if k == "close":
                L.append(s.pick([".close", ".closefile"])); cur[0] = None
            elif k == "data":
                if s.bool(0.7):
                    d = s.bytes(s.int(1, 6)); L.append(".byte " + ",".join("%d" % x for x in d)); emit(d)
                else:
                    v = s.below(1 << 32); L.append(".d32 0x%X" % v); emit(v.to_bytes(4, "big" if big else "little"))
            elif k == "org":
                q = s.wpick([(4, s.below(400)), (1, s.below(3000)), (2, p)])
                L.append("%s %s" % (s.pick([".org", "org", ".org"]), num(h + q))); cur[2] = q
            elif k == "orga":
                q = s.wpick([(4, s.below(400)), (1, s.below(3000)), (2, len(files[name]))])
                L.append("%s %s" % (s.pick([".orga", "orga"]), num(q))); cur[2] = q
            elif k == "hs":
                nh = hdr(s)
                if p + nh < 0: nh = 0
                L.append(".headersize " + num(nh)); cur[1] = nh
            elif k == "skip":
                n = s.wpick([(4, s.below(40)), (1, s.below(300)), (1, -s.below(min(p, 50) + 1))])
                if h + p + n < 0: n = 0
                L.append(".skip " + num(n)); cur[2] += n
            elif k in ("align", "aligna"):
                a = 1 << s.wpick([(6, s.below(6)), (1, 7), (1, 8), (1, 9)])
                pos = h + p if k == "align" else p
                if pos < 0: return
                if s.bool(0.2): a, t = 4, "." + k
                else: t = ".%s %s" % (k, num(a))
                v = 0
                if "%s " % k in t and s.bool(0.5):
                    v = s.below(256) + s.pick([0, 0, 0x100, -256]); t += "," + num(v)
                L.append(t); emit(bytes([v & 255]) * (-pos % a))
            elif k == "fill":
                n = s.wpick([(5, s.below(20)), (2, 126 + s.below(5)), (2, 254 + s.below(5)), (1, 128 * s.below(5)), (1, s.below(600)), (0.1, s.pick([4095, 4097, 65535, 65537, 70000]))])
                v = 0
                t = "%s %s" % (s.pick([".fill", "defs"]), num(n))
                if s.bool(0.7):
                    v = s.below(256) + s.pick([0, 0, 0x1200, -256]); t += "," + num(v)
                L.append(t); emit(bytes([v & 255]) * n)
            elif k == "incbin":
                f = s.pick(INS); d = init[f]
                t = '%s "%s"' % (s.pick([".incbin", ".import"]), f)
                m = s.below(3)
                st, sz = 0, len(d)
                if m >= 1:
                    st = s.int(0, len(d)); sz = len(d) - st; t += "," + num(st)
                if m == 2:
                    sz = s.wpick([(6, s.int(0, len(d) - st)), (1, len(d) - st + s.below(20))]); t += "," + num(sz)
                L.append(t); emit(d[st:st + sz])
            elif k == "rep":
                fn, v = s.pick([("org()", h + p), ("orga()", p), ("headersize()", h), (".", h + p)])
                L.append(".d64 " + fn); emit((v & ((1 << 64) - 1)).to_bytes(8, "big" if big else "little"))
        s.many(step, 2, 30)
        bad = None
        if s.bool(0.12):
            bad = self.bad(s, cur, L, init)
        elif cur[0] is not None and s.bool(0.8):
            L.append(".close")
        return dict(src="\n".join(L) + "\n", init=init, exp={k: bytes(v) for k, v in files.items()}, bad=bad, root=root, n=len(L))

    def bad(self, s, cur, L, init):
        if cur[0] is None:
            k = s.pick([".byte 1", ".org 0x100", ".orga 4", ".skip 2", ".d32 5", ".fill 4", ".fill 3,1", ".align 4", ".aligna 8", '.incbin "in0.bin"', ".ascii \"a\"", ".asciiz \"\"", ".area 4\n.byte 1\n.endarea", ".float 1.0", ".d8 headersize()", ".notice org()", ".region 4\n.endregion",
                        ".string \"a\"", ".if orga()\n.endif", ".autoregion\n.byte 1\n.endautoregion", ".defineregion 0x100,4\n.autoregion\n.endautoregion"])
            L.append(k); return k
        k = s.pick([".orga -%d" % s.int(1, 100), ".org 0x%X" % (cur[1] - s.int(1, 100)) if cur[1] > 100 else ".orga -1",
                    ".align %d" % s.pick([3, 5, 6, 7, 12, 100]), ".aligna %d" % s.pick([3, 6, 9, 24]),
                    '.incbin "in0.bin",%d' % (len(init["in0.bin"]) + s.int(1, 9)), '.incbin "missing.bin"', '.open "missing.bin",0',
                    '.open "in0.bin","in0.bin",0', '.open "in0.bin","sub/../in0.bin",0', '.skip -%d' % (cur[2] + s.int(1, 30)), '.open "nodir/x.bin",0', '.create "nodir/x.bin",0',
                    '.fill -%d' % s.int(1, 70), '.fill -%d,5' % s.int(1, 70), '.incbin "in0.bin",-%d' % s.int(1, 9), '.incbin "in0.bin",0,-%d' % s.int(1, 9), '.incbin "in0.bin",-1,1', '.align -%d' % s.pick([1, 2, 4]), '.aligna -4'])
        L.append(k); L.append(".close")
        return k

    def render(self, case):
        return {"a.asm": case["src"], "bad": case["bad"], "root": case["root"], "files": case["init"]}

    def run(self, case, env):
        files = dict(case["init"])
        if case["root"]:
            pre = {"r/" + k: v for k, v in files.items()}
            pre["r/a.asm"] = case["src"]
            r = env.run(pre, ["a.asm", "-root", "r"])
            got = {k[2:]: v for k, v in r.snapshot().items() if k.startswith("r/")}
            extra = [k for k in r.snapshot() if not k.startswith("r/")]
            if extra: raise Fail("files created outside the root directory: %s" % extra)
        else:
            pre = dict(files); pre["a.asm"] = case["src"]
            r = env.run(pre, ["a.asm"])
            got = r.snapshot()
        got.pop("a.asm", None)
        if case["bad"]:
            if r.rc != 1 or not r.errors(): raise Fail("invalid directive accepted: %s (rc %d) %s" % (case["bad"], r.rc, r.text[:300]))
            exp = case["init"]
        else:
            if r.rc: raise Fail("valid history rejected: rc=%d %s" % (r.rc, r.text[:500]))
            exp = case["exp"]
        if set(got) != set(exp): raise Fail("file set differs: got %s expected %s" % (sorted(got), sorted(exp)))
        for k in exp:
            if got[k] != exp[k]:
                a, b = got[k], exp[k]
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                raise Fail("%s differs at offset 0x%X (sizes %d, expected %d): got %s expected %s" % (k, i, len(a), len(b), a[i:i + 16].hex(), b[i:i + 16].hex()))
        return case["n"], [case["src"]] if case["n"] >= 5 else [], case["src"][:400]

CHECK = C04()
