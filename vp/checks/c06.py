from ..core import Check, Fail
import struct, re

M1 = 0xA5C3000000000000   # label markers
M2 = 0xB6D4000000000000   # reference markers

class Gen:
    """Generates main.asm plus included files. Scope model:
    globals: one namespace; statics: per file; locals: per section (between two global or static labels or position changes)."""
    def __init__(self, s):
        self.s = s
        self.arch = s.pick([".psx", ".gba", ".thumb", ".saturn", ".n64"])
        self.big = self.arch in (".saturn", ".n64")
        self.base = s.pick([0x08000000, 0, 0x7F80, 0xFF00, 0x80010000])
        self.nsec = 0
        self.labels = []      # dict(scope key, name, id/value)
        self.refs = []        # (file, section, text name, add, ref id, wanted label or None)
        self.files = {}
        self.ng = 0
        self.pend = []        # placeholders to resolve: (file, lineindex, key)
        self.cl = []
        self.fileno = 0
        self.defs = {}        # key -> ("m", id) or ("v", value)
        self.uses = []        # (refid, fileno, section, kind, lineslist, idx)
        self.nid = 0; self.nref = 0
    def cas(self, n):
        k = self.s.below(4)
        return n if k < 2 else n.upper() if k == 2 else n.lower()
    def file(self, depth, name):
        s = self.s
        fno = self.fileno; self.fileno += 1
        L = []
        self.files[name] = L
        statn = []
        locn = [None]
        localdefs = set()
        insec = [0]
        def mark():
            self.nid += 1
            L.append(".d64 0x%X" % (M1 + self.nid))
            return ("m", self.nid)
        def define(key):
            self.defs[key] = mark()
        def newsec():
            self.nsec += 1
        def step(s):
            nonlocal L
            k = s.wpick([(4, "ref"), (3, "glob"), (3, "loc"), (2, "stat"), (2, "fill"), (2, "align"), (1, "org"), (1, "deflab"), (2, "var"), (1, "func"), (1, "inc"), (1, "ifdep"), (1, "chain")])
            if k == "glob":
                n = "Gl_%d" % self.ng; self.ng += 1
                newsec(); L.append(self.cas(n) + ":"); define(("g", n.lower()))
            elif k == "func":
                n = "Fn_%d" % self.ng; self.ng += 1
                newsec(); L.append(".func " + self.cas(n)); define(("g", n.lower())); L.append(".endfunc")
                newsec()
            elif k == "stat":
                n = "@st_%d" % len(statn)
                # same names occur in other files
                statn.append(n); newsec(); L.append(self.cas(n) + ":"); define(("s", fno, n))
            elif k == "loc":
                n = "@@lo_%d" % s.below(3)
                key = ("l", self.nsec, n)
                if key not in self.defs:
                    L.append(self.cas(n) + ":"); define(key)
            elif k == "deflab":
                n = "Dl_%d" % self.ng; self.ng += 1
                v = s.edgy(32)
                m = s.below(3)
                newsec()
                L.append(self.cas("gx_%d" % self.ng) + ":"); define(("g", "gx_%d" % self.ng)); newsec()
                L.append(".definelabel %s,%d" % (self.cas(n), v)); self.defs[("g", n.lower())] = ("v", v); newsec()
                L.append(self.cas("gy_%d" % self.ng) + ":"); define(("g", "gy_%d" % self.ng))
            elif k == "ref":
                self.nref += 1
                L.append(".d64 0x%X" % (M2 + self.nref))
                self.uses.append((self.nref, fno, self.nsec, L, len(L))); L.append(None)
            elif k == "fill": L.append(".fill %d" % s.below(20))
            elif k == "align": L.append(".align %d" % (1 << s.below(6)))
            elif k == "org":
                newsec(); L.append(".org (org() + %d) & ~3" % s.int(4, 40)); newsec()
            elif k == "var":
                L.append(".align 4")
                self.uses.append((None, fno, self.nsec, L, len(L))); L.append(None)
            elif k == "ifdep":
                a = "Bk_%d" % self.ng; self.ng += 1
                n = s.below(10); m = s.below(10)
                newsec(); newsec()
                L.extend([".if %se - %sb > %d" % (a, a, m), ".fill %s" % s.pick(["3", "%se-%sb" % (a, a)]), ".else", ".fill 8", ".endif",
                          a + "b:", ".fill %d" % n, a + "e:"])
                newsec()
                L.append("gz_%d:" % self.ng); define(("g", "gz_%d" % self.ng)); self.ng += 1
            elif k == "chain":
                # sizes that depend on later (or earlier) sizes need one pass per link
                p = "Ch_%d_" % self.ng; self.ng += 1
                n = s.int(1, 6)
                wrap = s.wpick([(2, None), (3, "else"), (3, "if"), (1, "area"), (1, "func"), (1, "elseif"), (1, "nest")])
                newsec(); L.append(p + "s:")
                if wrap == "else": L += [".if %ss > 0x7FFFFFFFFFFF" % p, ".byte 1", ".else"]
                elif wrap == "if": L += [".if %s > 0" % s.pick([p + "t+1-" + p + "t", p + "s+1-" + p + "s"])]
                elif wrap == "elseif": L += [".ifdef Nowhere_at_all", ".byte 3", ".elseif %st > %ss - 1" % (p, p)]
                elif wrap == "nest": L += [".ifndef Nowhere_at_all", ".if %ss < 0" % p, ".else"]
                elif wrap == "area": L += [".area 0x400"]
                elif wrap == "func": L += [".func %sf" % p]; newsec()
                order = s.shuffle(range(n + 1))
                for i in order:
                    newsec(); newsec()
                    sz = str(s.below(4)) if i == n else "(%s%db-%s%da)+%d" % (p, i + 1, p, i + 1, s.below(3))
                    L += ["%s%da:" % (p, i), ".fill " + sz, "%s%db:" % (p, i)]
                    if s.bool(0.5): newsec(); L.append("gw_%d:" % self.ng); define(("g", "gw_%d" % self.ng)); self.ng += 1
                L += {"else": [".endif"], "if": [".endif"], "elseif": [".endif"], "nest": [".endif", ".endif"], "area": [".endarea"], "func": [".endfunc"]}.get(wrap, [])
                newsec(); L.append(p + "t:"); newsec()
                L.append("gv_%d:" % self.ng); define(("g", "gv_%d" % self.ng)); self.ng += 1
            elif k == "inc":
                if depth >= 2 or len(self.files) > 4: return
                fn = "i%d.asm" % len(self.files)
                L.append('.include "%s"' % fn)
                self.file(depth + 1, fn)
        s.many(step, 2 if depth else 4, 10 if depth else 24)
    def build(self):
        s = self.s
        if s.bool(0.3):
            self.cl = []
            for i in range(s.int(1, 2)):
                v = s.below(1 << 31); n = "Cl_%d" % i
                self.cl += ["-definelabel", self.cas(n), s.pick(["%d", "0x%x"]) % v]
                self.defs[("g", n.lower())] = ("v", v)
                self.nsec += 1
        self.file(0, "a.asm")
        # resolve uses
        self.expect = []
        globs = sorted(k for k in self.defs if k[0] == "g")
        for ref, fno, sec, L, idx in self.uses:
            cand = []
            st = sorted(k for k in self.defs if k[0] == "s" and k[1] == fno)
            lo = sorted(k for k in self.defs if k[0] == "l" and k[1] == sec)
            for pool, w in ((globs, 3), (st, 3), (lo, 5)):
                if pool: cand.append((w, pool))
            if not cand:
                L[idx] = ".byte 0" if ref is None else ".d32 0"
                if ref is not None: self.expect.append((ref, ("v", 0), 0))
                continue
            key = s.pick(s.wpick(cand))
            if ref is None and self.defs[key][0] == "v" and not 0 <= self.defs[key][1] < 1 << 31:
                L[idx] = ".byte 0"; continue
            nm = self.cas(key[-1])
            if ref is None:
                if self.arch in (".psx", ".n64"): L[idx] = s.pick(["li a0,%s", "la t1,%s", "sw a0,%s"]) % nm
                elif self.arch == ".gba": L[idx] = "ldr r%d,=%s" % (s.below(8), nm)
                elif self.arch == ".thumb": L[idx] = "ldr r%d,=%s" % (s.below(8), nm)
                else: L[idx] = ".d32 %s" % nm
                continue
            add = s.wpick([(3, 0), (1, s.int(-20, 20))])
            L[idx] = ".d32 " + (nm if add == 0 else "%s%+d" % (nm, add))
            self.expect.append((ref, self.defs[key], add))
        head = {".thumb": [".gba", ".thumb"], ".gba": [".gba", ".arm"]}.get(self.arch, [self.arch])
        tail = ([".align 4", ".pool"] if self.arch in (".gba", ".thumb") else []) + [".close"]
        self.files["a.asm"][:0] = head + ['.create "o.bin",0x%X' % self.base]
        self.files["a.asm"].extend(tail)

class C06(Check):
    ID = "C06"
    RULE = "a program with at least 3 label references, or an invalid-scope program; distinct = distinct program text"
    QUICK, THOROUGH = 100000, 2000000
    QUICK_S, THOROUGH_S = 90, 1500

    def gen(self, s):
        g = Gen(s); g.build()
        bad = None
        if s.bool(0.25): bad = self.bad(s, g)
        return dict(files={k: "\n".join(v) + "\n" for k, v in g.files.items()}, args=["a.asm"] + g.cl, base=g.base, big=g.big, expect=g.expect, bad=bad)

    def bad(self, s, g):
        """one statement making the program invalid"""
        fn = s.pick(sorted(g.files)); L = g.files[fn]
        A = g.files["a.asm"]
        k = s.below(8)
        ins = lambda f, x: g.files[f].insert(len(g.files[f]) - (1 if f == "a.asm" else 0), x)
        globs = [key for key, d in g.defs.items() if key[0] == "g"]
        if k == 0: ins(fn, ".d32 Nowhere_1"); return "undefined global"
        if k == 1 and globs:
            n = s.pick(sorted(globs))[1]; ins(fn, g.cas(n) + ":"); return "duplicate global " + n
        if k == 2 and globs:
            n = s.pick(sorted(globs))[1]; ins(fn, ".definelabel %s,5" % g.cas(n)); return "duplicate definelabel " + n
        if k == 3:
            # local label outside its section
            ins(fn, "Zq_a:"); ins(fn, "@@zl:"); ins(fn, s.pick(["Zq_b:", "@zq_c:", ".org org()", ".definelabel Zq_d,0\nZq_e:"])); ins(fn, ".d32 @@zl"); return "local out of scope"
        if k == 4:
            others = [f for f in g.files if f != fn]
            if others:
                ins(s.pick(sorted(others)), "@only_there:"); ins(fn, ".d32 @only_there"); return "static of another file"
        if k == 5: ins(fn, "@dups:"); ins(fn, ".d32 1"); ins(fn, "@DUPS:"); return "duplicate static"
        if k == 6: ins(fn, "Zr_a:"); ins(fn, "@@dupl:"); ins(fn, ".d32 1"); ins(fn, "@@Dupl:"); return "duplicate local"
        if k == 7 and g.cl: ins(fn, g.cl[1].lower() + ":"); return "duplicate of -definelabel"
        ins(fn, ".d32 @nostatic"); return "undefined static"

    def render(self, case): return {"files": case["files"], "args": case["args"], "bad": case["bad"], "expect": case["expect"]}

    def run(self, case, env):
        r = env.run(case["files"], case["args"])
        if case["bad"]:
            if r.rc != 1 or not r.errors(): raise Fail("%s accepted: rc=%d %s" % (case["bad"], r.rc, r.text[:300]))
            return 1, [tuple(sorted(case["files"].items()))], None
        if r.rc:
            if "infinite validation loop" in r.text: return 1, [], None
            raise Fail("valid program rejected: %s" % r.text[:500])
        out = r.read("o.bin")
        end = ">" if case["big"] else "<"
        def find(v):
            pat = struct.pack(end + "Q", v)
            i = out.find(pat)
            if i < 0: raise Fail("marker %X not found" % v)
            return i
        for ref, d, add in case["expect"]:
            i = find(M2 + ref) + 8
            got = struct.unpack(end + "I", out[i:i + 4])[0]
            exp = d[1] if d[0] == "v" else case["base"] + find(M1 + d[1])
            if got != (exp + add) & 0xFFFFFFFF:
                raise Fail("reference %d: got 0x%X expected 0x%X+%d" % (ref, got, exp, add))
        n = len(case["expect"])
        return max(n, 1), [tuple(sorted(case["files"].items()))] if n >= 3 else [], case["files"]["a.asm"][:300]

CHECK = C06()
