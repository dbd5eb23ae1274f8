from ..core import Check, Fail
import struct

class Gen:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.arch = s.pick([".psx", ".psx", ".gba", ".saturn", ".n64"]); self.E = ">" if self.arch in (".saturn", ".n64") else "<"
        self.fwd = [("fv_%d" % i, s.pick([0, 1, 2, 5, 100, -3, 0x80000000])) for i in range(s.int(1, 4))]
        self.bwd = [("bv_%d" % i, s.pick([0, 1, 2, 5, -1])) for i in range(s.int(0, 3))]
        self.cld = [("cl_%d" % i, s.below(3)) for i in range(s.below(2))]
        self.equs = {}
        self.lines = []
        self.out = bytearray()
        self.msgs = []         # (text, expected)
        self.defs = {}         # name -> address, defined by taken branches
        self.refs = []         # (offset, name)
        self.known = []        # names whose definedness is settled at parse time: (name, defined)
        self.macros = {}
        self.funcs = {}
        self.gone = []         # (kind, name): definitions of branches that were not taken
        self.files = {}
        self.nbranch = 0
        self.orgdep = 0     # depth of enclosing org() conditions: labels in there are not referred to, because
                            # the size of a data statement is 0 until its labels are known (cyclic program)
    def id(self): self.n += 1; return self.n
    # condition -> (text, value, const)
    def cond(self, depth=0):
        s = self.s
        k = s.wpick([(4, "c"), (4, "f"), (2, "b"), (2, "org"), (1, "eq"), (1, "str"), (1, "and"), (1, "or"), (1, "not")])
        if k == "eq" and not self.equs: k = "c"
        if k == "b" and not self.bwd + self.cld: k = "f"
        if k == "c":
            a, b = s.int(-3, 5), s.int(-3, 5)
            m = s.below(3)
            if m == 0: return (str(a), int(a != 0), True)
            op = s.pick(["==", "!=", "<", "<=", ">", ">="])
            return ("%d %s %d" % (a, op, b), int(eval("%d %s %d" % (a, op, b))), True)
        if k == "str":
            a, b = s.pick(["a", "b", "ab"]), s.pick(["a", "b"])
            op = s.pick(["==", "!="])
            return ('"%s" %s "%s"' % (a, op, b), int(eval("a %s b" % op)), True)
        if k == "eq":
            n = s.pick(sorted(self.equs)); v = self.equs[n]; b = s.int(0, 4)
            return ("%s > %d" % (n, b), int(v > b), True)
        if k in "fb":
            n, v = s.pick(self.fwd if k == "f" else self.bwd + self.cld)
            m = s.below(3)
            if m == 0: return (n, int(v != 0), False)
            b = s.int(-4, 6); op = s.pick(["==", "!=", "<", ">"])
            return ("%s %s %d" % (n, op, b), int(eval("%d %s %d" % (v, op, b))), False)
        if k == "org":
            b = s.pick([1, 2, 4, 8])
            return ("org() & %d" % b, int(((len(self.out)) & b) != 0), False)
        if depth > 1: return ("1", 1, True)
        a = self.cond(depth + 1)
        if k == "not": return ("!(%s)" % a[0], int(not a[1]), a[2])
        b = self.cond(depth + 1)
        if k == "and": return ("(%s) && (%s)" % (a[0], b[0]), int(a[1] and b[1]), a[2] and b[2])
        return ("(%s) || (%s)" % (a[0], b[0]), int(a[1] or b[1]), a[2] and b[2])
    def defcond(self):
        """.ifdef/.ifndef condition -> (directive, name, value)"""
        s = self.s
        neg = s.bool()
        names = [(n, True) for n, _ in self.fwd + self.bwd + self.cld] + [("never_1", False)] + self.known
        n, d = s.pick(names)
        self.gone = [x for x in self.gone if x[1] != n]
        return ("ifndef" if neg else "ifdef", s.pick([n, n.upper()]), int(d != neg))
    def anycond(self):
        if self.s.bool(0.3):
            d, n, v = self.defcond(); return (d, n, v, False)
        t, v, c = self.cond(); return ("if", t, v, c)
    # items: taken = is this branch assembled; const = every enclosing condition is a constant
    def item(self, taken, const, depth):
        s = self.s; L = self.lines
        k = s.wpick([(5, "b"), (4, "if"), (2, "lab"), (1, "msg"), (1, "dl"), (1, "equ"), (1, "mac"), (1, "err"), (1, "inc"), (1, "ref"), (1, "callm"), (1, "same"), (1, "fun"), (1, "callf"), (2, "redef"), (1, "state"), (1, "loc"), (1, "lcond")])
        if k == "b":
            v = [s.below(256) for _ in range(s.int(1, 3))]
            L.append(".byte " + ",".join(map(str, v)))
            if taken: self.out += bytes(v)
        elif k == "if" and depth < 6: self.block(taken, const, depth)
        elif k == "lab":
            n = "lb_%d" % self.id(); L.append(n + ":")
            if taken and not self.orgdep: self.defs[n] = len(self.out)
            if const: self.known.append((n, taken))
            if not taken and const: self.gone.append(("lab", n))
        elif k == "dl":
            n = "dl_%d" % self.id(); v = s.below(1000); L.append(".definelabel %s,%d" % (n, v))
            if taken and not self.orgdep: self.defs[n] = v - self.base
            if const: self.known.append((n, taken))
            if not taken and const: self.gone.append(("lab", n))
        elif k == "msg":
            t = "msg%dq" % self.id(); L.append('%s "%s"' % (s.pick([".notice", ".warning"]), t)); self.msgs.append((t, 1 if taken else 0))
        elif k == "err" and not taken:
            t = "msg%dq" % self.id(); L.append(s.pick(['.error "%s"', '.error "%s"', '.word undefined_label, "%s"', '.byte -1, 1/0 == "%s"', '.fill nolabel_%s']) % t); self.msgs.append((t, 0))
        elif k == "equ" and const:
            n = "eq_%d" % self.id(); v = s.int(0, 6); L.append("%s equ %d" % (n, v))
            if taken: self.equs[n] = v
            else: self.gone.append(("equ", n))
        elif k == "mac" and const:
            n = "mac_%d" % self.id(); v = s.below(256); L += [".macro " + n, ".byte %d" % v, ".endmacro"]
            if taken: self.macros[n] = v
            else: self.gone.append(("mac", n))
        elif k == "fun" and const:
            n = "fun_%d" % self.id(); v = s.below(100); L.append(".expfunc %s(a),a+%d" % (n, v))
            if taken: self.funcs[n] = v
            else: self.gone.append(("fun", n))
        elif k == "state" and const and not taken:
            L.append(s.pick([".n64", ".ps2", ".gba", ".saturn", ".nds", ".erroronwarning on", ".relativeinclude on", '.incbin "nofile"', '.include "nofile"', '.loadtable "nofile"', '.importobj "nofile"', '.importlib "nofile"', '.open "nofile",0', '.create "new.bin",0', ".close", ".org 0x123", ".headersize 5"]))
        elif k == "loc" and taken and const:
            n = "loc_%d" % self.id(); o = len(self.out); v = s.below(256)
            L += [n + ":", ".byte %d" % v, "@@l:", s.pick([".if 0", ".if 1 == 2", ".if 1\n.else", ".if 1\n.elseif 1"]), s.pick([n + "_x:", "@" + n + ":", ".definelabel " + n + "_y,5", ".gba", "@@l:"]), ".endif", ".d32 @@l", n + "_e:"]
            self.out.append(v); self.out += struct.pack(self.E + "I", (self.base + o + 1) & 0xFFFFFFFF)
        elif k == "lcond" and taken and const:
            # the names of a condition are looked up where it stands, whatever labels its blocks define
            i = self.id(); v, a, b = s.below(256), s.below(256), s.below(256); fwd = s.bool()
            L += ["lc_%d:" % i, ".byte %d" % v] if fwd else ["lc_%d:" % i, "@@p: .byte %d" % v]
            self.out.append(v)
            nm, d = s.pick([("@@p", True), ("@@p", True), ("@@no", False), ("lc_%d" % i, True), ("@sc_%d" % i, True)])
            neg = s.bool(); expr = d and nm[0] == "@" and nm[1] == "@" and s.bool(0.3)
            glob = s.below(4) if not fwd else 0; two = s.bool(0.3)
            L.append(".if %s %s 0x%X" % (nm, "!=" if neg else "==", self.base + len(self.out) - 1) if expr and not fwd else ".if%sdef %s" % ("n" if neg else "", nm))
            if glob & 1: L.append("lc_%da:" % i)
            L.append(".byte %d" % a)
            if two and not glob: L += [".elseif%sdef @@p" % ("" if neg else "n"), ".byte 77"]
            L.append(".else")
            if glob & 2: L.append(s.pick(["lc_%db:", "@lc_%db:"]) % i)
            L += [".byte %d" % b, ".endif"]
            if d != neg: self.out.append(a)
            elif two and not glob and neg: self.out.append(77)
            else: self.out.append(b)
            if fwd: L.append("@@p:")
            L.append("@sc_%d:" % i)
        elif k == "callf" and self.funcs:
            n = s.pick(sorted(self.funcs)); a = s.below(100); L.append(".byte %s(%d)" % (n, a))
            if taken: self.out.append(a + self.funcs[n])
        elif k == "redef" and self.gone and taken and const and depth < 3:
            # a name whose only definition so far was in a branch that was not taken is still free
            kind, n = s.pick(self.gone); self.gone.remove((kind, n))
            v = s.int(0, 6)
            if kind == "lab":
                k2 = s.below(3)
                if k2 == 0: L.append(n + ":")
                elif k2 == 1: L.append("%s equ %d" % (n, v)); L.append(".byte " + n); self.out.append(v)
                self.known = [x for x in self.known if x[0] != n]
            elif kind == "equ":
                if s.bool(): L.append("%s equ %d" % (n, v)); self.equs[n] = v
                else: L.append("%s: .byte 9" % n); self.out.append(9)
            elif kind == "mac": L += [".macro " + n, ".byte %d" % v, ".endmacro", n]; self.macros[n] = v; self.out.append(v)
            else: L += [".expfunc %s(a),a+%d" % (n, v), ".byte %s(1)" % n]; self.funcs[n] = v; self.out.append(1 + v)
        elif k == "callm" and self.macros:
            n = s.pick(sorted(self.macros)); L.append(n)
            if taken: self.out.append(self.macros[n])
        elif k == "inc":
            n = "i%d.asm" % self.id(); v = s.below(256); self.files[n] = ".byte %d\n" % v
            L.append('.include "%s"' % n)
            if taken: self.out.append(v)
        elif k == "ref":
            if taken: self.refs.append((len(self.out), None, len(L)))
            L.append(None if taken else ".d32 %d" % s.below(99))
            if taken: self.out += b"\0\0\0\0"
        elif k == "same":
            # the same name defined in both branches
            if self.orgdep: return
            n = "sm_%d" % self.id()
            d, t, v, c = self.anycond()
            if "org" in t: return
            L.append(".%s %s" % (d, t)); L.append(n + ":")
            a, b = s.below(256), s.below(256)
            L.append(".byte %d" % a); L.append(".else")
            if s.bool(): L.append(".byte 7,7"); two = True
            else: two = False
            L.append(n + ":"); L.append(".byte %d" % b); L.append(".endif")
            if taken:
                if v: self.defs[n] = len(self.out); self.out.append(a)
                else:
                    if two: self.out += b"\7\7"
                    self.defs[n] = len(self.out); self.out.append(b)
    def block(self, taken, const, depth):
        s = self.s; L = self.lines
        done = False
        od = self.orgdep
        d, t, v, c = self.anycond()
        if "org" in t: self.orgdep += 1
        L.append("." + s.pick([d, d.upper()]) + " " + t)
        cc = const and c
        self.nbranch += 1
        self.body(taken and v, cc, depth + 1)
        done = bool(v)
        for _ in range(s.wpick([(4, 0), (2, 1), (1, 2), (1, 3)])):
            d, t, v, c = self.anycond()
            if "org" in t: self.orgdep += 1
            L.append(".else" + d + " " + t)
            cc = cc and c
            self.nbranch += 1
            self.body(taken and not done and v, cc, depth + 1)
            done = done or bool(v)
        if s.bool(0.6):
            L.append(s.pick([".else", ".ELSE"]))
            self.body(taken and not done, cc, depth + 1)
        L.append(".endif")
        self.orgdep = od
    def body(self, taken, const, depth):
        self.s.many(lambda s: self.item(taken, const, depth), 0, 4)
    def build(self):
        s = self.s
        self.base = s.pick([0, 0x80000000, 0x1000])
        head = [self.arch, '.create "o.bin",0x%X' % self.base]
        for n, v in self.bwd: head.append(".definelabel %s,%d" % (n, v))
        def top(s): self.item(True, True, 0)
        s.many(top, 3, 14)
        tail = [".definelabel %s,%d" % (n, v) for n, v in self.fwd] + [".close"]
        names = sorted(self.defs)
        for off, _, i in self.refs:
            if names:
                n = s.pick(names); self.lines[i] = ".d32 " + n
                self.out[off:off + 4] = struct.pack(self.E + "I", (self.base + self.defs[n]) & 0xFFFFFFFF)
            else: self.lines[i] = ".d32 0"
        self.head, self.tail = head, tail

class C08(Check):
    ID = "C08"
    RULE = "a program with at least two conditional branches, or a malformed conditional; distinct = distinct program text"
    QUICK, THOROUGH = 90000, 2000000
    QUICK_S, THOROUGH_S = 90, 1500
    def gen(self, s):
        g = Gen(s); g.build()
        bad = None; lines = g.lines
        if s.bool(0.2):
            bad, lines = self.bad(s, g)
        args = ["a.asm"]
        for n, v in g.cld: args += ["-definelabel", n, str(v)]
        files = dict(g.files); files["a.asm"] = "\n".join(g.head + lines + g.tail) + "\n"
        return dict(files=files, args=args, out=bytes(g.out), msgs=g.msgs, bad=bad, nb=g.nbranch)
    def explicit(self):
        # a label of a branch that is deselected in a later pass must not stay defined
        src = [".psx", '.create "o.bin",0', ".byte 4", ".ifndef fwd", "x: .byte 1", ".endif", ".word x", "fwd:", ".close"]
        return [dict(files={"a.asm": "\n".join(src) + "\n"}, args=["a.asm"], out=b"", msgs=[], bad="label of a deselected branch", nb=2, tag="stale-label")]
    def bad(self, s, g):
        L = list(g.lines)
        fv = g.fwd[0][0]
        c = s.pick(["1", "0", fv, fv + " == 12345"])
        alt = [
            ("missing endif", [".if " + c, ".byte 1"]),
            ("missing endif after else", [".if " + c, ".byte 1", ".else", ".byte 2"]),
            ("extra endif", [".endif"]),
            ("else without if", [".else", ".byte 1"]),
            ("elseif without if", [".elseif 1", ".byte 1", ".endif"]),
            ("double else", [".if " + c, ".byte 1", ".else", ".byte 2", ".else", ".byte 3", ".endif"]),
            ("elseif after else", [".if " + c, ".byte 1", ".else", ".byte 2", ".elseif 1", ".byte 3", ".endif"]),
            ("string condition", ['.if "abc"', ".byte 1", ".endif"]),
            ("float condition", [".if 1.5", ".byte 1", ".endif"]),
            ("float label condition", [".if %s + 0.5" % fv, ".byte 1", ".endif"]),
            ("undefined label condition", [".if nowhere_2 > 1", ".byte 1", ".endif"]),
            ("no condition", [".if", ".byte 1", ".endif"]),
            ("no name", [".ifdef", ".byte 1", ".endif"]),
            ("equ in a label dependent block", [".if %s" % fv, "zq equ 5", ".endif"]),
            ("macro in a label dependent block", [".ifdef %s" % fv, ".macro zm", ".byte 1", ".endmacro", ".endif"]),
            ("error in a taken branch", [".if %s == %d" % g.fwd[0], '.error "x"', ".endif"]),
            ("error in a taken branch", [".if 0", ".byte 1", ".else", '.error "x"', ".endif"]),
            ("undefined label in a taken branch", [".ifndef nowhere_3", '.word nowhere_4', ".endif"]),
            ("same label in a taken branch twice", [".ifdef " + fv, 'zzd:', ".endif", ".ifdef " + fv, ".byte 1", 'zzd:', ".endif"]),
            ("junk after condition", [".if 1 2", ".byte 1", ".endif"]),
        ]
        n, x = s.pick(alt)
        if s.bool(0.5) and n not in ("else without if", "elseif without if"):
            # nested in a taken block
            x = [s.pick([".if 1", ".ifdef " + fv])] + x + [".endif"]
            if n == "extra endif": pass
        pos = [0, len(L)]
        p = s.pick(pos)
        return n, L[:p] + x + L[p:]
    def render(self, case): return case
    def run(self, case, env):
        r = env.run(case["files"], case["args"])
        if case["bad"]:
            if r.rc != 1 or not r.errors(): raise Fail("%s accepted: rc=%d %s" % (case["bad"], r.rc, r.text[:300]), case.get("tag"))
            return 1, [case["files"]["a.asm"]], None
        if r.rc: raise Fail("valid program rejected: rc=%d %s" % (r.rc, r.text[:500]))
        o = r.read("o.bin")
        if r.read("new.bin") is not None: raise Fail("a file of a branch that is not taken was created")
        if o != case["out"]:
            raise Fail("output %s\nexpected %s" % (o and o.hex(), case["out"].hex()))
        t = r.text
        for m, n in case["msgs"]:
            if t.count(m) != n: raise Fail("message %s printed %d times, expected %d: %s" % (m, t.count(m), n, t[:400]))
        return 1, [case["files"]["a.asm"]] if case["nb"] >= 2 else [], case["files"]["a.asm"][:400]
CHECK = C08()
