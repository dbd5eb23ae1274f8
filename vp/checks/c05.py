from ..core import Check, Fail
from .. import progen as P
import re

def faults(s, arch, n):
    """(lines, index of a line that must be named in a diagnostic or None, extra files)"""
    u = "U%d" % n
    k = s.below(41)
    if k == 0: return [".d32 Undefined%s" % u], 0
    if k == 1: return ["Dup%s:" % u, ".d32 0", "Dup%s:" % u], None
    if k == 2: return [".area 4", ".fill 8", ".endarea"], None
    if k == 3: return ['.error "boom"'], 0
    if k == 4: return ['.incbin "missing.bin"'], 0
    if k == 5: return ['.include "missing.asm"'], 0
    if k == 6: return ["qqq%s r0,r1" % u], 0
    if k == 7: return [".byte"], 0
    if k == 8: return [".byte 1,,2"], 0
    if k == 9: return [".d32 (1+2"], 0
    if k == 10: return [".unknown%s 1" % u], 0
    if k == 11: return [".definelabel Dl%s,1" % u, ".definelabel Dl%s,2" % u], None
    if k == 12: return [".align 3"], 0
    if k == 13: return ['.d32 "a"-1'], 0
    if k == 14: return ['.float "abc"'], 0
    if k == 15: return [".if Lx%s >= 0" % u, '.error "late"', ".endif", "Lx%s:" % u], 1
    if k == 16: return [".macro Mm%s,a" % u, ".d32 a", ".endmacro", "Mm%s 1,2" % u], 3
    if k == 17: return [".macro Mq%s" % u, ".d32 Und%s" % u, ".endmacro", "Mq%s" % u], None
    if k == 18: return ['.loadtable "missing.tbl"'], 0
    if k == 19: return [".d32 @@nolocal%s" % u], 0
    if k == 20: return ['.include "bad%d.asm"' % n], ("bad%d.asm" % n, ".d32 1\n.d32 Und%s\n" % u, 2)
    if k == 21: return ['.include "bad%d.asm"' % n], ("bad%d.asm" % n, ".d32 1\n\n.byte 1 2\n", 3)
    if k == 22: return [".endif"], None
    if k == 23: return [".d32 readbyte(1)"], 0
    if k == 24: return [".d8 \"\u00e9\""], 0
    if k == 25: return [".org Und%s" % u], 0
    if k == 26: return [".fill Und%s" % u], 0
    if k == 27: return ['.importobj "missing.o"'], 0
    if k == 28: return [".orga -1"], 0
    if k == 29: return ["X%s equ 1" % u, "X%s equ 2" % u], None
    if k == 30: return ['.open "missing%d.bin",0' % n], 0
    if k == 31: return [".area -1", ".endarea"], None
    if k == 32: return [".autoregion", ".d32 1", ".endautoregion"], None
    # the text of an equ is reported where it is used
    if k == 33: return ["Xe%s equ 1 2" % u, "", ".byte Xe%s" % u], 2
    if k == 34: return ["Xe%s equ 1+%s" % (u, s.pick(["]", "/", "Und%s +" % u, "(2"])), "Lz%s:" % u, ".d32 Xe%s" % u], 2
    if k == 35: return ["Xe%s equ 5" % u, "Lz%s:" % u, "Ye%s equ Xe%s 2" % (u, u), "", ".d32 Ye%s" % u], 4
    if k == 36: return ["Xe%s equ \"a\"" % u, "", s.pick([".fill Xe%s", ".skip Xe%s", ".if Xe%s\n.endif", ".org Xe%s"]) % u], 2
    # endless recursion
    if k == 37: return [".macro Mr%s,a" % u, ".if a", ".byte 1", "Mr%s a+1" % u, ".endif", ".endmacro", "Mr%s 1" % u], None
    if k == 38: return [".macro Mr%s" % u, ".byte 1", "Ms%s" % u, ".endmacro", ".macro Ms%s" % u, "@@l: Mr%s" % u, ".endmacro", "Ms%s" % u], None
    if k == 39: return ['.include "rec%d.asm"' % n], ("rec%d.asm" % n, '.d32 1\n.include "rec%d.asm"\n' % n, 2)
    return ['.string "unmapped"'], 0

def causes(lines):
    """what a diagnostic about this fault has to mention: the symbol or file at fault, or the endless recursion"""
    t = "\n".join(lines)
    if re.search(r"^(M[rs]|\.include \"rec)", lines[-1]): return "recursion depth"
    m = re.search(r"^\.(?:incbin|include|loadtable) \"(missing\.\w+)", t)
    if m: return m.group(1)
    if len(lines) == 1:
        m = re.search(r"(Undefined|nolocal|Und)U\d", t)
        if m: return m.group(0).lower()
    return None

def warns(s, n):
    k = s.below(5)
    if k == 0: return ['.warning "careful"']
    if k == 1: return [".d32 5/0"]
    if k == 2: return [".d32 7%0"]
    if k == 3: return ['.incbin "in.bin",0,5000']
    return ['.create "w%d.bin",0' % n]       # previous file not closed

class C05(Check):
    ID = "C05"
    RULE = "a program with at least one injected fault (or warning under erroronwarning) besides valid content; distinct = distinct program text"
    QUICK, THOROUGH = 60000, 2000000
    QUICK_S, THOROUGH_S = 90, 1500
    ASSUMPTIONS = ["-sym/-temp files are not counted as outputs", "process-level faults such as a full disk are not injected"]

    def gen(self, s):
        p = P.Prog(s, features=("cond", "macro", "equ", "area", "func", "deflabel", "locals"), size=10)
        st = p.statements(out="o1.bin")
        head, body = st[:-1], [st[-1]]
        lines = [P.canonical([x]).rstrip("\n") for x in st]
        kind = s.wpick([(6, "fault"), (2, "warn"), (1, "ok"), (1, "okwarn"), (1, "cli")])
        if kind == "cli":
            bad = s.pick([["-foo"], ["-equ", "a"], ["-equ", "a", "1", "-equ", "a", "2"], ["-definelabel", "x", "1", "-definelabel", "x", "2"],
                          ["b.asm"], ["-root", "nodir"], ["-definelabel", "x", "qq"], ["-equ", "1a", "2"], ["-definelabel", "1a", "2"], ["-temp"], ["-root"], ["-sym"], ["-sym2"], ["-equ"], ["-equ", "q1"], ["-strequ"], ["-strequ", "q1"], ["-definelabel"], ["-definelabel", "q1"], ["-root", "a.asm"], ["-strequ", "q1", "1", "-equ", "q1", "2"], ["-definelabel", "q1", "1", "-definelabel", "Q1", "2"], ["--", "-temp", "b"], None])
            args = ["missing.asm"] if bad is None else s.pick([["a.asm"] + bad, bad + ["a.asm"] if len(bad) > 1 or bad[0] == "-foo" else ["a.asm"] + bad])
            return dict(kind=kind, src="\n".join(lines) + "\n", files={}, args=args, named=[], n=1)
        # further outputs before / after
        pre = s.below(4); post = s.below(3)
        A = {0: [], 1: ['.open "old.bin",0', ".byte 1,2,3", ".close"], 2: ['.open "in.bin","copy.bin",0', ".fill 9,1", ".close"], 3: ['.create "first.bin",0x100', ".d32 .", ".close"]}[pre]
        Z = {0: [], 1: ['.create "last.bin",0', ".d32 7", ".close"], 2: ['.open "old.bin",0', ".orga 4", ".byte 9", ".close"]}[post]
        hl = len(p.head())
        lines = lines[:hl] + A + lines[hl:] + Z
        # depth-0 positions while a file is open
        def positions():
            pos = []; d = 0; opened = False
            for i, l in enumerate(lines):
                w = (l.split() or [""])[0].lower()
                if w in (".if", ".macro"): d += 1
                if w in (".endif", ".endmacro"): d -= 1
                if w.startswith(".create") or w.startswith(".open"): opened = True
                if w == ".close": opened = False
                if d == 0 and opened: pos.append(i + 1)
            return pos
        files = {}; named = []; cause = None
        args = ["a.asm"]
        n = 0
        if kind in ("fault",):
            nf = s.wpick([(6, 1), (2, 2), (1, 3)])
            for j in range(nf):
                f, idx = faults(s, p.arch, j)
                at = s.pick(positions())
                if nf == 1: cause = causes(f)
                if s.bool(0.15): f = [".if 1"] + f + [".endif"]; idx = idx + 1 if isinstance(idx, int) else idx
                lines[at:at] = f
                n += 1
                if nf == 1 and isinstance(idx, int): named = ["a.asm(%d) " % (at + idx + 1)]
                if nf == 1 and isinstance(idx, tuple): named = ["%s(%d) " % (idx[0], idx[2])]
                if isinstance(idx, tuple): files[idx[0]] = idx[1]
        elif kind in ("warn", "okwarn"):
            for j in range(s.int(1, 2)):
                w = warns(s, j); at = s.pick(positions())
                if w[0].startswith('.create'): at = max(i for i, l in enumerate(lines) if l == '.close')
                lines[at:at] = w; n += 1
            if kind == "warn":
                if s.bool(): args = s.pick([["a.asm", "-erroronwarning"], ["-erroronwarning", "a.asm"]])
                else: lines.insert(0, ".erroronwarning " + s.pick(["on", "1"] if s.bool() else ["on"]))
        if kind in ("okwarn", "warn") and s.bool(0.2):
            # drop the last .close
            i = max(i for i, l in enumerate(lines) if l == ".close")
            del lines[i]
        if s.bool(0.2): args = args + ["-stat"]
        for _ in range(s.wpick([(4, 0), (1, 1), (1, 2), (1, 3)])):
            o = s.pick([["-equ", "zq%d_" % s.below(10**6), "1"], ["-definelabel", "zl%d_" % s.below(10**6), "2"], ["-strequ", "zs%d_" % s.below(10**6), "x y"]])
            args = o + args if s.bool() else args + o
        if s.bool(0.2): args = [x for x in args if x != "a.asm"] + ["--", "a.asm"]     # what follows is a file name
        if s.bool(0.02):               # high line numbers
            k = s.pick([300, 1200, 32800, 65600, 100100]); lines[1:1] = [s.pick(["", ";"])] * k
            named = ["a.asm(%d) " % (int(x[6:-2]) + k) if x.startswith("a.asm(") else x for x in named]
        return dict(kind=kind, src="\n".join(lines) + "\n", files=files, args=args, named=named, n=n, cause=cause)

    def render(self, case): return case

    def expected_outputs(self, src):
        return set(re.findall(r'\.create(?:file)? "([^"]+)"', src)) | set(re.findall(r'\.open "[^"]+","([^"]+)"', src)) | set(re.findall(r'\.open "([^"]+)",\d', src))

    def run(self, case, env):
        base = {"old.bin": bytes(range(40)), "in.bin": b"data" * 11, "o1.bin": b"previous content", "last.bin": b"zz"}
        if hash(case["src"]) and len(case["src"]) % 3 == 0: base.pop("o1.bin")
        files = dict(base); files["a.asm"] = case["src"]; files["b.asm"] = ".psp\n"; files.update(case["files"])
        r = env.run(files, case["args"], snap=True)
        after = r.snapshot()
        src = case["src"]
        if r.timeout or r.rc not in (0, 1): raise Fail("abnormal termination rc=%d %s" % (r.rc, r.text[-300:]))
        if case["kind"] in ("ok", "okwarn"):
            if r.rc != 0: raise Fail("valid program rejected: %s" % r.text[:500])
            if r.errors(): raise Fail("error printed but exit status 0: %s" % r.text[:500])
            for o in self.expected_outputs(src):
                if o not in after: raise Fail("output %s missing after success" % o)
            if case["kind"] == "okwarn" and not r.warnings(): raise Fail("no warning printed: %s" % r.text[:300])
            # every output was written: compare with marker content
            for o in ("o1.bin",):
                if after.get(o) == b"previous content": raise Fail("output %s not written" % o)
            if case["kind"] == "okwarn": return 1, [], None
            if '"first.bin"' in src and after["first.bin"] != self.word(src, 0x100): raise Fail("first.bin incomplete: %r" % after["first.bin"])
            if '.create "last.bin"' in src and after["last.bin"] != self.word(src, 7): raise Fail("last.bin incomplete")
            if '"copy.bin"' in src and after["copy.bin"] != b"\1" * 9 + base["in.bin"][9:]: raise Fail("copy.bin wrong")
            if '.open "old.bin"' in src:
                e = bytearray(base["old.bin"])
                if ".byte 1,2,3" in src: e[0:3] = b"\1\2\3"
                if ".orga 4\n.byte 9" in src: e[4] = 9
                if after["old.bin"] != bytes(e): raise Fail("old.bin wrong: %s" % after["old.bin"].hex())
            return 1, [], None
        if r.rc != 1: raise Fail("faulty program accepted (rc %d): %s" % (r.rc, r.text[:500]))
        if after != r.before:
            d = [k for k in set(after) | set(r.before) if after.get(k) != r.before.get(k)]
            raise Fail("output modified although assembly failed: %s\n%s" % (d, r.text[:400]))
        if case["kind"] == "cli":
            if not r.lines(): raise Fail("no diagnostic for invalid command line")
            return 1, [tuple(case["args"])], None
        diag = [l for l in r.lines() if re.match(r"[^ ]+\(\d+\) (fatal )?(error|warning)", l)]
        if not diag: raise Fail("no diagnostic with file and line: %s" % r.text[:400])
        if case["kind"] == "fault" and not r.errors(): raise Fail("no error printed: %s" % r.text[:400])
        for nm in case["named"]:
            if not any(l.startswith(nm) for l in r.errors()): raise Fail("no error at %s: %s" % (nm, r.text[:400]))
        c = case.get("cause")
        if c and not any(c in l.lower() for l in r.errors()): raise Fail("no error mentions '%s': %s" % (c, r.text[:400]))
        return 1, [src], src[:300]

    def word(self, src, v):
        big = src.split("\n")[0] in (".n64", ".rsp", ".saturn") or src.split("\n")[1] in (".n64", ".rsp", ".saturn")
        return v.to_bytes(4, "big" if big else "little")

CHECK = C05()
