import os, re, importlib, shutil
from ..core import Check, Fail, Exhausted
from .. import elf as X
from ..elf import Sec, Seg, Sym

DIRS = [".psx", ".ps2", ".psp", ".n64", ".rsp", ".gba", ".nds", ".3ds", ".arm.big", ".arm.little", ".saturn", ".32x", ".arm", ".thumb", ".align 4", ".aligna 4", ".area 16", ".autoregion", ".byte", ".ascii", ".asciiz", ".close",
        ".definelabel a,1", ".definedatalabel d,2", ".defineregion 16,16", ".double", ".float", ".doubleword", ".halfword", ".word", ".endarea", ".endregion", ".error \"x\"", ".warning \"x\"", ".notice \"x\"", ".erroronwarning", ".fill", ".skip", ".func f", ".endfunc", ".function g,a",
        ".headersize", ".if", ".else", ".elseif", ".endif", ".ifdef a", ".ifndef a", ".importobj \"l.o\"", ".importlib \"l.o\",ctor", ".incbin \"f.bin\"", ".include \"b.asm\"", ".loadtable \"t.tbl\"", ".nocash", ".org", ".orga", ".region 16", ".relativeinclude on", ".sjis \"a\"", ".string \"a\"", ".stringn \"b\"", ".str \"c\"",
        ".sym off", ".macro m,x,y", ".endmacro", "m 1,2", ".expfunc e(x),x+1", ".pool", ".msg", ".resetdelay", ".fixloaddelay", ".loadelf \"l.elf\"", ".create \"o.bin\",0", ".open \"f.bin\",0", ".open \"f.bin\",\"o.bin\",0", "q equ 1", "z equ", ".rep 3", ".endrep", ".n64 ", "label:", "@loc:", "@@st:", ".dw", ".db", "dcb"]
OPS = ["nop", "addiu a0,a1,1", "li a0,0x12345678", "lw a0,label", "beq a0,a1,label", "jal label", "mov r0,1", "ldr r0,=0x12345", "ldr r0,[r1,4]", "ldmia r0!,r1-r4", "bl label", "bx r14", "swi 1", "mov.l @r1,r2", "bra label", "mova @(4,pc),r0", "vadd.q c000,c100,c200", "vpfxs [x,y,z,w]", "cache 1,(a0)", "add r0,r1,r2 lsl 3", "mcr p15,0,r0,c1,c2,3", "lqv v0[0],0(a0)", "ulw a0,3(a1)", "blt a0,5,label", "mrs r0,cpsr", "fadd.s f0,f1,f2"]
NUM = ["0", "1", "-1", "2", "3", "4", "0x7f", "255", "256", "4095", "-32768", "32768", "0x10"]
BIGNUM = ["0x7FFFFFFF", "0x80000000", "0xFFFFFFFF", "0x100000000", "0x7FFFFFFFFFFFFFFF", "0x8000000000000000", "0xFFFFFFFFFFFFFFFF", "-0x8000000000000000", "99999999999999999999", "1e400", "1.5", "0.0", "1e-400", "1e18", "-2147483649"]
PUNCT = list("()[]{},:;!\"'#@%&*/+-<>=?|^~\\.$_ \t") + ["<<", ">>", "==", "<=", "&&", "||", "//", "/*", "*/", "\n", "::", "equ", "°", "@@", "\\\n", "\"\"", "'a'", "0x", "0b1", "07o", "5h", "%1", "..", "\u3042", "\x00", "\xff"]
FUNCS = ["version()", "endianness()", "outputname()", "org()", "orga()", "headersize()", "fileexists(\"f.bin\")", "filesize(\"f.bin\")", "tostring(1)", "tohex(1,5)", "int(1.5)", "float(1)", "frac(1.5)", "abs(-1)", "hi(1)", "lo(1)", "round(1.5)", "min(1,2)", "max(1,2)", "strlen(\"abc\")", "substr(\"abc\",1,1)", "regex_match(\"abc\",\"a.*\")", "regex_search(\"abc\",\"b\")", "regex_extract(\"abc\",\"(a)(b)\",1)", "find(\"abc\",\"b\",0)", "rfind(\"abc\",\"b\",2)", "readascii(\"f.bin\",0,4)", "readu8(\"f.bin\",0)", "readu64(\"f.bin\",-1)", "readbyte(\"f.bin\",99)", "isarm()", "isthumb()", "defined(a)", "org(a)", "orga(a)", "headersize(a)", "toascii(1)", "e(1)", "min()", "rnd()"]

class Captured(Exception):
    def __init__(self, files, args): self.files, self.args = dict(files), list(args)
class FakeEnv:
    dir = "/nonexistent"; runs = 0
    def run(self, files, args=("a.asm",), **k): raise Captured(files, args)
    def __getattr__(self, n): raise AttributeError(n)

DONORS = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c22", "c23"]
MODS = {}
def donor(n):
    if n not in MODS: MODS[n] = importlib.import_module("vp.checks." + n).CHECK
    return MODS[n]

class C21(Check):
    ID = "C21"
    RULE = "a run of the sanitized program on a mutated, generated or random input; distinct = (files, arguments)"
    BUILD = "asan"
    QUICK, THOROUGH = 20000, 3000000
    QUICK_S, THOROUGH_S = 100, 3000
    LIMITS = False
    TIMEOUT = 10
    STACK = 128 << 20
    UNPRIVILEGED = True
    ENVIRON = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3000:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_abort=1:detect_stack_use_after_return=0",
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98", "PATH": "/usr/bin:/bin"}
    ASSUMPTIONS = ["armips runs as an unprivileged user in a scratch directory", "runs that exceed 10 s, 3 GB or 64 MB of output count as requested by the program when it contains a number above 4095 or a shift, product or power; otherwise they are violations",
                   "memory leaks are not counted"]

    def explicit(self): return [("deep", {"a.asm": b".psx\n.create \"o.bin\",0\n.byte regex_match(\"" + b"a" * 1000000 + b"\",\"(a|b)*\")\n.close\n"}, ["a.asm"], True)] + [
        ("deep", {"a.asm": (".psx\n.create \"o.bin\",0\n" + x + "\n.close\n").encode()}, ["a.asm"], False) for n in (400000,) for x in (
            ".byte " + "(" * n + "1" + ")" * n, ".byte " + "- " * n + "1", ".byte 1" + "+1" * n, ".byte 1" + "*1" * n, ".byte 1" + "|1" * n, ".byte " + "1 ? " * n + "2" + " : 3" * n,
            ".byte " + "1 ? 2 : " * n + "3", ".byte " + "abs(" * n + "1" + ")" * n, "lw a0," + "(" * n + "a1" + ")" * n, ".if " + "!" * n + "1\n.endif", "x equ " + "(" * n + "\n.word x", "li a0,1" + "<<0" * n)]

    def gen(self, s):
        k = s.wpick([(5, "mutate"), (3, "soup"), (2, "binary"), (1, "raw"), (0.6, "deep"), (0.6, "args")])
        big = s.bool(0.4)
        return (k,) + getattr(self, "g_" + k)(s, big) + (big,)

    def base(self, s):
        for _ in range(4):
            n = s.pick(DONORS); c = donor(n)
            case = c.gen(s)
            try: c.run(case, FakeEnv())
            except Captured as x:
                if all("/" not in f or not f.startswith("/") for f in x.files) and "a.asm" in x.args: return x.files, x.args
            except Exhausted: raise
            except Exception: pass
        return {"a.asm": '.psx\n.create "o.bin",0\nnop\n.close\n'}, ["a.asm"]

    def num(self, s, big): return s.pick(NUM + BIGNUM) if big else s.pick(NUM)
    def tok(self, s, big):
        k = s.below(6)
        if k == 0: return self.num(s, big)
        if k == 1: return s.pick(PUNCT)
        if k == 2: return s.pick(FUNCS)
        if k == 3: return s.pick(["a", "label", "@loc", "@@st", "f", "m", "x", "r0", "a0", "q", "z", "\"str\"", "r15", "sp", "c000", "e(2)"])
        if k == 4: return s.pick(DIRS)
        return s.pick(OPS)

    def mut_text(self, s, t, big):
        n = s.int(1, 5)
        for _ in range(n):
            L = t.split("\n"); i = s.below(len(L)); k = s.below(11)
            if k == 0: L.insert(i, s.pick(DIRS) + " " + self.num(s, big))
            elif k == 1: L.insert(i, s.pick(OPS))
            elif k == 2: del L[i]
            elif k == 3: j = s.below(len(L)); L[i], L[j] = L[j], L[i]
            elif k == 4: L.insert(s.below(len(L) + 1), L[i])
            elif k == 5: L[i] = L[i][:s.below(len(L[i]) + 1)]
            elif k == 6:               # replace a token
                P = re.findall(r"[A-Za-z_.@][\w.]*|[0-9][\w.]*|\"[^\"]*\"|\s+|.", L[i])
                if P: P[s.below(len(P))] = self.tok(s, big)
                L[i] = "".join(P)
            elif k == 7:               # delete a token
                P = re.findall(r"[A-Za-z_.@][\w.]*|[0-9][\w.]*|\"[^\"]*\"|\s+|.", L[i])
                if P: del P[s.below(len(P))]
                L[i] = "".join(P)
            elif k == 8: j = s.below(len(L[i]) + 1); L[i] = L[i][:j] + self.tok(s, big) + L[i][j:]
            elif k == 9:               # replace a number
                P = re.split(r"(\b[0-9][\w.]*)", L[i])
                if len(P) > 1: P[1 + 2 * s.below(len(P) // 2)] = self.num(s, big)
                L[i] = "".join(P)
            elif k == 10: j = s.below(len(L[i]) + 1); L[i] = L[i][:j] + s.pick(PUNCT) + L[i][j:]
            t = "\n".join(L) if L else ""
        return t

    def g_mutate(self, s, big):
        files, args = self.base(s)
        out = {}
        for n in sorted(files):
            d = files[n]
            if isinstance(d, bytes):
                try: t = d.decode("utf-8")
                except UnicodeDecodeError: out[n] = self.mut_bin(s, d) if s.bool(0.3) else d; continue
            else: t = d
            if n == "a.asm" or s.bool(0.3): out[n] = self.mut_text(s, t, big).encode("utf-8", "surrogatepass")
            else: out[n] = d if isinstance(d, bytes) else d.encode("utf-8")
        return out, args

    def support(self, s): return {"f.bin": bytes(range(256)), "t.tbl": "41=a\n4242=b\n/00\n01=ab\n", "b.asm": ".byte 1\nlabel2:\n", "l.o": self.obj(), "l.elf": self.exe()}
    def obj(self): return X.relocatable("mips", False, [Sec(".text", data=bytes(16), flags=6), Sec(".ctors", data=bytes(8))], [Sym("fn", 4, 4, 1, 2, 0), Sym("label", sec=None)], ["secs", "rels", "sym", "str", "shstr", "extra"])
    def exe(self): return X.executable("mips", False, [Seg(0x1000, [(Sec(".text", 1, 6, 4, bytes(32)), b"")])], [Sec(".comment", 1, 0, 1, b"x")], ["ph", "seg", "free", "sh"], 0x1000)

    def g_soup(self, s, big):
        def line(s):
            k = s.below(5)
            if k == 0: return s.pick(DIRS)
            if k == 1: return s.pick(DIRS).split(" ")[0] + " " + " ".join(self.tok(s, big) for _ in range(s.int(0, 4)))
            if k == 2: return s.pick(OPS)
            if k == 3: return s.pick([".byte ", ".word ", ".if ", ".org ", "li a0,", "mov r0,", ".double ", ".ascii ", ".fill ", "x equ "]) + "".join(self.tok(s, big) + s.pick(["", "+", ",", "-", "*", "/", "%", "<", "?", ":", " "]) for _ in range(s.int(1, 5)))
            return " ".join(self.tok(s, big) for _ in range(s.int(1, 6)))
        head = s.pick([[".psx"], [".gba"], [".saturn"], [".psp"], [".n64"], [".nds"], [".rsp"], []]) + ([".create \"o.bin\",0"] if s.bool(0.85) else [])
        L = head + s.many(line, 1, 14)
        if s.bool(0.7): L.append(".close")
        f = self.support(s); f["a.asm"] = "\n".join(L).encode("utf-8", "surrogatepass")
        return f, ["a.asm"] + s.pick([[], [], ["-temp", "t.txt"], ["-sym", "s.txt"], ["-sym2", "s.txt"], ["-stat"]])

    def mut_elf(self, s, d):
        """corrupts fields of headers, symbols and relocations of an ELF file (or one inside of an archive), keeping its layout"""
        d = bytearray(d)
        at = []; i = d.find(b"\x7fELF")
        while i >= 0: at.append(i); i = d.find(b"\x7fELF", i + 1)
        if not at: return None
        b = s.pick(at); E = "big" if d[b + 5] == 2 else "little"
        def w(o, z=4): return int.from_bytes(d[b + o:b + o + z], E) if b + o + z <= len(d) else 0
        sho, n = w(0x20), w(0x30, 2)
        secs = [(sho + 40 * i, [w(sho + 40 * i + 4 * j) for j in range(10)]) for i in range(min(n, 64))]
        edge = [0, 1, 2, 3, n - 1, n, n + 1, 0xFF, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFC, len(d), len(d) - b]
        for _ in range(s.int(1, 3)):
            k = s.below(10)
            rel = [x for x in secs if x[1][1] in (4, 9)]; sym = [x for x in secs if x[1][1] == 2]
            z = 4
            if k < 4 and rel:             # a field of a relocation: offset, symbol or type
                h = s.pick(rel)[1]; e = 12 if h[1] == 4 else 8; c = h[5] // e
                if not c: continue
                o = h[4] + e * s.below(c); f = s.below(3)
                if f == 0: v = s.pick(edge + [w(o) + 1, w(o) + 2, max(w(o) - 4, 0), w(o) + 0x1000])
                else:
                    o += 4; i = w(o)
                    v = (s.pick([0, 1, 200, 0xFFFF, 0xFFFFFF, (i >> 8) + 1, (i >> 8) + 40]) << 8 | i & 255) if f == 1 else i & ~255 | s.pick([0, 1, 3, 10, 255, s.below(256)])
            elif k < 6 and sym:           # a field of a symbol
                h = s.pick(sym)[1]; c = h[5] // 16
                if not c: continue
                o = h[4] + 16 * s.below(c); f = s.below(5)
                if f == 4: o += 14; z = 2; v = s.pick([0, 0xFFF1, 0xFFF2, 0xFF00, 0xFFFF, n, n + 1, s.below(20)])
                elif f == 3: o += 12; z = 1; v = s.below(256)
                else: o += 4 * f; v = s.pick(edge)
            elif secs:                    # a field of a section header
                o, h = s.pick(secs); f = s.below(10); o += 4 * f; v = s.pick(edge + [h[f] + 1, max(h[f] - 1, 0), h[f] + 4, h[f] * 2, h[f] // 2])
            else: return None
            if 0 <= b + o and b + o + z <= len(d): d[b + o:b + o + z] = (v % (1 << 8 * z)).to_bytes(z, E)
        return bytes(d)

    def mut_bin(self, s, d):
        if b"\x7fELF" in bytes(d) and s.bool(0.6):
            x = self.mut_elf(s, d)
            if x is not None: return x
        d = bytearray(d)
        for _ in range(s.int(1, 6)):
            k = s.below(5)
            if not d: break
            i = s.below(min(len(d), 400)) if s.bool() else s.below(len(d))
            if k == 0: d[i] = s.pick([0, 1, 0xFF, 0x7F, 0x80, 4, 0x40])
            elif k == 1: d[i & ~3:(i & ~3) + 4] = s.pick([0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, len(d), len(d) - 1, 0x10000, 0xFFFF]).to_bytes(4, s.pick(["little", "big"]))
            elif k == 2: del d[i:]
            elif k == 3: d[i:i] = bytes([s.below(256)]) * s.int(1, 5)
            else: del d[i:i + s.int(1, 8)]
        return bytes(d)

    def g_binary(self, s, big):
        k = s.pick(["obj", "obj", "psx", "psx", "exe", "exe", "tbl", "utf"])
        f = {"f.bin": b"x"}
        if k in ("obj", "psx"):
            dn = donor("c19" if k == "obj" else "c23")
            for _ in range(6):
                case = dn.gen(s)
                try: dn.run(case, FakeEnv())
                except Captured as x: f = x.files; break
                except Exhausted: raise
                except Exception: pass
            f = {n: self.mut_bin(s, d) if isinstance(d, bytes) else d for n, d in f.items()}
            if "a.asm" in f: return f, ["a.asm"]
            f["l.o"] = self.mut_bin(s, self.obj()); f["a.asm"] = '.psx\n.create "o.bin",0\n.importobj "l.o"\n.close\n'
        elif k == "exe":
            for _ in range(6):
                case = donor("c20").gen(s)
                try: donor("c20").run(case, FakeEnv())
                except Captured as x: f = x.files; break
                except Exhausted: raise
                except Exception: pass
            f = {n: self.mut_bin(s, d) if isinstance(d, bytes) else d for n, d in f.items()}
            if "a.asm" not in f: f["l.elf"] = self.mut_bin(s, self.exe()); f["a.asm"] = '.psp\n.loadelf "l.elf"\n.org 0x1000\n.word 1\n.close\n'
        elif k == "tbl":
            enc = s.pick(["", ",UTF8", ",UTF-16", ",SJIS", ",ASCII", ",UNICODE", ",UTF16"])
            def line(s):
                h = "".join(s.pick(["00", "41", "fF", "7", "x", " "], ) if s.bool(0.03) else s.pick(["00", "41", "fe", "10"]) for _ in range(s.pick([0, 1, 1, 2, 3, 31, 32, 33, 64, 300])))
                v = "".join(s.pick(["a", "b", "c", "\u3042", "=", "\U0001F600", "/", " ", "\u00e4"]) for _ in range(s.pick([0, 1, 1, 2, 3, 40, 300])))
                return s.pick(["%s=%s", "%s=%s", "%s=%s", "/%s", "*%s=%s", "%s", "=%s", "%s="]).replace("%s", "\1", 1).replace("%s", v).replace("\1", h)
            t = b"41=a\n4242=bc\n01=ab\n/00\n" + "0505=\u3042\n".encode() if s.bool(0.3) else "\n".join(s.many(line, 1, 8)).encode()
            if s.bool(): t = self.mut_bin(s, t)
            if s.bool(0.1): t = t.decode("utf-8", "replace").encode(s.pick(["utf-16", "utf-16-le", "utf-16-be", "utf-8-sig"]))
            f = {"t.tbl": t, "a.asm": ".psx\n.create \"o.bin\",0\n.loadtable \"t.tbl\"%s\n.string \"abc\u3042\",1\n.stringn \"ab\"\n.close\n" % enc}
        else:
            d = ".psx\n.create \"o.bin\",0\n.ascii \"ab\u00e4\u3042\U0001F600\"\n.sjis \"\u3042\"\n.close\n"
            raw = d.encode(s.pick(["utf-8", "utf-8-sig", "utf-16-le", "utf-16-be", "utf-16"]))
            f = {"a.asm": self.mut_bin(s, raw)}
        return f, ["a.asm"]

    def g_raw(self, s, big):
        return dict(self.support(s), **{"a.asm": bytes(s.many(lambda s: s.below(256) if s.bool(0.3) else ord(s.pick("abr0123456789 \n.,:()[]\"'+-*/=@#$%&<>;")), 0, 200, 0.98))}), ["a.asm"]

    def g_deep(self, s, big):
        n = s.pick([10, 100, 140, 160, 1000, 20000, 50000])
        k = s.below(17); t = ""
        if k == 0: t = ".byte " + "(" * n + "1" + ")" * n
        elif k == 1: t = ".byte " + "-" * n + "1"
        elif k == 2: t = ".byte 1" + "+1" * n
        elif k == 3: t = ".if 1\n" * min(n, 2000) + ".endif\n" * min(n, 2000)
        elif k == 4: t = ".byte " + "1 ? " * n + "2" + " : 3" * n
        elif k == 5: t = ".byte " + "abs(" * n + "1" + ")" * n
        elif k == 6: t = ".expfunc e(x),%s\n.byte e(1)" % s.pick(["e(x)", "e(x+1)+1", "x==0 ? 0 : e(x-1)"])
        elif k == 7: t = ".macro m\nm\n.endmacro\nm"
        elif k == 16: t = s.pick([".macro m\nm\nm\n.endmacro\nm", ".include \"a.asm\"\n.include \"a.asm\"", ".macro m,x\nm x\n.endmacro\nm 1", ".macro m,x\nk x+1\n.endmacro\n.macro k,x\nm x\nm x\n.endmacro\nm 1"])
        elif k == 8: t = ".macro m,x\n.if x\nm x-1\n.endif\n.endmacro\nm %d" % min(n, 1000)
        elif k == 9: t = "a" * n + ":\n.word " + "a" * n
        elif k == 10: t = ".ascii \"" + "a" * n + "\""
        elif k == 11: t = ".byte regex_match(\"%s\",\"%s\")" % ("a" * n, s.pick(["a*", "(a|b)*", "(a*)*b", ".*.*c", "(((((a)))))*"]))
        elif k == 12: t = "a equ b\nb equ a\n.byte a"
        elif k == 13: t = "x equ x x\n.byte x"
        elif k == 14: t = ".byte " + "1," * n + "1"
        else: t = "[" * n + "{" * n + "/*" * n
        return {"a.asm": (s.pick([".psx", ".gba", ".saturn"]) + "\n.create \"o.bin\",0\n" + t + "\n.close\n").encode()}, ["a.asm"]

    def g_args(self, s, big):
        A = ["-temp", "-sym", "-sym2", "-erroronwarning", "-stat", "-equ", "-strequ", "-root", "-definelabel", "--", "-x", "", "a.asm", "t.txt", "q", "\"\"", "1", "0x80000000", "-1", "nothere", "a b", "q q", "\u3042", "@loc", "1+1", "q\n", "''", "999999999999999999999999", "x" * 300]
        f = {"a.asm": ".psx\n.create \"o.bin\",0\nlabel: .byte 1\n.ifdef q\n.byte q\n.endif\n.close\n"}
        if s.bool(0.5):                # options that are complete, whatever their values
            V = A + ["5 +", "1 2", ";", "//", "/*", "q", "r", "\\", "\t", " ", "::", "5 :: .byte 1", "\"a", "min(", "@@x", "label", "L:", "."]
            args = ["a.asm"]
            for _ in range(s.int(1, 4)):
                o = s.pick(["-equ", "-strequ", "-definelabel", "-equ", "-strequ", "-temp", "-sym", "-stat"])
                args += [o] if o == "-stat" else [o, "t%d.txt" % s.below(2)] if o in ("-temp", "-sym") else [o, s.pick(["q", "r", "Q", "label", "@q", "@@q", ".byte"]), s.pick(V)]
            f["a.asm"] = s.pick([".psx", ".gba"]) + "\n.create \"o.bin\",0\nlabel: .byte 1\n" + "\n".join(s.many(lambda s: s.pick([".byte q", ".byte q,r", "q", ".if q\n.byte 1\n.endif", ".ascii q", ".byte r+1", "r equ q", ".macro mm,q\n.byte q\n.endmacro\nmm r", ".ifdef q\n.byte q\n.endif", "q:", ".definelabel q,r", "label2 equ q"]), 1, 3)) + "\n.close\n"
            return f, args
        args = s.many(lambda s: s.pick(A), 0, 7)
        return f, [a.encode("utf-8").decode("utf-8") for a in args]

    def render(self, c):
        k, files, args, big = c
        def show(d):
            d = d if isinstance(d, bytes) else d.encode("utf-8", "surrogatepass")
            if len(d) > 6000: return "%d bytes: %s..." % (len(d), d[:300].decode("latin-1"))
            try: return d.decode("utf-8")
            except UnicodeDecodeError: return "hex:" + d.hex()
        return {"kind": k, "args": args, "files": {n: show(d) for n, d in files.items()}}

    def requested(self, files):
        """may the program ask for a lot of output or time?"""
        for n, d in files.items():
            if not n.endswith(".asm"): continue
            t = d if isinstance(d, str) else d.decode("latin-1")
            if re.search(r"<<|\*|\de\d|\.expfunc|regex", t): return True
            for m in re.findall(r"[0-9][0-9A-Fa-fxXob]*", t):
                try: v = int(m, 0)
                except ValueError: v = int(re.sub(r"\D", "", m) or 0)
                if v > 4095 or len(m) > 4: return True
        return False

    def huge(self, files):
        """does a binary file ask for a lot of memory with its alignments and sizes?"""
        for n, d in files.items():
            if not isinstance(d, bytes): continue
            if b"LNK\x02" in d and any(int.from_bytes(d[i + 5:i + 9], "little") > 0xFFFFF for i, b in enumerate(d) if b == 0x30): return True      # uninitialized symbols
            for m in re.finditer(rb"\x7fELF", d):
                e = d[m.start():]; o = "big" if e[5:6] == b"\x02" else "little"
                w = lambda p, k=4: int.from_bytes(e[p:p + k], o)
                T = [(w(0x1C) + i * w(0x2A, 2), (0x10, 0x14, 0x1C)) for i in range(min(w(0x2C, 2), 64))] + [(w(0x20) + i * w(0x2E, 2), (0x14, 0x20)) for i in range(min(w(0x30, 2), 64))]
                if any(w(p + q) > 0xFFFFF for p, Q in T for q in Q): return True
                for p, t in ((p, w(p + 4)) for p, Q in T if len(Q) == 2):      # common symbols
                    if t == 2 and any(w(w(p + 0x10) + i + q) > 0xFFFFF for i in range(0, min(w(p + 0x14), 4096), 16) for q in (4, 8)): return True
        return False

    def run(self, c, env):
        k, files, args, big = c
        if any("/" in n and n.startswith("/") for n in files): return 0, [], None
        r = env.run(files, args)
        key = [repr((sorted(files.items(), key=str), args))]
        if r.rc in (0, 1) and not r.timeout and "runtime error:" not in r.text and "AddressSanitizer" not in r.text: return 1, key, None
        t = r.text
        if "hard rss limit" in t or "bad_alloc" in t or "allocation-size-too-big" in t or "out-of-memory" in t or "length_error" in t or r.rc == -25:
            if self.huge(files) or self.requested(files): return 1, [], None
            raise Fail("memory or output exhausted: " + self.summary(r))
        if r.timeout:
            if self.huge(files) or self.requested(files): return 1, [], None
            raise Fail("does not terminate within %d s" % self.TIMEOUT)
        raise Fail(self.summary(r), "regex-stack" if "stack-overflow" in t and "regex_" in t and "regex_" in repr(files) else None)

    def summary(self, r):
        t = r.text
        m = re.search(r"SUMMARY: (.*)", t) or re.search(r"(.*runtime error:.*)", t) or re.search(r"(terminate called.*\n.*)", t)
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+).*?/src/([\w/.]+:\d+)", t)[:4]
        return "rc=%d %s | %s" % (r.rc, m.group(1)[:300] if m else t[-300:], " < ".join("%s %s" % (a.split("(")[0], b) for a, b in fr))

CHECK = C21()
