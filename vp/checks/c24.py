import os, re
from ..core import Check, Fail
from . import c21 as C21

HEADS = [".psx", ".ps2", ".psp", ".n64", ".rsp", ".gba", ".nds", ".3ds", ".arm.big", ".arm.little", ".saturn", ".32x"]
MIPS = {".psx", ".ps2", ".psp", ".n64", ".rsp"}; ARM = {".gba", ".nds", ".3ds", ".arm.big", ".arm.little"}; SH = {".saturn", ".32x"}
NAMES = ["n0", "n1", "n2"]
# every fragment both leaves something behind and notices what an earlier run has left behind
ANY = [
    lambda s: ".byte %d" % s.below(256), lambda s: ".dh 0x1234", lambda s: ".d32 0x12345678,%d" % s.below(99), lambda s: ".d64 0x0102030405060708",
    lambda s: ".ascii \"ab%d\"" % s.below(9), lambda s: ".string \"ab\"", lambda s: ".string \"AB\"", lambda s: ".stringn \"ba\"", lambda s: '.loadtable "t.tbl"', lambda s: '.loadtable "u.tbl"', lambda s: '.sjis "a"',
    lambda s: "%s equ %d" % (s.pick(NAMES), s.below(50)), lambda s: "%s equ" % s.pick(NAMES), lambda s: ".byte %s" % s.pick(NAMES), lambda s: "%s:" % s.pick(NAMES), lambda s: "@%s:" % s.pick(NAMES), lambda s: "@@%s:" % s.pick(NAMES),
    lambda s: ".d32 @%s" % s.pick(NAMES), lambda s: ".d32 @@%s" % s.pick(NAMES), lambda s: ".d32 %s" % s.pick(NAMES), lambda s: ".definelabel %s,0x%x" % (s.pick(NAMES), 0x1000 + s.below(64)), lambda s: "%s equ %s" % (s.pick(NAMES), s.pick(NAMES)),
    lambda s: ".macro %s,x\n.byte x\n.endmacro" % s.pick(NAMES), lambda s: ".macro %s\n@@l: .d32 @@l\n.endmacro\n%s" % ((s.pick(NAMES),) * 2), lambda s: "%s 7" % s.pick(NAMES), lambda s: ".expfunc %s(x),x+%d" % (s.pick(NAMES), s.below(9)), lambda s: ".byte %s(3)" % s.pick(NAMES),
    lambda s: ".ifdef %s\n.byte 1\n.else\n.byte 2\n.endif" % s.pick(NAMES), lambda s: ".byte defined(%s)" % s.pick(NAMES), lambda s: ".notice tostring(defined(%s))" % s.pick(NAMES),
    lambda s: ".erroronwarning %s" % s.pick(["on", "off"]), lambda s: ".warning \"w%d\"" % s.below(9), lambda s: ".notice \"x%d\"" % s.below(9), lambda s: ".notice outputname()", lambda s: ".notice tohex(org(),8)", lambda s: ".notice endianness()",
    lambda s: ".relativeinclude %s" % s.pick(["on", "off"]), lambda s: '.include "sub/b.asm"', lambda s: '.include "c.asm"', lambda s: '.include "%s.asm"' % s.pick("de"), lambda s: '.incbin "f.bin"', lambda s: '.notice readascii("f.bin",0,2)',
    lambda s: ".sym %s" % s.pick(["on", "off"]), lambda s: ".nocash %s" % s.pick(["on", "off"]), lambda s: ".nocash", lambda s: "dcb 1,2", lambda s: "dcd 1", lambda s: ".org 0x%x" % s.pick([0x80, 0x100, 0x108]), lambda s: ".orga 0x%x" % s.pick([8, 0x20]), lambda s: ".align 8", lambda s: ".headersize 0x%x" % s.pick([0, 0x40]),
    lambda s: ".area %d\n.byte 1,2\n.endarea" % s.pick([1, 2, 8]), lambda s: ".region %d\n.byte 1\n.endregion" % s.pick([1, 16]), lambda s: ".defineregion 0x%x,%d" % (s.pick([0x200, 0x208]), s.pick([8, 16])), lambda s: ".autoregion\n.d32 5\n%s:\n.endautoregion" % s.pick(NAMES),
    lambda s: ".func %s\n.byte 3\n.endfunc" % s.pick(NAMES), lambda s: ".rep 2\n.byte 4\n.endrep", lambda s: ".notice tostring(orga())", lambda s: ".if org() > 0x90\n.byte 1\n.endif", lambda s: ".fill %d" % s.below(9), lambda s: ".float 1.5", lambda s: ".notice tostring(1.5)",
    lambda s: "nop", lambda s: s.pick(HEADS), lambda s: ".byte isarm()", lambda s: ".notice tostring(isthumb())", lambda s: ".pool", lambda s: ".resetdelay", lambda s: ".fixloaddelay",
]
CLOSES = [lambda s: ".close", lambda s: '.create "p.bin",0x%x' % s.pick([0, 0x40]), lambda s: '.open "f.bin",0', lambda s: '.open "f.bin","q.bin",0']
MI = ["nop", "lw a0,4(a1)", "addu a2,a0,a0", "lw a0,4(a1)\naddu a2,a0,a0", "beq a0,a1,.", "jal 0x100", "li a0,0x12345678", "lui a0,1", "add a0,a1,a2", ".fixloaddelay", ".resetdelay", "sw a0,0(sp)", "ulw a0,4(a1)", ".notice tostring(hi(0x18000))", "lw a0,0(a1)\n.resetdelay\naddu a2,a0,a0"]
AI = [".arm", ".thumb", ".arm", ".thumb", "nop", "mov r0,1", "ldr r0,=0x12345678", "ldr r1,=0x1234", ".pool", "bx r14", "add r0,r1,r2", ".msg \"a\"", ".align 4", "mov r0,r1", ".byte isthumb()", "swi 3", "@@x: b @@x"]
SI = ["nop", "mov r1,r2", "mov.l @r1,r2", "rts", "add #1,r3", "bra .", "mov #4,r0"]
# programs that end in the middle of something
ENDS = [".error \"e\"", ".if 1", ".macro %s,x" % NAMES[0], ".func n1", ".area 4", ".region 8", ".autoregion", ".byte (", ".ascii \"abc", "jal", ".rep 2", "/* no end", ".byte nosuch", ".include \"missing.asm\"", ".word 1/", ".bogus", ".create \"r.bin\",0x40", ".byte n0(", ".notice 1 2", ".if n0 > ", ".byte 0x", ".d32 @@nosuch", "lw a0,0(a1)", "beq a0,a1,.", "ldr r0,=5", ".area 1\n.byte 1,2,3\n.endarea", ".org 0", ".expfunc n0(x),n0(x)\n.byte n0(1)", ".incbin \"missing.bin\"", ".loadtable \"missing.tbl\"", ".loadelf \"missing.elf\"", ".importobj \"missing.o\"", "n2 equ n2 n2\nn2", ".close\n.byte 1", ".close\n.close", ".definelabel n0,n1\n.definelabel n1,n0",
        "n0:\n.if n1 < 0x120\n.fill 0x40\n.endif\nn1:", ".if orga() % 2\n.else\n.byte 1\n.endif\n.byte n9", "@@a: @@a:", ".sym off", ".nocash on", ".erroronwarning on", ".relativeinclude on"]
SUPPORT = {"f.bin": bytes(range(32)), "t.tbl": "41=A\n42=B\n/00\n01=ab\n", "u.tbl": "05=a\n06=b\n07=A\n", "c.asm": ".byte 9\n", "sub/b.asm": ".byte 8\n.include \"c.asm\"\n", "sub/c.asm": ".byte 7\n",
           "d.asm": "@n0:\n@@n1:\n.byte 6\n.d32 @n0,@@n1\n", "e.asm": "@n1 equ 5\n.byte @n1\n"}

def program(s, mem=False):
    h = s.pick(HEADS) if mem or not s.bool(0.04) else None
    I = MI if h in MIPS else AI if h in ARM else SI if h in SH else ["nop", "mov r0,1"]
    def frag(s):
        k = s.wpick([(5, 0), (4, 1), (0.05 if mem else 0.3, 2)])
        if k == 0:
            t = s.pick(ANY)(s)
            return t if not mem or not re.search("outputname|headersize", t) else ".byte 1"        # a memory file has neither
        if k == 1: return s.pick(I)
        return s.pick(CLOSES)(s)
    L = s.many(frag, 0, 12)
    if s.bool(0.4): L.insert(s.below(len(L) + 1), s.pick(ENDS))
    if s.bool(0.3) and h in ARM: L.append(".pool")
    pre = [h] if h else []
    if mem: return "\n".join(pre), "\n".join(L) + "\n"
    if not s.bool(0.05): pre.insert(s.below(2) if pre else 0, '.create "o.bin",0x%x' % s.pick([0, 0x80, 0x100]))
    if not s.bool(0.1): L.append(".close")
    return "\n".join(pre), "\n".join(L) + "\n"

def hx(s):
    b = s.encode("utf-8", "surrogatepass") if isinstance(s, str) else s
    return b.hex() or "-"

def subsequence(a, b):
    i = iter(b)
    return all(x in i for x in a)

class C24(Check):
    ID = "C24"
    RULE = "a run that is not the first one of its process and writes a file, changes memory or reports a message, or a relation between two ways of running a program that reports or writes something; distinct = (job, jobs before it)"
    BUILD = "lib"
    QUICK, THOROUGH = 9000, 400000
    QUICK_S, THOROUGH_S = 90, 2400
    TIMEOUT = 30
    ASSUMPTIONS = ["runs of one process follow each other, armips offers no concurrent runs", "memory files report their address range like the generic output file (harness/libdriver.cpp)", "runs ended by a signal or a time limit belong to C21"]

    # ------------------------------------------------------------------ generation
    def opts(self, s):
        o = dict(silent=int(s.bool()), abs=int(s.bool(0.6)), eow=int(s.bool(0.15)), temp="", sym="", symver=0, equs=[], labels=[])
        if s.bool(0.25): o["temp"] = "temp.txt"
        if s.bool(0.25): o["sym"] = "sym.txt"; o["symver"] = s.pick([1, 2])
        if s.bool(0.25): o["equs"] = [[n, str(s.below(40))] for n in s.shuffle(NAMES)[:s.int(1, 2)]]
        if s.bool(0.25): o["labels"] = [[n, s.pick([0, 0x88, 0x1000])] for n in s.shuffle(NAMES)[:s.int(1, 2)]]
        return o
    def job(self, s):
        k = s.wpick([(4, "cli"), (3, "lib"), (3, "mem"), (2, "donor")])
        if k == "donor":
            files, args = C21.CHECK.base(s)
            if any(n.startswith("/") or ".." in n for n in files): files = SUPPORT
            if "a.asm" in files and s.bool(0.3):
                t = files["a.asm"]
                if isinstance(t, bytes): t = t.decode("utf-8", "replace")
                files = dict(files); files["a.asm"] = C21.CHECK.mut_text(s, t, False).encode("utf-8", "surrogatepass")
            return dict(kind="cli", files=files, args=[str(a) for a in args])
        files = dict(SUPPORT)
        if k == "mem":
            h, b = program(s, True); o = self.opts(s); o["base"] = s.pick([0, 0x80, 0x100])
            return dict(kind="mem", files=files, head=h, body=b, **o)
        h, b = program(s); files["a.asm"] = h + "\n" + b
        if s.bool(0.05): del files["a.asm"]
        if k == "lib": return dict(kind="lib", files=files, **self.opts(s))
        args = ["a.asm"]
        if s.bool(0.2): args += ["-temp", "temp.txt"]
        if s.bool(0.2): args += [s.pick(["-sym", "-sym2"]), "sym.txt"]
        if s.bool(0.15): args += ["-equ", s.pick(NAMES), str(s.below(40))]
        if s.bool(0.15): args += ["-definelabel", s.pick(NAMES), "0x1234"]
        if s.bool(0.1): args += ["-erroronwarning"]
        if s.bool(0.05): args += ["-stat"]
        if s.bool(0.05): args = ["sub/b.asm"] + args[1:]
        if s.bool(0.05): args += ["-root", "sub"]
        if s.bool(0.05): args += s.pick([["-bogus"], ["-equ"], ["x.asm"], ["-definelabel", "n0", "q"], ["-definelabel", "n0", "1", "-definelabel", "n0", "1"], ["-equ", "n1", "2", "-equ", "n1", "3"]])
        return dict(kind="cli", files=files, args=args)
    def gen(self, s): return s.many(self.job, 2, 5)

    def render(self, case):
        o = []
        for i, j in enumerate(case):
            o.append("=== run %d: %s ===" % (i, " ".join("%s=%s" % (k, v) for k, v in j.items() if k not in ("files", "head", "body"))))
            if j["kind"] == "mem": o.append(j["head"] + "\n" + j["body"])
            elif "a.asm" in j["files"]: t = j["files"]["a.asm"]; o.append(t if isinstance(t, str) else t.decode("utf-8", "replace"))
        return "\n".join(o)

    # ------------------------------------------------------------------ execution
    def line(self, env, i, j):
        d = os.path.join(env.dir, "j%d" % i)
        if j["kind"] == "cli": F = [d] + j["args"]
        else:
            src = j["head"] + "\n" + j["body"] if j["kind"] == "mem" else "a.asm"
            F = [d, str(j["silent"]), str(j["abs"]), str(j["eow"]), src, j["temp"], j["sym"], str(j["symver"]), "\n".join("%s=%s" % tuple(x) for x in j["equs"]), "\n".join("%s=%d" % tuple(x) for x in j["labels"])]
            if j["kind"] == "mem": F.append(str(j["base"]))
        return j["kind"] + " " + " ".join(hx(x) for x in F)
    def go(self, env, jobs):
        """run [(index, job)] in one process -> ([result per job], snapshot) or None"""
        files = {}
        for i, j in jobs:
            for n, d in j["files"].items(): files["j%d/%s" % (i, n)] = d
        jp = os.path.join(env.root, "jobs"); rp = os.path.join(env.root, "res")
        with open(jp, "w") as f: f.write("".join(self.line(env, i, j) + "\n" for i, j in jobs))
        if os.path.exists(rp): os.unlink(rp)
        for i, j in jobs: files.setdefault("j%d/.k" % i, "")
        r = env.run(files, [jp, rp])
        self.timeout = r.timeout; self.rc = r.rc
        if r.timeout or r.rc != 0: return None
        res = []; cur = None
        for l in open(rp).read().splitlines():
            p = l.split(" ")
            if p[0] == "rc": cur = dict(rc=int(p[1]), out=b"", err=[], mem=[])
            elif p[0] == "out": cur["out"] = b"" if p[1] == "-" else bytes.fromhex(p[1])
            elif p[0] == "err": cur["err"].append(b"" if p[1] == "-" else bytes.fromhex(p[1]))
            elif p[0] == "mem": cur["mem"].append([int(p[1]), p[2]])
            elif p[0] == "end": res.append(cur)
        if len(res) != len(jobs): return None
        snap = {}
        for n, d in env.snapshot().items():
            i, _, m = n.partition("/"); snap.setdefault(int(i[1:]), {})[m] = d
        for k, (i, j) in enumerate(jobs): res[k]["files"] = snap.get(i, {})
        return res
    @staticmethod
    def diff(a, b):
        for k in ("rc", "out", "err", "mem", "files"):
            if a[k] != b[k]:
                if k == "files":
                    n = sorted(x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x))[0]
                    return "file %s: %r / %r" % (n, a[k].get(n), b[k].get(n))
                return "%s: %r / %r" % (k, a[k], b[k])
        return None

    def run(self, case, env):
        jobs = list(enumerate(case))
        if isinstance(env, C21.FakeEnv): return env.run({})
        fresh = []
        for ij in jobs:
            r = self.go(env, [ij])
            if r is None and ij[1]["kind"] == "cli" or self.timeout: return 0, (), None       # crash or time limit: not this property
            if r is None: raise Fail("run %d: the process ends with status %d" % (ij[0], self.rc))
            fresh.append(r[0])
        together = self.go(env, jobs)
        if together is None: raise Fail("the runs succeed or fail one by one, but not in one process")
        n = 0; keys = []
        for k, (i, j) in enumerate(jobs):
            n += 1
            d = self.diff(fresh[k], together[k])
            if d: raise Fail("run %d gives another result after the earlier runs of the process than alone: (alone / after) %s" % (k, d))
            if k and (fresh[k]["out"] or fresh[k]["err"] or fresh[k]["mem"] or len(fresh[k]["files"]) > len(j["files"]) + 1): keys.append(("seq", self.render(case[:k + 1])))
        # relations between the ways of running
        for k, (i, j) in enumerate(jobs):
            if j["kind"] == "cli": continue
            f = fresh[k]; n += 1
            msgs = b"".join(e + b"\n" for e in f["err"])
            if j["silent"]:
                if f["out"]: raise Fail("run %d: a silent run prints %r" % (k, f["out"]))
            elif f["out"] != msgs: raise Fail("run %d: printed %r, errorsResult %r" % (k, f["out"], f["err"]))
            if msgs or f["mem"]: keys.append(("lib", self.render([j])))
            if j["kind"] == "lib":
                if not j["abs"]: continue
                args = ["a.asm"]
                if j["temp"]: args += ["-temp", j["temp"]]
                if j["sym"]: args += [["", "-sym", "-sym2"][j["symver"]], j["sym"]]
                for a, b in j["equs"]: args += ["-equ", a, b]
                for a, b in j["labels"]: args += ["-definelabel", a, "%d" % b]
                if j["eow"]: args.append("-erroronwarning")
                g = self.go(env, [(i, dict(kind="cli", files=j["files"], args=args))])
                if g is None: continue
                g = g[0]
                if "a.asm" not in j["files"]:
                    if f["rc"] == 0 or not f["err"]: raise Fail("run %d: no error for a missing source file" % k)
                    continue
                o = g["out"]
                if o.endswith(b"Aborting.\n"): o = o[:-10]
                if (g["rc"], o, g["files"]) != (f["rc"], msgs, f["files"]):
                    raise Fail("run %d: library and command line differ: %s" % (k, self.diff(dict(f, out=msgs, err=[]), dict(g, out=o, err=[]))))
            else:
                extra = set(f["files"]) - set(j["files"]) - {".k", j["temp"], j["sym"]}
                if extra: raise Fail("run %d: assembling to memory writes %s" % (k, sorted(extra)))
                if re.search(r"^\.(close|create|open)", j["body"], re.M):
                    # these directives do not exist there
                    if f["rc"] == 0: raise Fail("run %d: a directive that needs a file is accepted" % k)
                    continue
                files = dict(j["files"]); files["a.asm"] = "%s\n.create \"o.bin\",%d\n%s" % (j["head"], j["base"], j["body"]) + ("\n.close\n")
                o = {x: j[x] for x in ("abs", "eow", "temp", "sym", "symver", "equs", "labels")}
                g = self.go(env, [(i, dict(kind="lib", files=files, silent=1, **o))])
                if g is None: continue
                g = g[0]
                strip = lambda e: re.sub(rb"^(sub/)?[a-e]\.asm\(\d+\) ", b"", e)
                ge = [strip(e) for e in g["err"]]
                # (with errors the .close that the file needs may be the place of another one)
                if g["rc"] != f["rc"] or (ge != f["err"] if f["rc"] == 0 else not subsequence(f["err"], ge)): raise Fail("run %d: assembling to memory and to a file differ: rc %d / %d, messages %r / %r" % (k, f["rc"], g["rc"], f["err"], ge))
                if f["rc"] == 0:
                    img = bytearray(); 
                    for a, h in f["mem"]:
                        a -= j["base"]; b = bytes.fromhex(h)
                        if len(img) < a: img += bytes(a - len(img))
                        img[a:a + len(b)] = b
                    if bytes(img) != g["files"].get("o.bin", b""): raise Fail("run %d: memory holds %s, the file %s" % (k, bytes(img).hex(), (g["files"].get("o.bin") or b"").hex()))
        return n, keys, self.render(case)[:1500] if n > 2 else None

CHECK = C24()
