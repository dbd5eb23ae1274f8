#!/usr/bin/env python3
"""python3 mutate.py OUT.jsonl [--n N] [--seed S] [--workers W] [--secs S] [--files REGEX]
Random source mutants of /repo: discards those that do not compile, are equal in object code or are
killed by the repository's tests, runs the checks over the rest and records which one kills each.
Works on copies under /tmp/mut; used to look for holes in the checks, never by a check."""
import sys, os, re, json, random, subprocess, shutil, argparse, hashlib, threading, queue, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
ORDER = [
    (r"Archs/ARM/Arm(Opcodes|Parser)|CArmInstr", "C10 C12 C11 C17 C15"),
    (r"Archs/ARM/.*Thumb", "C11 C12 C17"),
    (r"Archs/ARM/Pool|Archs/ARM/Arm\.cpp", "C12 C10 C11"),
    (r"Archs/ARM/ArmExpr", "C22"), (r"ElfRelocator|ELF/ElfFile", "C19 C20"),
    (r"MipsElfFile", "C20"), (r"PsxReloc|MipsElfReloc", "C23"), (r"PsxReloc", "C23"), (r"MIPS/MipsMacros", "C14 C15"), (r"MIPS/MipsExpr", "C22"),
    (r"Archs/MIPS", "C13 C14 C15 C17"), (r"SuperH", "C16 C17"),
    (r"Core/Expression\.|ExpressionParser", "C01 C22 C06 C08"), (r"ExpressionFunction", "C22"),
    (r"Tokenizer", "C02 C07 C01"), (r"DirectivesParser", "C04 C03 C09 C08 C06 C17 C18"),
    (r"Parser/Parser", "C07 C08 C06 C02 C09"), (r"FileManager|CDirectiveFile|FileClasses", "C04 C05 C20 C18 C02"),
    (r"Area|Allocations", "C09"), (r"CDirectiveData|EncodingTable", "C03 C18"),
    (r"Symbol|Label", "C06 C17"), (r"Conditional", "C08"), (r"Main/|Core/Assembler|Misc", "C05 C17 C06"),
]
ALL = ["C%02d" % i for i in range(1, 25) if i != 21]

def order(f):
    o = []
    for r, l in ORDER:
        if re.search(r, f):
            o += [x for x in l.split() if x not in o]
    return o, [x for x in ALL if x not in o]

OPS = [
    (r"(?<![<>=!\-+&|])<(?![<=])(?= )", ["<=", ">="]), (r"(?<![<>=!\->])>(?![>=])(?= )", [">=", "<="]),
    (r"<=(?!>)", ["<", ">"]), (r"(?<!-)>=", [">", "<"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= ", " = "]),
    (r" -= ", [" += "]), (r" \|= ", [" = "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"<< ", [">> "]), (r">> ", ["<< "]), (r" & ", [" | "]), (r" \| ", [" & ", " ^ "]), (r"\+\+", ["--"]),
    (r"\b(\d+)\b", ["INC", "DEC"]), (r"\b0x([0-9a-fA-F]+)\b", ["FLIP"]), (r"if \((?!\))", ["if (!(", "if (false && (", "if (true || ("]),
    (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"!(?=[a-zA-Z(])", [""]), (r"\b(ARM|THUMB|MO|SHMO|MA)_\w+ ?\|", [""]),
    (r"\belse\b(?! if)", ["if (true)", "if (false)"]), (r"int64_t", ["int32_t"]), (r"uint32_t", ["int32_t"]), (r"std::max", ["std::min"]), (r"std::min", ["std::max"]),
]
STMT = re.compile(r"^\s+(?!return|const|auto|using|case|else|if|for|while|delete|typedef)[A-Za-z_][\w.:\->\[\]*]*(\(.*\)|(->|\.)\w+.*|\s*[|+&-]?= .*);\s*$")

def candidates(files):
    out = []
    for f in files:
        lines = open(os.path.join("/repo", f), encoding="latin1").read().split("\n")
        lo, hi = (30, 608) if f.endswith("FileClasses.cpp") else (0, 0)
        for i, l in enumerate(lines):
            if lo <= i < hi or re.match(r"\s*(//|#|\*|/\*)", l) or not l.strip():
                continue
            code = l.split("//")[0]
            mask = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group(0)), code)
            c = []
            if STMT.match(code):
                c.append((f, i, re.match(r"\s*", l).group(0) + ";")); c *= 2
            for pat, reps in OPS:
                for m in re.finditer(pat, mask):
                    for r in reps:
                        if r == "INC": n = str(int(m.group(1)) + 1)
                        elif r == "DEC":
                            if int(m.group(1)) == 0: continue
                            n = str(int(m.group(1)) - 1)
                        elif r == "FLIP":
                            v = int(m.group(1), 16); n = hex(v ^ (1 << random.randrange(max(1, v.bit_length()))))
                        elif r.startswith("if ("):
                            # close the bracket at the matching parenthesis
                            d = 0; k = m.start() + 3; e = -1
                            for q in range(k, len(mask)):
                                if mask[q] == "(": d += 1
                                elif mask[q] == ")":
                                    d -= 1
                                    if d == 0: e = q; break
                            if e < 0: continue
                            c.append((f, i, l[:m.start()] + r + l[m.end():e] + "))" + l[e + 1:])); continue
                        else: n = r
                        c.append((f, i, l[:m.start()] + n + l[m.end():]))
            w = 1
            if re.search(r"MipsOpcodes.cpp|ShOpcodes.cpp|ArmOpcodes.cpp|ThumbOpcodes.cpp", f) and "{" in l: w = 0.15
            out += [(w, x) for x in c]
    return out

def sh(cmd, env=None, t=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=t, cwd=cwd, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")

class Worker(threading.Thread):
    def __init__(self, n, q, out, a):
        super().__init__(daemon=True); self.n, self.q, self.out, self.a = n, q, out, a
        d = self.d = "%s/w%d" % (W, n)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copytree("/repo", d + "/src", ignore=shutil.ignore_patterns("_build", ".git"))
        shutil.copytree(VERIF, d + "/v", ignore=shutil.ignore_patterns(".build", ".git", "seeded", "evidence", "replays"))
        self.env = dict(os.environ, VP_REPO=d + "/src", VP_BUILD=d + "/b", VERIF_SEED=str(a.seed), LC_ALL="C.UTF-8", TMPDIR=d + "/tmp")
        os.makedirs(d + "/tmp"); os.makedirs(d + "/v/evidence"); os.makedirs(d + "/v/replays")
    def build(self):
        rc, o = sh(["python3", "-c", "from vp import build; build.build('rel')"], self.env, 400, self.d + "/v")
        if rc: return rc, o
        return sh(["ninja", "-C", self.d + "/b/rel", "armipstests"], self.env, 400)
    def tests(self):
        b = self.d + "/b/rel/armipstests"; w = self.d + "/t"
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        bad = []
        shutil.copytree(self.d + "/src/Tests", w + "/T", ignore=shutil.ignore_patterns("output.bin", "output.txt", "*.temp.txt"))
        rc, o = sh([b, w + "/T"], None, 60, w + "/T")
        m = re.search(r"(\d+) out of (\d+) tests passed", o)
        return m and m.group(1) == m.group(2), o
    def digest(self):
        return hashlib.sha1(open(self.d + "/b/rel/armips", "rb").read()).hexdigest()
    def run(self):
        rc, o = self.build()
        if rc: print("base build failed", o[-2000:]); os._exit(2)
        ok, o = self.tests(); base = self.digest()
        if not ok: print("base tests fail", o[-500:]); os._exit(2)
        while True:
            try: f, i, new = self.q.get_nowait()
            except queue.Empty: return
            p = os.path.join(self.d, "src", f)
            orig = open(p, encoding="latin1", newline="").read()
            ls = orig.split("\n"); old = ls[i]; cr = "\r" if old.endswith("\r") else ""
            ls[i] = new.rstrip("\r") + cr
            open(p, "w", encoding="latin1", newline="").write("\n".join(ls))
            r = dict(file=f, line=i + 1, old=old.strip(), new=new.strip())
            t0 = time.time()
            try:
                rc, o = self.build()
                if rc: r["result"] = "nocompile"; continue
                if self.digest() == base: r["result"] = "equal"; continue
                ok, o = self.tests()
                if not ok: r["result"] = "tests"; continue
                a, b = order(f)
                r["result"] = "SURVIVED"
                for k, c in enumerate(a + b):
                    secs = self.a.secs if c in a else self.a.secs * 0.6
                    rc, o = sh(["python3", "check.py", c, "--workers", "1", "--secs", str(secs), "--cases", "1000000"], self.env, secs * 3 + 200, self.d + "/v")
                    if rc != 0:
                        r["result"] = c; r["rc"] = rc; r["nth"] = k; r["out"] = o[-300:]; break
            finally:
                open(p, "w", encoding="latin1", newline="").write(orig)
                r["t"] = round(time.time() - t0)
                self.out.write(json.dumps(r) + "\n"); self.out.flush()

if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=8); ap.add_argument("--secs", type=float, default=20); ap.add_argument("--files", default="")
    a = ap.parse_args(); random.seed(a.seed)
    files = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files"], text=True).split() if re.search(r"\.(cpp|h|inl)$", f) and not f.startswith("ext") and "Main/Tests" not in f and re.search(a.files, f)]
    c = candidates(files); print(len(c), "candidates")
    q = queue.Queue(); seen = set()
    while q.qsize() < min(a.n, len(c) // 2):
        x = random.choices(c, [w for w, _ in c])[0][1]
        if x not in seen: seen.add(x); q.put(x)
    out = open(a.out, "a")
    ws = [Worker(i, q, out, a) for i in range(a.workers)]
    for w in ws: w.start()
    for w in ws: w.join()
