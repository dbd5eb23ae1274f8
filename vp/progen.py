"""Random valid programs as statements (token lists), rendered canonically or with a random layout.
A statement is (kind, tokens); kind 'line' statements must end at a newline (equ)."""
ARCHS = [".psx", ".n64", ".psp", ".ps2", ".rsp", ".gba", ".nds", ".3ds", ".thumbgba", ".saturn"]

MREG = ["a0", "a1", "t0", "t1", "t2", "s0", "v0", "v1", "r5", "r9", "sp", "gp", "ra", "zero"]
AREG = ["r%d" % i for i in range(13)] + ["sp", "lr"]
LREG = ["r%d" % i for i in range(8)]
SREG = ["r%d" % i for i in range(16)]

def num(s, v):
    k = s.below(4) if v >= 0 else 0
    if v < 0: return ["-", "%d" % -v]
    if k == 1: return ["0x%X" % v]
    if k == 2: return ["0%xh" % v]
    if k == 3: return ["(", "%d" % v, "+", "0", ")"]
    return ["%d" % v]

class Prog:
    def __init__(self, s, arch=None, features=("cond", "macro", "equ", "area", "func", "deflabel", "rept"), size=14, labels=True):
        self.s = s
        self.arch = arch or s.pick(ARCHS)
        self.feat = features
        self.labels = ["Lab%d_%s" % (i, s.pick(["a", "Xy", "loop"])) for i in range(s.below(4) if labels else 0)]
        self.pending = list(self.labels)
        self.macros = []
        self.equs = []
        self.nlocal = 0
        self.big = self.arch in (".n64", ".rsp", ".saturn")
        self.body = []
        s.many(lambda s: self.body.extend(self.stmt(2)), 1, size)
        for l in self.pending:
            self.body.append(("st", [l, ":"]))
        self.pending = []
    def head(self):
        a = self.arch
        return [("st", [".gba" if a == ".thumbgba" else a])] + ([("st", [".thumb"])] if a == ".thumbgba" else []) + \
            ([("st", [".arm"])] if a == ".gba" else [])
    def statements(self, out="o.bin", addr=0x08000000):
        if self.arch == ".rsp": addr = 0
        st = self.head() + [("st", [".create", '"%s"' % out, ",", "0x%X" % addr])]
        return st + self.body + [("st", [".close"])]
    def reg(self):
        a = self.arch
        if a == ".thumbgba": return self.s.pick(LREG)
        if a in (".gba", ".nds", ".3ds"): return self.s.pick(AREG)
        if a == ".saturn": return self.s.pick(SREG)
        return self.s.pick(MREG)
    def instr(self):
        s, a, r = self.s, self.arch, self.reg
        lab = s.pick(self.labels) if self.labels else None
        if a == ".thumbgba":
            k = s.below(7 if lab else 5)
            if k == 0: return [["mov", r(), ",", "#"] + num(s, s.below(256))]
            if k == 1: return [["add", r(), ",", r(), ",", "#"] + num(s, s.below(8))]
            if k == 2: return [["ldr", r(), ",", "[", r(), ",", "#"] + num(s, 4 * s.below(32)) + ["]"]]
            if k == 3: return [["push", "{", "r1", "-", "r4", ",", "lr", "}"]]
            if k == 4: return [["lsl", r(), ",", r(), ",", "#"] + num(s, s.below(32))]
            if k == 5: return [["b", lab]]
            return [["bl", lab]]
        if a in (".gba", ".nds", ".3ds"):
            k = s.below(7 if lab else 6)
            c = s.pick(["", "eq", "ne", "lt"])
            if k == 0: return [["mov" + c, r(), ",", r()]]
            if k == 1: return [["add" + c, r(), ",", r(), ",", "#"] + num(s, s.below(256))]
            if k == 2: return [["ldr", r(), ",", "[", r(), ",", "#"] + num(s, s.below(4096)) + ["]"]]
            if k == 3: return [["stmia", "sp", "!", ",", "{", "r0", "-", "r3", ",", "r6", "}"]]
            if k == 4: return [["orr" + c, r(), ",", r(), ",", r(), ",", "lsl", "#"] + num(s, s.below(32))]
            if k == 5: return [["cmp", r(), ",", "#"] + num(s, s.below(200))]
            return [["b" + c, lab]]
        if a == ".saturn":
            k = s.below(5 if lab else 4)
            if k == 0: return [["mov", r(), ",", r()]]
            if k == 1: return [["add", "#"] + num(s, s.below(127)) + [",", r()]]
            if k == 2: return [["mov.l", "@" + r(), ",", r()]]
            if k == 3: return [["nop"]]
            return [["bra", lab], ["nop"]]
        k = s.below(8 if lab else 6)
        if k == 0: return [["nop"]]
        if k == 1: return [["addu", r(), ",", r(), ",", r()]]
        if k == 2: return [["addiu", r(), ",", r(), ","] + num(s, s.int(-0x8000, 0x7fff))]
        if k == 3: return [["lui", r(), ","] + num(s, s.below(0x10000))]
        if k == 4: return [["sw", r(), ","] + num(s, 4 * s.below(64)) + ["(", r(), ")"]]
        if k == 5: return [["li", r(), ","] + num(s, s.below(1 << 32))]
        if k == 6: return [["beq", r(), ",", r(), ",", lab], ["nop"]]
        return [["j", lab], ["nop"]]
    def data(self):
        s = self.s
        k = s.below(6)
        if k == 0: return [".byte"] + sum(([","] * (i > 0) + num(s, s.below(256)) for i in range(4)), [])
        if k == 1: return [".d32"] + num(s, s.below(1 << 32))
        if k == 2: return [".ascii", '"%s"' % s.pick(["abcd", "a;cd", "a//b", "a::b", "A b,", "/**/", "x=1\\\\", '\\"q\\"x'])]
        if k == 3: return [".d16"] + num(s, s.below(65536)) + [","] + num(s, s.below(65536))
        if k == 4: return [".float", s.pick(["1.5", "2.25", "1e3"])]
        if self.labels: return [".d32", s.pick(self.labels), "+"] + num(s, s.below(64))
        return [".d32", "1"]
    def align(self): return [("st", [".align", "4"])] if self.arch in (".thumbgba", ".saturn") else []
    def stmt(self, depth):
        s = self.s
        f = self.feat
        opts = [(6, "instr"), (5, "data"), (1, "align"), (1, "fill"), (1, "skip")]
        if self.pending: opts.append((3, "label"))
        if "cond" in f and depth: opts.append((2, "cond"))
        if "macro" in f: opts.append((2, "macro"))
        if "equ" in f: opts.append((2, "equ"))
        if "area" in f and depth == 2: opts.append((1, "area"))
        if "func" in f and depth == 2: opts.append((1, "func"))
        if "deflabel" in f and depth == 2: opts.append((1, "deflabel"))
        if "locals" in f: opts.append((2, "local"))
        k = s.wpick(opts)
        S = lambda *t: ("st", list(t))
        if k == "instr": return [("st", t) for t in self.instr()] + self.align()
        if k == "data": return [("st", self.data())]
        if k == "align": return [S(".align", s.pick(["4", "8", "16"]))]
        if k == "fill": return [("st", [".fill"] + num(s, 4 * s.below(5)) + ([","] + num(s, s.below(256)) if s.bool() else []))]
        if k == "skip": return [("st", [".skip"] + num(s, 4 * s.below(4)))]
        if k == "label": return [S(self.pending.pop(0), ":")]
        if k == "deflabel":
            n = "Def%d" % len(self.labels); self.nlocal += 1
            n = "Defl%d" % self.nlocal
            return [("st", [".definelabel", n, ","] + num(s, 4 * s.below(1000))), ("st", [".d32", n])]
        if k == "cond":
            v = s.below(2)
            cond = s.pick([["%d" % v], ["1", "==", "%d" % v], ["%d" % v, "&&", "2", ">", "1"]])
            # labels must not be consumed inside a false branch
            save, self.pending = self.pending, []
            a = self.stmt(depth - 1); b = self.stmt(depth - 1)
            self.pending = save
            r = [("st", [".if"] + cond)] + a
            if s.bool(): r += [S(".else")] + b
            return r + [S(".endif")]
        if k == "area":
            save, self.pending = self.pending, []
            sub = sum(s.many(lambda s: self.stmt(0), 0, 3), [])
            self.pending = save
            return [("st", [".area"] + num(s, 4096) )] + sub + [S(".endarea")]
        if k == "func":
            self.nlocal += 1
            n = "Func%d" % self.nlocal
            return [S(".func", n)] + sum((self.stmt(0) for _ in range(s.below(3))), []) + [S(".endfunc")]
        if k == "local":
            self.nlocal += 1
            n = "@@loc%d" % self.nlocal
            return [S(n, ":"), S(".d32", n)]
        if k == "macro":
            if depth != 2 and not self.macros: return [("st", self.data())]
            if not self.macros or (depth == 2 and s.bool(0.4)):
                n = "Mac%d" % len(self.macros)
                np_ = s.below(3)
                ps = ["parm%d" % i for i in range(np_)]
                body = [("st", [".d32"] + (ps[0:1] or ["7"]))]
                if np_ > 1: body.append(("st", [".d16", ps[1], ",", ps[1]]))
                if s.bool(): body.append(S("@@ml", ":")); body.append(S(".d32", "@@ml"))
                self.macros.append((n, np_))
                hd = [".macro", n] + sum(([",", x] for x in ps), [])
                return [("st", hd)] + body + [S(".endmacro")]
            n, np_ = s.pick(self.macros)
            return [("st", [n] + sum(([","] * (i > 0) + num(s, s.below(5000)) for i in range(np_)), []))]
        if k == "equ":
            if depth != 2 and not self.equs: return [("st", self.data())]
            if not self.equs or (depth == 2 and s.bool(0.4)):
                n = "Equ%d" % len(self.equs)
                self.equs.append(n)
                return [("line", [n, "equ", s.pick(["1", "0x20", "(2+3)", "12 + 1", "0FFh"])])]
            return [("st", [".d32", s.pick(self.equs), "*", "1"])]
        raise AssertionError(k)

def is_word(c): return c.isalnum() or c in "_.@$\"'"

def canonical(stmts):
    L = []
    for kind, t in stmts:
        out = ""
        for i, x in enumerate(t):
            if out and (i == 1 and x not in (":",) or (is_word(out[-1]) and is_word(x[0]))): out += " "
            out += x
        L.append(out)
    return "\n".join(L) + "\n"

def recase(s, tok):
    if tok.startswith('"') or tok.startswith("'"): return tok
    m = s.below(4)
    if m == 0: return tok
    if m == 1: return tok.upper()
    if m == 2: return tok.lower()
    return "".join(c.upper() if s.bool() else c.lower() for c in tok)

COMMENTS = ["c", "a :: b", "\"x", "/* ;", "nop", ".byte 1", "\\", "'", "*", "**", "/"]
def block_comment(s, nl):
    k = s.below(3)
    if k == 0: return s.pick(["/* c */", "/**/", "/*;*/", "/* // */", "/* :: */"])
    if k == 1 and nl: return "/* a" + nl + " b" + nl + "*/"
    b = "".join(s.pick(["*", "/", " ", ";", ":", '"', "'", "\\", ".", "a", "1", "{", ")", nl or "-"]) for _ in range(s.int(1, 8)))
    if (b + "*/").find("*/") != len(b): b = b.replace("/", "x")
    return "/*" + b + "*/"

def layout(s, stmts, crlf=None):
    """random layout with the same meaning"""
    nl = "\n"
    out = ""
    comments = s.bool(0.7); case = s.bool(0.7); cont = s.bool(0.5); sep = s.bool(0.5); wsx = s.bool(0.7); blockc = s.bool(0.6)
    def ws(line, must=False):
        r = ""
        if wsx or must:
            r = s.pick(["", " ", "  ", "\t", " \t "]) if wsx else " "
        if blockc and s.bool(0.08):
            c = block_comment(s, nl if not line else "")
            r += c
        elif cont and not line and s.bool(0.08):
            r += " \\" + (s.pick(["", " ", " ; x", " // y"]) if wsx else "") + nl
        if must and not r: r = " "
        return r
    n = len(stmts)
    for i, (kind, t) in enumerate(stmts):
        line = kind == "line"
        st = ws(True) if not line else s.pick(["", " "])
        prev = ""
        for j, x in enumerate(t):
            y = recase(s, x) if case and not (line and j > 1) else x
            if j:
                if line: st += s.pick([" ", "\t", "  "])
                else:
                    must = (j == 1 and x != ":") or (is_word(prev[-1]) and is_word(y[0]))
                    g = ws(False, must)
                    # avoid accidental comment/operator creation
                    if not g and (prev[-1] + y[0]) in ("//", "/*", "::", "<<", ">>", "&&", "||", "==", "!=", "<=", ">="): g = " "
                    st += g
            st += y; prev = y
        nextline = i + 1 < n and stmts[i + 1][0] == "line"
        if line:
            out += st
            if comments and s.bool(0.3): out += " ;" + s.pick(COMMENTS)
            out += nl
            continue
        out += st + ws(True)
        if t[-1] == ":" and i + 1 < n and not nextline and s.bool(0.4):
            out += " "; continue
        if sep and not nextline and i + 1 < n and s.bool(0.4):
            out += " ::" + ws(True) + s.pick(["", " "]); continue
        if comments and s.bool(0.35):
            out += s.pick([";", "//", " ; ", " // "]) + s.pick(COMMENTS)
        out += nl
        while comments and s.bool(0.15):
            out += s.pick(["", "  ", "\t", "; c", "// c", block_comment(s, ""), block_comment(s, nl)]) + nl
    return out
