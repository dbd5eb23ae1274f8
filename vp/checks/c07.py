from ..core import Check, Fail
import re

PN = ["pa", "pb", "Pc", "val"]

def ident(t): return re.match(r"^[A-Za-z_@.][A-Za-z0-9_@.]*$", t) is not None

class Macro:
    def __init__(self, name, params, body): self.name, self.params, self.body, self.count = name, params, body, 0

class Expander:
    """Reference preprocessor: token substitution written independently of armips."""
    def __init__(self, files, cl):
        self.files, self.cl = files, cl
        self.equs = {}; self.sequs = {}; self.lequs = {}
        self.macros = {}
        self.out = []
        self.uniq = 0
        self.fno = 0
        for n, toks in cl: self.equs[n.lower()] = toks
    def equ(self, toks, f):
        r = []
        for t in toks:
            l = t.lower()
            d = self.lequs if l.startswith("@@") else self.sequs.get(f, {}) if l.startswith("@") else self.equs
            if ident(t) and l in d: r += self.equ(d[l], f)
            else: r.append(t)
        return r
    def emit(self, toks): self.out.append(toks)
    def section(self): self.lequs = {}
    def label(self, name, f, unique=False):
        l = name.lower()
        if not l.startswith("@@"): self.section()
        self.emit([self.lname(name, f), ":"])
    def lname(self, t, f):
        l = t.lower()
        if l.startswith("@") and not l.startswith("@@"): return "@f%d_%s" % (f, l[1:])
        return t
    def plain(self, toks, f):
        return [self.lname(t, f) if ident(t) else t for t in toks]
    def file(self, name):
        f = self.fno; self.fno += 1
        for st in self.files[name]: self.stmt(st, f)
    def subst(self, toks, m):
        r = []
        for t in toks:
            if ident(t) and t.lower() in m: r += m[t.lower()]
            else: r.append(t)
        return r
    def stmt(self, st, f, m=None):
        """m: substitution map of the enclosing macro instance"""
        k = st[0]
        sub = (lambda t: self.equ(self.subst(t, m), f)) if m is not None else (lambda t: self.equ(t, f))
        if k == "equ":
            name, toks = st[1], sub(st[2])
            if m is not None: name = self.subst([name], m)[0]
            l = name.lower()
            d = self.lequs if l.startswith("@@") else self.sequs.setdefault(f, {}) if l.startswith("@") else self.equs
            d[l] = toks
        elif k == "macro":
            self.macros[st[1].lower()] = Macro(st[1], st[2], st[3])
        elif k == "call":
            mac = self.macros[st[1].lower()]
            self.call(mac, [sub(a) for a in st[2]], f)
        elif k == "include": self.file(sub([st[1]])[0].strip('"') if m is not None else st[1])
        elif k == "label":
            self.label(self.subst([st[1]], m)[0] if m is not None else st[1], f)
        elif k in ("stmt", "func"): self.emit(self.plain(sub(st[1]), f))
        elif k == "if":
            # the expanded program keeps only the branch that holds
            c = eval(" ".join(sub(st[1])))
            for s2 in (st[2] if c else st[3]): self.stmt(s2, f, m)
        else: raise AssertionError(k)
    def labels(self, body):
        r = set()
        for st in body:
            if st[0] in ("label", "equ"): r.add(st[1].lower())
            elif st[0] == "if": r |= self.labels(st[2]) | self.labels(st[3])
        return r
    def call(self, mac, args, f):
        m = {p.lower(): a for p, a in zip(mac.params, args)}
        self.uniq += 1
        for l in self.labels(mac.body):
            if l in m: continue
            pre = "@@" if l.startswith("@@") else "@" if l.startswith("@") else ""
            m[l] = ["%sxq%d_%s" % (pre, self.uniq, l[len(pre):])]
        for st in mac.body: self.stmt(st, f, m)

class Gen:
    def __init__(self, s):
        self.s = s
        self.files = {}          # name -> statements
        self.macros = []         # (name, nparams, kinds)
        self.gequ = []           # (name, kind)
        self.glabels = ["pa", "pb", "zz"]
        self.cl = []; self.args = []
        self.n = 0
        self.rel = s.bool(0.2)
        self.ban = ()
    def id(self): self.n += 1; return self.n
    def case(self, t):
        k = self.s.below(5)
        return t.upper() if k == 3 and ident(t) else t.lower() if k == 4 and ident(t) else t
    # -- expression tokens
    def atom(self, extra):
        s = self.s
        c = [(4, "n"), (1, "f"), (1, "p"), (2, "l")]
        if any(k == "e" for _, k in self.gequ): c.append((3, "ge"))
        if any(k == "frag" for _, k in self.gequ): c.append((1, "fr"))
        if extra: c.append((6, "x"))
        k = s.wpick(c)
        if k == "n": return [s.pick(["%d", "0x%X"]) % s.below(200)]
        if k == "f": return ["min", "("] + self.expr(extra, 1) + [","] + self.expr(extra, 1) + [")"]
        if k == "p": return ["("] + self.expr(extra, 2) + [")"]
        if k == "l": return [self.case(s.pick([l for l in self.glabels if l not in self.ban]))]
        if k == "ge": return [self.case(s.pick([n for n, q in self.gequ if q == "e"]))]
        if k == "fr": return [self.case(s.pick([n for n, q in self.gequ if q == "frag"]))] + self.atom(extra)
        return [self.case(s.pick(extra))]
    def expr(self, extra, mx=3):
        s = self.s
        r = self.atom(extra)
        for _ in range(s.below(mx)):
            r += [s.pick(["+", "-", "*", "&", "|", "^", "<<"])]
            r += self.atom(extra) if r[-1] != "<<" else [str(s.below(8))]
        return r
    def string(self):
        s = self.s
        return '"' + "".join(s.pick(["a", "B", ",", ";", "//", "(", " ", "pa", "\\n", "/*", "::", "'"]) for _ in range(s.int(1, 5))) + '"'
    def reg(self, regs):
        s = self.s
        c = ["t0", "a1", "v0", "s3"] + regs + [n for n, q in self.gequ if q == "reg"]
        return [self.case(s.pick(c))]
    def stmt(self, extra, regs=(), strs=()):
        """a plain statement; extra: extra expression identifiers in scope"""
        s = self.s
        regs = list(regs); strs = list(strs)
        k = s.wpick([(5, "d"), (2, "i"), (1, "s"), (1, "m"), (1, "fill")])
        if k == "d":
            r = [self.case(s.pick([".word", ".halfword", ".byte", ".d32"] + [n for n, q in self.gequ if q == "dir"]))]
            r += self.expr(extra)
            for _ in range(s.below(3)): r += [","] + self.expr(extra)
            return ("stmt", r)
        if k == "i":
            op = [self.case(s.pick(["addu", "subu", "xor"] + [n for n, q in self.gequ if q == "op"]))]
            return ("aligned", op + self.reg(regs) + [","] + self.reg(regs) + [","] + self.reg(regs))
        if k == "m":
            return ("aligned", ["lw"] + self.reg(regs) + [","] + [str(4 * s.below(9))] + ["("] + self.reg(regs) + [")"])
        if k == "fill": return ("stmt", [".fill", str(s.below(6)), ","] + self.expr(extra, 2))
        c = [self.string()] + strs + [n for n, q in self.gequ if q == "str"]
        return ("stmt", [self.case(s.pick([".ascii", ".db"])), self.case(s.pick(c))])
    def push(self, L, st):
        if st[0] == "aligned":
            L.append(("stmt", [".align", "4"])); st = ("stmt", st[1])
        L.append(st)
    # -- definitions
    def equ(self, L):
        s = self.s; n = "Eq%d" % self.id()
        self.ban = PN       # an equ naming a macro parameter would be captured in a body: order not claimed
        k = s.wpick([(4, "e"), (1, "frag"), (1, "reg"), (1, "op"), (1, "dir"), (1, "str")])
        if k == "e": v = self.expr([], 3)
        elif k == "frag": v = self.atom([]) + [s.pick(["+", "-", "*"])]
        elif k == "reg": v = self.reg([])
        elif k == "op": v = [s.pick(["addu", "or"])]
        elif k == "dir": v = [".word"] + self.expr([]) + [","]
        else: v = [self.string()]
        L.append(("equ", n, v)); self.gequ.append((n, k)); self.ban = ()
    def chain(self, L):
        """equs in terms of each other, defined in any order before the first use"""
        s = self.s; i = self.id(); n = s.pick([2, 3, 5, 8, 17, 40, 120])
        name = lambda j: "Ch%d_%d" % (i, j)
        self.ban = PN
        D = [("equ", name(0), self.expr([], 2))]
        self.ban = ()
        for j in range(1, n):
            a = [self.case(name(j - 1))]
            D.append(("equ", name(j), s.pick([a, a + ["+", "1"], ["3", "^"] + a, ["("] + a + [")"], a + ["*", "1"]])))
        k = s.below(3)
        if k == 1: D = D[::-1]
        elif k == 2: j = s.below(n); D = D[j:] + D[:j]
        L.extend(D)
        self.gequ.append((name(n - 1), "e")); self.gequ.append((name(s.below(n)), "e"))
        L.append(("stmt", [".word", self.case(name(n - 1))]))
    def macro(self, L):
        s = self.s; n = s.pick(["Mac%d", "mk_%d"]) % self.id()
        np = s.below(4)
        params = PN[:np]
        if s.bool(0.2): params = params[::-1]
        kinds = [s.wpick([(5, "e"), (2, "reg"), (1, "str"), (1, "lab"), (1, "flag")]) for _ in params]
        es = [p for p, k in zip(params, kinds) if k in ("e", "flag")]
        rs = [p for p, k in zip(params, kinds) if k == "reg"]
        ss = [p for p, k in zip(params, kinds) if k == "str"]
        body = []
        own = []
        flags = [p for p, k in zip(params, kinds) if k == "flag"]
        labs = [p for p, k in zip(params, kinds) if k == "lab"]
        plan = []
        if s.bool(0.5): own.append(s.pick(["own_a", "@own_b", "@@own_c"]))
        if s.bool(0.3): own.append("@@own_d")
        pend = list(own) + labs
        localeq = []
        def refs():
            # static/global labels end the scope of local labels: locals are only usable when no other label is pending or placed between
            return es + [o for o in own if not o.startswith("@@")] + (own if all(o.startswith("@@") for o in own) and not labs else []) + labs + localeq
        def item(s):
            k = s.wpick([(5, "st"), (2, "lab"), (2, "call"), (1, "if"), (1, "eq"), (1, "inc")])
            if k == "st": self.push(body, self.stmt(refs(), rs, ss))
            elif k == "lab" and pend: body.append(("label", pend.pop(0)))
            elif k == "call" and self.macros: body.append(self.callst(refs(), rs, ss, nolab=True))
            elif k == "if" and flags:
                a, b = [], []
                self.push(a, self.stmt(refs(), rs, ss)); self.push(b, self.stmt(refs(), rs, ss))
                # labels that only some calls define
                for br in (a, b):
                    if s.bool(0.35):
                        l = ("@@" if any(o.startswith("@@") for o in own) else s.pick(["", "@", "@@"])) + "br%d" % self.id()
                        br.insert(s.below(2), ("label", l)); br.append(("stmt", [".word", self.case(l)]))
                body.append(("if", [s.pick(flags), s.pick(["==", ">", "<"]), str(s.below(4))], a, b))
            elif k == "eq" and len(localeq) < 2:
                e = "leq%d" % len(localeq)
                body.append(("equ", e, self.expr(es, 2))); localeq.append(e)
            elif k == "inc" and not self.rel:
                fn = "k%d.asm" % self.id()
                self.files[fn] = [("stmt", [".byte", str(s.below(256)), ",", "0x77"])]
                body.append(("incl", '"%s"' % fn))
        self.ban = params
        s.many(item, 1, 7)
        self.ban = ()
        for p in pend: body.append(("label", p))
        self.fix(body)
        L.append(("macro", n, params, body))
        self.macros.append((n, kinds))
    def fix(self, body):
        for i, st in enumerate(body):
            if st[0] == "incl": body[i] = ("include", st[1])
    def callst(self, extra, rs, ss, nolab=False):
        s = self.s
        c = [m for m in self.macros if not nolab or "lab" not in m[1]]
        if not c: return self.stmt1(extra)
        n, kinds = s.pick(c)
        args = []
        for k in kinds:
            if k == "e": args.append(self.expr(extra, 3))
            elif k == "reg": args.append(self.reg(list(rs)))
            elif k == "str": args.append([s.pick([self.string()] + list(ss) + [q for q, z in self.gequ if z == "str"])])
            elif k == "flag": args.append([str(s.below(4))])
            elif k == "lab":
                l = "Plb%d" % self.id(); args.append([l]); self.newlab = l
        return ("call", self.case(n), args)
    def stmt1(self, extra):
        return ("stmt", [".byte"] + self.expr(extra))
    def recmacro(self, L):
        n = "Rec%d" % self.id()
        s = self.s
        body = [("stmt", [".byte", "val", ",", "0x55"]), ("if", ["(", "val", ")", ">", "0"], [("call", n, [["val", "-", "1"]])], [("stmt", [".byte", "0xEE"])])]
        if s.bool(): body.insert(0, ("label", s.pick(["@@rl", "@rl", "rl"])))
        L.append(("macro", n, ["val"], body))
        L.append(("call", n, [[str(s.wpick([(20, s.below(12)), (1, s.int(100, 127))]))]]))   # up to 128 levels are documented
        if s.bool(0.04):               # more instances than fit in 8 bits
            for i in range(s.pick([130, 258, 300])): L.append(("call", n, [[str(i & 1)]]))
    def widemacro(self, L):
        """many parameters, each used somewhere"""
        s = self.s; n = "Wide%d" % self.id(); k = s.pick([8, 9, 10, 12, 16, 17, 33, 40])
        P = [self.case("wp%d" % i) for i in range(k)]
        order = s.shuffle(list(range(k))) if s.bool() else list(range(k))
        body = [("stmt", [".byte"] + sum([([","] if j else []) + ["(", P[i].lower() if s.bool() else P[i], ")", "*", str(i + 1)] for j, i in enumerate(order[a:a + 8])], [])) for a in range(0, k, 8)]
        L.append(("macro", n, P, body))
        for _ in range(s.int(1, 2)): L.append(("call", self.case(n), [s.pick([[str(s.below(90))], [str(s.below(9)), "+", str(s.below(9))]]) for _ in P]))
    def funcmacro(self, L):
        """a macro whose body defines an expression function; its name, parameters and body may come from the arguments"""
        s = self.s; i = self.id(); fn = "Fn%d" % i; np = s.int(1, 2)
        fpar = ["fx", "fy"][:np]
        params, args = [], []
        def arg(toks):
            if not s.bool(0.6): return toks
            p = "q%d" % len(params); params.append(p); args.append(toks); return [p]
        name = arg([fn]); ps = [arg([p]) for p in fpar]
        body = arg(self.expr(fpar, 2))
        if s.bool(0.5): body = body + [s.pick(["+", "-", "|"])] + [s.pick([q for p in ps for q in p])]
        decl = [".expfunc"] + name + ["("] + sum([([","] if j else []) + q for j, q in enumerate(ps)], []) + [")", ","] + body
        m = "Mkf%d" % i
        mb = [("func", decl)]
        if s.bool(0.4):
            mb.append(("stmt", [".word"] + name + ["("] + sum([([","] if j else []) + [str(s.below(50))] for j in range(np)], []) + [")"]))
        L.append(("macro", m, params, mb)); L.append(("call", self.case(m), args))
        L.append(("stmt", [".word", self.case(fn), "("] + sum([([","] if j else []) + self.expr([], 2) for j in range(np)], []) + [")"]))
    def file(self, name, depth):
        s = self.s
        L = []
        self.files[name] = L
        seq = []; leq = [0]
        def item(s):
            k = s.wpick([(4, "st"), (5, "call"), (3, "equ"), (3, "macro"), (1, "inc"), (2, "lab"), (1, "sequ"), (1, "lequ"), (1, "slab"), (1, "rec"), (1, "fm"), (0.4, "chain"), (0.2, "wide")])
            if k == "st": self.push(L, self.stmt(seq))
            elif k == "call":
                if self.macros:
                    self.newlab = None
                    L.append(self.callst(seq, [], []))
                    if self.newlab: self.glabels.append(self.newlab); self.newlab = None
                    leq[0] = 0
            elif k == "equ": self.equ(L)
            elif k == "macro": self.macro(L)
            elif k == "rec": self.recmacro(L); leq[0] = 0
            elif k == "chain": self.chain(L)
            elif k == "wide": self.widemacro(L)
            elif k == "fm": self.funcmacro(L); leq[0] = 0
            elif k == "lab":
                n = "Glob%d" % self.id(); L.append(("label", n)); self.glabels.append(n); leq[0] = 0
            elif k == "slab":
                n = "@sl%d" % len(L); L.append(("label", n)); L.append(("stmt", [".word", n, "+", "1"])); leq[0] = 0
            elif k == "sequ":
                n = "@se%d" % len(seq); L.append(("equ", n, self.expr([], 2))); seq.append(n)
            elif k == "lequ":
                if leq[0] < 3:
                    n = "@@le%d" % leq[0]; leq[0] += 1
                    # start a section of its own, so that the name is free
                    g = "Glob%d" % self.id(); L.append(("label", g)); leq[0] = 1; n = "@@le0"
                    L.append(("equ", n, self.expr([], 2)))
                    for _ in range(s.int(1, 2)): L.append(("stmt", [".word"] + self.expr([n])))
            elif k == "inc":
                if depth < 2 and len(self.files) < 8:
                    d = name.rsplit("/", 1)[0] + "/" if "/" in name and self.rel else ""
                    sub = s.pick(["", "d%d/" % depth])
                    rel = sub + "i%d.asm" % self.id()
                    L.append(("include", d + rel, rel if self.rel else d + rel))
                    self.file(d + rel, depth + 1)
        s.many(item, 2 if depth else 6, 8 if depth else 26)
    def build(self):
        s = self.s
        for i in range(s.wpick([(2, 0), (1, 1), (1, 2)])):
            n = "Clq%d" % i
            if s.bool(0.5):
                v = s.pick(["ab", "x y", "a;b", "q,r"]); self.args += ["-strequ", n, v]; self.cl.append((n, ['"%s"' % v])); self.gequ.append((n, "str"))
            else:
                v = [str(s.below(99)), "+", str(s.below(99))]; self.args += ["-equ", n, " ".join(v)]; self.cl.append((n, v)); self.gequ.append((n, "e"))
        self.file("a.asm", 0)
        tail = ["pa:", ".word 0x1111", "pb:", ".word 0x2222", "zz:"] if s.bool(0.5) else [".definelabel pa,3", ".definelabel pb,0x4000", ".definelabel zz,77"]
        return tail

def render(stmts, s, g, out, ind=0):
    for st in stmts:
        k = st[0]
        if k == "equ":
            out.append("%s%s equ %s%s" % (st[1], s.pick(["", "", ":"]), join(st[2], s), s.pick(["", "", " ; c", " // \"x"])))
        elif k == "macro":
            out.append(s.pick([".macro ", ".MACRO "]) + ",".join([st[1]] + list(st[2])))
            render(st[3], s, g, out, ind + 1)
            out.append(".endmacro")
        elif k == "call": out.append(st[1] + " " + ",".join(join(a, s) for a in st[2]))
        elif k == "include":
            p = st[2] if len(st) > 2 else st[1]
            out.append(".include " + (p if p.startswith('"') else '"%s"' % p))
        elif k == "label": out.append(st[1] + ":")
        elif k in ("stmt", "func"): out.append(join(st[1], s))
        elif k == "if":
            out.append(".if " + join(st[1], s)); render(st[2], s, g, out); out.append(".else"); render(st[3], s, g, out); out.append(".endif")
        else: raise AssertionError(k)

def join(toks, s):
    return s.pick([" ", "  ", "\t"]).join(toks)

HEAD = ['.psx', '.create "o.bin",0x80010000']

class C07(Check):
    ID = "C07"
    RULE = "a program with at least one macro call or equ use that assembles, or an invalid preprocessing program; distinct = distinct program text"
    QUICK, THOROUGH = 36000, 1500000
    QUICK_S, THOROUGH_S = 90, 1500

    def gen(self, s):
        g = Gen(s); tail = g.build()
        files = {}
        for n, st in g.files.items():
            out = []; render(st, s, g, out); files[n] = out
        ex = Expander(g.files, g.cl); 
        ex.file("a.asm")
        flat = []
        for t in ex.out: flat.append("".join(t) if t[-1] == ":" else " ".join(t))
        head = HEAD + ([".relativeinclude on"] if g.rel else [])
        bad = None
        if s.bool(0.2): bad = self.bad(s, g, files)
        files["a.asm"] = head + files["a.asm"] + tail + [".close"]
        flat = HEAD + flat + tail + [".close"]
        ncalls = sum(1 for n in g.files for st in g.files[n] if st[0] in ("call", "equ"))
        return dict(files={k: "\n".join(v) + "\n" for k, v in files.items()}, args=["a.asm"] + g.args, flat="\n".join(flat) + "\n", bad=bad, calls=ncalls)

    def bad(self, s, g, files):
        A = files["a.asm"]
        ms = [m for m in g.macros]
        def ok(k, s): return {"e": "1", "reg": "t0", "str": '"x"', "flag": "1", "lab": "Zlab%d" % g.id()}[k]
        k = s.below(16)
        if k == 0 and ms:
            n, kinds = s.pick(ms); A.append(n + " " + ",".join([ok(x, s) for x in kinds] + ["7"])); return "too many arguments"
        if k == 1:
            c = [m for m in ms if m[1]]
            if c:
                n, kinds = s.pick(c); A.append(n + " " + ",".join([ok(x, s) for x in kinds][:-1])); return "too few arguments"
        if k == 2 and ms: A.extend([".macro %s" % g.case(s.pick(ms)[0]), ".byte 1", ".endmacro"]); return "duplicate macro"
        if k == 3 and g.gequ: A.append("%s equ 5" % s.pick(g.gequ)[0]); return "duplicate equ"
        if k == 4: A.extend(["later 5", ".macro later,pa", ".byte pa", ".endmacro"]); return "macro used before definition"
        if k == 5: A.extend([".word Elater", "Elater equ 5"]); return "equ used before definition"
        if k == 6: A.append("Erec equ 1+EREC"); return "recursive equ"
        if k == 7: A.extend(["Er1 equ Er2 + 1", "Er2 equ Er1"]); return "mutually recursive equ"
        if k == 8: A.extend([".macro inf,pa", "inf pa", ".endmacro", "inf 1"]); return "endless macro recursion"
        if k == 9: A.extend([".macro noend,pa", ".byte pa"]); return "macro not terminated"
        if k == 10: A.extend([".macro twice,pa", "pa:", ".byte 1", ".endmacro", "twice ZzL", "twice zzl"]); return "label argument defined twice"
        if k == 11: A.extend(["ZsecA:", "@@lq equ 5", "ZsecB:", ".word @@lq"]); return "local equ outside its section"
        if k == 12:
            inc = [f for f in g.files if f != "a.asm" and not f.startswith("k")]
            if inc: files[s.pick(sorted(inc))].append("@zse equ 4"); A.append(".word @zse"); return "static equ of another file"
        if k == 13: A.extend([".macro lm", "@@only: .byte 1", ".endmacro", "lm", ".word @@only"]); return "local label of a macro used outside"
        if k == 14: A.extend([".macro om", "onlyg: .byte 1", ".endmacro", "om", ".word onlyg"]); return "label of a macro used outside"
        A.append('.include "nothere.asm"'); return "missing include"

    def render(self, case): return case

    def run(self, case, env):
        r = env.run(case["files"], case["args"])
        if case["bad"]:
            if r.rc != 1 or not r.errors(): raise Fail("%s accepted: rc=%d %s" % (case["bad"], r.rc, r.text[:300]))
            if r.read("o.bin") is not None: raise Fail("output written although %s" % case["bad"])
            return 1, [case["bad"] + str(len(case["files"]["a.asm"]) % 50)], None
        o1 = r.read("o.bin"); e1 = r.errors(); t1 = r.text; rc1 = r.rc
        r2 = env.run({"a.asm": case["flat"]}, ["a.asm"])
        o2 = r2.read("o.bin")
        if rc1 != r2.rc: raise Fail("original: rc=%d %s\nexpanded by hand: rc=%d %s" % (rc1, t1[:400], r2.rc, r2.text[:400]))
        if o1 != o2:
            i = next((i for i in range(min(len(o1), len(o2))) if o1[i] != o2[i]), min(len(o1), len(o2))) if o1 is not None and o2 is not None else -1
            raise Fail("output differs from the hand-expanded program at byte %d: %s / %s" % (i, o1 and o1[i:i+16].hex(), o2 and o2[i:i+16].hex()))
        if rc1 == 0 and case["calls"]: return 2, [case["files"]["a.asm"]], case["files"]["a.asm"][:400]
        return 1, [], None

CHECK = C07()
