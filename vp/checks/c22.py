import math, re, struct
from ..core import Check, Fail
from .. import expr as X

LE = (".psx", ".psp", ".gba", ".nds")
MIPS = (".psx", ".psp", ".n64", ".ps2")
ARM = (".gba", ".nds")
TXT = bytes(33 + (i * 7) % 90 for i in range(3000))
MIX = b"abc\x00def ghi\x00\x00x~\x7f\x00ab\x01\x00a\x80b\x00end"

def roundhalf(v):
    f = math.floor(abs(v)); r = f + (abs(v) - f >= 0.5)
    return int(r if v >= 0 else -r)
def rng(v):
    if math.isnan(v) or not -2.0**63 <= v < 2.0**63: raise X.TypeErr()
def chk_float(v):
    if isinstance(v, float) and (math.isnan(v) or math.isinf(v)): raise X.TypeErr()
    return v

READ = {"readbyte": (1, False), "readu8": (1, False), "readu16": (2, False), "readu32": (4, False), "readu64": (8, False),
        "reads8": (1, True), "reads16": (2, True), "reads32": (4, True), "reads64": (8, True)}

def fib(n): return 1 if n <= 2 else fib(n - 1) + fib(n - 2)
def gcd(a, b): return a if b == 0 else gcd(b, X.Ev().binop("%", a, b))
TEMPL = {  # name: (definition, model, argument types, result type)
    "fib": ("fib(n), n <= 2 ? 1 : fib(n-1)+fib(n-2)", fib, "k", "i"),
    "gcd": ("gcd(a,b), b == 0 ? a : gcd(b,a%b)", gcd, "ii", "i"),
    "powr": ("powr(b,e), e <= 0 ? 1 : b*powr(b,e-1)", lambda b, e: X.wrap(b ** max(e, 0)), "ik", "i"),
    "rep": ("rep(s,n), n <= 0 ? \"\" : s + rep(s,n-1)", lambda a, n: a * max(n, 0), "sk", "s"),
    "isev": ("isev(n), n == 0 ? 1 : isod(n-1)", lambda n: int(n % 2 == 0), "k", "i"),
    "isod": ("isod(n), n == 0 ? 0 : isev(n-1)", lambda n: int(n % 2 == 1), "k", "i"),
    "bin": ("bin(n), n < 2 ? tostring(n) : bin(n/2)+tostring(n%2)", lambda n: "{:b}".format(n), "k", "s"),
    "rev": ("rev(s), strlen(s) == 0 ? \"\" : rev(substr(s,1,strlen(s)-1)) + substr(s,0,1)", lambda a: nest(len(a)) and a[::-1], "s", "s"),
    "half": ("half(x), x < 1.0 ? x : half(x/2)", None, "f", "f"),
    "pick": ("pick(c,a,b), c ? a : b", lambda c, a, b: a if c else b, "iss", "s"),
}
def nest(n):                             # the number of nested calls is limited
    if n > 900: raise X.TypeErr()
    return True
def _half(x):
    x = float(x)
    if x >= 2.0 ** 500: raise X.TypeErr()        # beyond the limit of nested calls
    while x >= 1.0: x /= 2
    return x
TEMPL["half"] = TEMPL["half"][:1] + (_half,) + TEMPL["half"][2:]

class Ev2(X.Ev):
    def __init__(self, ctx, env=None, depth=0):
        super().__init__(); self.ctx, self.env, self.depth = ctx, env or {}, depth
    def ev(self, n, sure=True):
        if n[0] == 'v': return self.env[n[1]]
        if n[0] == 'c': return self.call(n)
        if n[0] == 't':
            c = self.ev(n[1])
            if isinstance(c, str): raise X.TypeErr()
            return self.ev(n[2] if c != 0 else n[3])
        v = super().ev(n, sure)
        if n[0] == 'b' and isinstance(v, str):       # the text of infinities and NaN is unspecified
            for x in n[2:]: chk_float(self.ev(x))
        if n[0] == 'b' and n[1] in ("==", "!="):
            vals = [self.ev(x) for x in n[2:]]
            if any(isinstance(q, str) for q in vals): [chk_float(q) for q in vals]
        return v
    def call(self, n):
        _, name, args = n[:3]
        c = self.ctx
        if name in ("org", "orga", "headersize", "defined") and args:
            l = c["labels"].get(args[0][1])
            if name == "defined": return int(l is not None)
            return {"org": l[0], "orga": l[1], "headersize": l[0] - (l[1] or 0)}[name]
        if name == "org": return c["base"] + c["pos"]
        if name == "orga": return c["pos"]
        if name == "headersize": return c["base"]
        a = [self.ev(x) for x in args]
        if name in c["funcs"]:
            ps, body = c["funcs"][name]
            return Ev2(c, dict(zip(ps, a)), self.depth + 1).ev(body)
        if name in TEMPL: return TEMPL[name][1](*a)
        if name == "version": return c["version"]
        if name == "endianness": return "little" if c["arch"] in LE else "big"
        if name == "outputname": return c["out"]
        if name == "fileexists": return int(a[0] in c["files"])
        if name == "filesize": return len(c["files"][a[0]])
        if name == "tostring": return X.fmt(chk_float(a[0]))
        if name == "tohex":
            return "%0*X" % (a[1] if len(a) > 1 else 8, a[0] & X.M64)
        if name == "int":
            if isinstance(a[0], float): rng(a[0])
            return int(a[0])
        if name == "round":
            if isinstance(a[0], float): rng(a[0]); rng(float(roundhalf(a[0]))); return roundhalf(a[0])
            return a[0]
        if name == "float": return float(a[0])
        if name == "frac":
            if math.isinf(a[0]): return math.copysign(0.0, a[0])
            return math.modf(a[0])[0]
        if name == "abs":
            if a[0] == -(1 << 63) and isinstance(a[0], int): raise X.TypeErr()
            return abs(a[0])
        if name in ("min", "max"):
            if any(isinstance(x, float) for x in a):
                a = [float(x) for x in a]
                if any(math.isnan(x) or math.isinf(x) for x in a): raise X.TypeErr()
                r = (min if name == "min" else max)(a)
                if r == 0.0 and any(math.copysign(1, x) < 0 for x in a if x == 0): raise X.TypeErr()
                return r
            return (min if name == "min" else max)(a)
        if name == "strlen": return len(a[0])
        if name == "substr":
            if not 0 <= a[1] <= len(a[0]) or a[2] < 0: raise X.TypeErr()
            return a[0][a[1]:a[1] + a[2]]
        if name == "find":
            st = a[2] if len(a) > 2 else 0
            if st < 0: raise X.TypeErr()
            return a[0].find(a[1], st) if st <= len(a[0]) else -1
        if name == "rfind":
            st = a[2] if len(a) > 2 else -1
            if st < -1: raise X.TypeErr()
            if st == -1: return a[0].rfind(a[1])
            return a[0].rfind(a[1], 0, min(st, len(a[0])) + len(a[1]))
        if name == "regex_match": return int(re.fullmatch(a[1], a[0]) is not None)
        if name == "regex_search": return int(re.search(a[1], a[0]) is not None)
        if name == "regex_extract":
            m = re.search(a[1], a[0]); i = a[2] if len(a) > 2 else 0
            if not m or not 0 <= i <= m.re.groups: raise X.TypeErr()
            return m.group(i) or ""
        if name in READ:
            z, sg = READ[name]; d = c["files"][a[0]]; p = a[1] if len(a) > 1 else 0
            if p < 0 or p + z > len(d): raise X.TypeErr()
            return X.wrap(int.from_bytes(d[p:p + z], "little", signed=sg))
        if name == "readascii":
            d = c["files"][a[0]]; st = a[1] if len(a) > 1 else 0; ln = a[2] if len(a) > 2 else 0
            if not 0 <= st <= len(d) or ln < 0: raise X.TypeErr()
            d = d[st:st + ln] if ln else d[st:]
            d = d.split(b"\0")[0]
            if any(x < 0x20 or x >= 0x80 for x in d): raise X.TypeErr()
            return d.decode()
        if name == "hi": return (a[0] >> 16) + (a[0] >> 15 & 1) & 0xFFFF
        if name == "lo": return (a[0] & 0xFFFF ^ 0x8000) - 0x8000
        if name == "isarm": return int(c["arm"])
        if name == "isthumb": return int(not c["arm"])
        raise AssertionError(name)

def render(n):
    k = n[0]
    if k == 'v': return n[1]
    if k == 'c': return n[3] if len(n) > 3 else "%s(%s)" % (n[1], ",".join(render(x) for x in n[2]))
    if k in ('i', 'f', 's', 'n'): return X.render(n)
    if k == 'l': return n[1]
    if k == 'p': return "(" + render(n[1]) + ")"
    if k == 'u': return n[1] + "(" + render(n[2]) + ")"
    if k == 't': return "((%s) ? (%s) : (%s))" % tuple(render(x) for x in n[1:])
    return "(%s %s %s)" % (render(n[2]), n[1], render(n[3]))

I = lambda v: ('i', v, "%d" % v) if v >= 0 else ('p', ('u', '-', ('i', -v, "%d" % -v)))
CHARS = "aabbc01 .X"
def sleaf(s):
    if s.bool(0.1): return ('s', s.pick(["a\"b", "\\x", "", "%s%d", "tab;c//d", "1234567890"]))
    return ('s', "".join(s.pick(CHARS) for _ in range(s.below(9))))
def regex(s, d=2, grp=True):
    k = s.below(7)
    if d == 0 or k < 2: return s.pick(["a", "b", "c", "0", ".", "[ab]", "[^a]", "[0-9]", "X", "[a-c]"])
    if k in (2, 3): return regex(s, d - 1, grp) + regex(s, d - 1, grp)
    if k == 4: return s.pick(["a", "b", ".", "[ab]", "[^ab]", "[0-9]", "(?:ab)"]) + s.pick(["*", "+", "?", "{2}", "{1,2}", "*?", "+?"])
    if k == 5 and grp: return "(" + regex(s, d - 1, grp) + ")"
    if k == 6 and grp: return "(" + regex(s, d - 1, grp) + "|" + regex(s, d - 1, grp) + ")"
    return s.pick(["^", ""]) + regex(s, d - 1, grp) + s.pick(["$", ""])

FLT = [0.0, 0.5, 1.5, 2.5, 0.1, 3.0, 1e10, 123456.789, 0.49999999999999994, 4503599627370495.5, 1e300, 2.2250738585072014e-308, 9.5e18, 1e-5]
def fleaf(s):
    v = s.pick(FLT)
    t = ('f', v, "%r" % v if "e" not in repr(v) else "%.25f" % v if v > 1e-6 and v < 1e20 else {1e300: "1e300", 2.2250738585072014e-308: "22250738585072014e-324"}[v])
    return ('p', ('u', '-', t)) if s.bool(0.35) else t

class C22(Check):
    ID = "C22"
    RULE = "an expression with at least one function call whose value is defined, or one call that must be an error; distinct = (definitions used, expression text)"
    QUICK, THOROUGH = 60000, 2000000
    QUICK_S, THOROUGH_S = 90, 1500
    ASSUMPTIONS = ["strings are ASCII (characters beyond ASCII: known finding)", "multi-byte reads are checked on little-endian machines (the byte order on others is not documented)",
                   "regular expressions from the subset on which ECMAScript and Perl semantics agree", "negative counts, digits and negative search positions are not claimed"]

    def gen(self, s):
        if s.bool(0.1): return ("lazy", s.pick([".psx", ".gba", ".n64"]), s.below(6), self.lazy(s))
        if s.bool(0.02):     # functions of one architecture are not available on others, also after a switch back and forth
            a, e = s.pick([(".gba", "hi(1)"), (".nds", "LO(1)"), (".saturn", "lo(1)"), (".psx", "isarm()"), (".n64", "isThumb()"), (".saturn", "isarm()")])
            h = s.pick(["", ".psx\n", ".gba\n.thumb\n", ".nds\n", ".saturn\n", ".n64\n.rsp\n"])
            return ("bad", h + a, e)
        if s.bool(0.2): return ("bad", s.pick([".psx", ".gba", ".n64"]), self.bad(s))
        arch = s.pick([".psx", ".psp", ".gba", ".nds", ".n64", ".saturn"])
        base = s.pick([0, 0x100, 0x8000000, 0x80010000, 0x7FFFFFF0])
        files = {"f.bin": s.bytes(s.pick([0, 1, 7, 8, 9, 40])), "t.txt": TXT, "m.txt": MIX, "n.txt": self.nultext(s), "b.bin": bytes(range(0xF0, 0x100)) + bytes(range(0x10))}
        out = s.pick(["o.bin", "./o.bin", "sub/../o.bin"])
        used = [t for t in TEMPL if s.bool(0.4)]
        if "isev" in used or "isod" in used: used = sorted(set(used) | {"isev", "isod"})
        G = {"arch": arch, "files": files, "user": [(t, TEMPL[t][2], TEMPL[t][3]) for t in used], "vars": [], "pos": True}
        funcs = []
        for i in range(s.below(4)):
            ps = [("p%d%s" % (i, "abc"[j]), s.pick("ifs")) for j in range(s.int(1, 3))]
            G2 = dict(G, vars=ps, user=list(G["user"]))
            rt = s.pick("ifs")
            body = self.expr(s, G2, s.int(1, 3), rt)
            funcs.append(("uf%d" % i, [p[0] for p in ps], body, s.bool(0.2)))
            G["user"].append(("uf%d" % i, "".join(p[1] for p in ps), rt))
        arm = [False]
        def one(s):
            k = None
            if arch in ARM and s.bool(0.15): k = s.bool()
            ty = s.pick("iiffss")
            return k, ty, self.expr(s, G, s.int(1, 4), ty), s.bool(0.1), s.bool(0.1)
        return ("ok", arch, base, files, out, used, funcs, s.many(one, 1, 16, 0.9), s.bool(0.5))

    def nultext(self, s):
        b = bytearray(TXT[:s.pick([1500, 2048, 2049, 2900])])
        for _ in range(s.below(5)): b[min(len(b) - 1, s.pick([0, 5, 700, 1022, 1023, 1024, 1025, 1400, 2047, 2048, len(b) - 1]))] = 0
        return bytes(b)
    def case_name(self, s, n):
        k = s.below(8)
        return n.upper() if k == 1 else n.title() if k == 2 else n
    def call(self, s, name, args, text=None):
        t = "%s%s(%s)" % (self.case_name(s, name), s.pick(["", "", " "]) if False else "", s.pick([",", ", ", " , "]).join(render(x) for x in args))
        return ('c', name, args, t)

    def expr(self, s, G, d, ty):
        vs = [v for v in G["vars"] if v[1] == ty]
        if vs and s.bool(0.35): return ('v', s.pick(vs)[0])
        us = [u for u in G["user"] if u[2] == ty]
        if us and d > 0 and s.bool(0.25):
            u = s.pick(us); return self.call(s, u[0], [self.small(s, G, d - 1) if t == "k" else self.expr(s, G, d - 1, t) for t in u[1]])
        g = lambda t: self.expr(s, G, d - 1, t)
        if d <= 0 or s.bool(0.1):
            if ty == "i": return X.int_leaf(s) if s.bool(0.4) else I(s.int(-3, 20))
            return fleaf(s) if ty == "f" else sleaf(s)
        if s.bool(0.3):
            if ty == "i":
                k = s.below(5)
                if k == 0: return ('b', s.pick(["<", ">=", "==", "!="]), g("s"), g("s"))
                if k == 1: return ('t', g("i"), g("i"), g("i"))
                if k == 2: return ('b', s.pick(["<", "<=", ">", "==", "&&", "||"]), g("f"), g(s.pick("if")))
                return ('b', s.pick(["+", "-", "*", "&", "|", "^"]), g("i"), g("i"))
            if ty == "f": return ('b', s.pick(["+", "-", "*"]), g("f"), g(s.pick("if"))) if s.bool(0.8) else ('t', g("i"), g("f"), g("f"))
            return ('b', "+", g("s"), g(s.pick("sif"))) if s.bool(0.8) else ('t', g("i"), g("s"), g("s"))
        C = lambda n, *a: self.call(s, n, list(a))
        opt = lambda *a: list(a) if s.bool() else []
        if ty == "i":
            k = s.below(17)
            if k == 0: return C("strlen", g("s"))
            if k in (1, 2):
                src = g("s"); sub = ('s', s.pick(["", "a", "b", "ab", "0", "1 ", "X"])) if s.bool(0.7) else g("s")
                return C(s.pick(["find", "rfind"]), src, sub, *opt(I(s.int(0, 9))))
            if k in (3, 4): return C(s.pick(["regex_match", "regex_search"]), g("s"), ('s', regex(s)))
            if k == 5: return C("int", g(s.pick("if")))
            if k == 6: return C("round", g(s.pick("if"))) if s.bool() else C("round", ('b', "+", I(s.int(-9, 9)), ('f', 0.5, "0.5")))
            if k == 7: return C("abs", g("i"))
            if k in (8, 9): return C(s.pick(["min", "max"]), *[g("i") for _ in range(s.int(1, 5))])
            if k in (10, 11):
                n = s.pick(list(READ)); z = READ[n][0]
                if z > 1 and G["arch"] not in LE: n = "reads8"; z = 1
                f = s.pick([x for x in G["files"] if len(G["files"][x]) >= z] or ["t.txt"])
                L = len(G["files"][f])
                return C(n, ('s', f), *opt(I(s.pick([0, L - z, s.int(0, L - z)]))))
            if k == 12: return C("filesize", ('s', s.pick(list(G["files"])))) if s.bool() else C("fileexists", ('s', s.pick(list(G["files"]) + ["nope.bin", "zz/y"])))
            if k == 13:
                if G["arch"] in MIPS: return C(s.pick(["hi", "lo"]), g("i"))
                if G["arch"] in ARM and not G["vars"]: return C(s.pick(["isarm", "isthumb"]))
                return C("version")
            if k == 14: return C(s.pick(["org", "orga", "headersize"]))
            if k == 15: return C(s.pick(["org", "orga", "headersize"]), ('l', s.pick(["la", "lz"])))
            return C("defined", ('l', s.pick(["la", "lz", "dl", "undef_", "la2"]))) if s.bool() else C("org", ('l', "dl"))
        if ty == "f":
            k = s.below(5)
            if k == 0: return C("float", g(s.pick("iif")))
            if k == 1: return C("frac", g("f"))
            if k == 2: return C("abs", g("f"))
            a = [g(s.pick("if")) for _ in range(s.int(0, 3))] + [g("f")] + [g(s.pick("if")) for _ in range(s.int(0, 2))]
            return C(s.pick(["min", "max"]), *a)
        k = s.below(9)
        if k == 0: return C("tostring", g(s.pick("ifs")))
        if k == 1: return C("tohex", g("i"), *opt(I(s.int(0, 20))))
        if k in (2, 3):
            t = g("s")
            return C("substr", t, I(s.int(0, 4)), I(s.int(0, 9))) if s.bool(0.7) else C("substr", t, I(0), C("strlen", t))
        if k in (4, 5): return C("regex_extract", g("s"), ('s', regex(s)), *opt(I(s.int(0, 2))))
        if k == 6: return C(s.pick(["endianness", "outputname"]))
        f = s.pick(["m.txt", "m.txt", "t.txt", "n.txt", "f.bin", "b.bin"])
        L = len(G["files"][f])
        if f == "n.txt":
            e = C("readascii", ('s', f), *opt(I(s.pick([0, 1, 3, 6, 400, 1000, 1024, 1030])), *opt(I(s.pick([0, 20, 1000, 1024, 1030, 2048, 5000])))))
            return e if s.bool(0.3) else C("substr", e, I(0), I(12)) if s.bool() else C("tostring", C("strlen", e))
        if f == "t.txt": return C("readascii", ('s', f), I(s.pick([0, 1000, 1023, 1024, 2047, s.int(2900, 3000)])), I(s.pick([1, 24, 1023, 1024, 1025, s.int(1, 40), 2048])))
        return C("readascii", ('s', f), *opt(I(s.int(0, L)), *opt(I(s.int(0, 12)))))
    def small(self, s, G, d):
        if d > 0 and s.bool(0.3): return ('b', "&", self.expr(s, G, d, "i"), I(7))
        return I(s.int(0, 10))

    def bad(self, s):
        w = lambda: s.pick(["5", "1.5", "\"ab\""])
        num = lambda: s.pick(["5", "1.5", "0"])
        if s.bool(0.1):     # a declaration that is none
            return "1) + uf(1,2)\n" + s.pick([".expfunc", ".expfunc g", ".expfunc g,1", ".expfunc g(", ".expfunc g(a", ".expfunc g(a,", ".expfunc g()", ".expfunc g() 1", ".expfunc g(a b),1", ".expfunc g(a,,b),1", ".expfunc g(a,),1", ".expfunc g(,a),1", ".expfunc g(1),1", ".expfunc 5(a),1",
                    ".expfunc \"g\"(a),1", ".expfunc g[a],1", ".expfunc uf(a,b),a", ".expfunc UF(),1", ".expfunc min(a),1", ".if la == 0\n.expfunc g(),1\n.endif", ".expfunc g(a),a+\n.byte g(1)", ".expfunc g(a),\n.byte g(1)", ".expfunc g(a),a)\n.byte g(1)", ".expfunc g(a),a\n.byte g(1,2)", ".expfunc g(a),a\n.byte g()", ".expfunc g(a),a\n.byte g"]) + "\n.byte (1"
        k = s.below(9)
        if k == 0: return s.pick(["strlen(%s)", "substr(%s,0,1)", "find(%s,\"a\")", "rfind(\"a\",%s)", "regex_match(%s,\"a\")", "regex_search(\"a\",%s)", "regex_extract(%s,\"a\")", "fileexists(%s)", "filesize(%s)", "readu8(%s)", "readascii(%s)"]) % num()
        if k == 1: return s.pick(["substr(\"abc\",%s,1)", "substr(\"abc\",1,%s)", "find(\"a\",\"a\",%s)", "rfind(\"a\",\"a\",%s)", "regex_extract(\"a\",\"a\",%s)", "tohex(%s)", "tohex(1,%s)", "readu8(\"f.bin\",%s)", "readascii(\"f.bin\",%s)", "readascii(\"f.bin\",0,%s)"]) % s.pick(["1.5", "\"1\"", "\"\"", "0.0"])
        if k == 2: return s.pick(["int(\"5\")", "float(\"5\")", "round(\"5\")", "abs(\"5\")", "frac(\"5\")", "frac(5)", "min(\"5\",1)", "max(1,\"5\")", "min(1,2.5,\"a\")", "int(1e19)", "round(-1e30)", "int(1e300*1e300)", "round(9.3e18)"])
        if k == 3:
            n = s.pick(["strlen", "tostring", "int", "float", "frac", "abs", "round", "fileexists", "filesize"])
            return s.pick(["%s()", "%s(1,2)", "%s(\"a\",\"b\")"]) % n
        if k == 4: return s.pick(["min()", "max()", "substr(\"a\",0)", "substr(\"a\",0,1,1)", "find(\"a\")", "find(\"a\",\"a\",0,0)", "version(1)", "endianness(1)", "outputname(0)", "regex_match(\"a\")", "regex_extract(\"a\",\"a\",0,0)", "readu8()", "readu8(\"f.bin\",0,0)", "readascii(\"f.bin\",0,0,0)", "org(la,la)", "org(la,lz)", "orga(lz,la)", "headersize(la,lz)", "defined(la,lz)", "isarm(1)", "isarm(la)", "isthumb(1)", "hi()", "hi(1,2)", "lo(1,1)", "defined()", "tohex()", "tohex(1,2,3)", "uf(1)", "uf(1,2,3)", "uf()", "uf(\"a\",1)"])
        if k == 5:
            z = s.pick([x for x in READ]); p = s.pick([16, 17, 100, -1, -16, 1 << 40, 16 - READ[z][0] + 1])
            return s.pick(["%s(\"f.bin\",%d)" % (z, p), "%s(\"missing.bin\")" % z])
        if k == 6: return s.pick(["filesize(\"missing\")", "readascii(\"missing\")", "readascii(\"f.bin\",17)", "readascii(\"f.bin\",-1)", "readascii(\"f.bin\",%d)" % s.int(17, 100), "readascii(\"bad.txt\")", "readascii(\"bad.txt\",%d)" % s.int(0, 2), "readascii(\"hi.txt\",%d)" % s.int(0, 2)])
        if k == 7: return s.pick(["substr(\"abc\",4,1)", "substr(\"abc\",%d,1)" % s.int(4, 50), "substr(\"abc\",-1,1)", "substr(\"\",1,0)", "regex_match(\"a\",\"(\")", "regex_search(\"a\",\"[a\")", "regex_match(\"a\",\"*\")", "regex_extract(\"a\",\"a)\")", "regex_extract(\"abc\",\"x\")", "regex_extract(\"abc\",\"(b)\",2)", "regex_extract(\"abc\",\"b\",%d)" % s.int(1, 9), "regex_extract(\"abc\",\"b\",-1)"])
        return s.pick(["nosuch(1)", "org(5)", "org(undef_)", "orga(undef_)", "orga(dl)", "headersize(dl)", "headersize(undef_)", "defined(5)", "defined(\"la\")", "org(la+1)", "uf(undef_,1)", "uf(1/0 ,nosuch(2))", "strlen(undef_)", "ufs(5)", "ufb(1)"])

    def lazy(self, s):
        e = s.pick(["filesize(\"nope\")", "readu8(\"nope\")", "reads32(\"f.bin\",%d)" % s.int(13, 99), "strlen(readascii(\"nope\"))", "substr(\"abc\",%d,1)" % s.int(4, 9), "regex_extract(\"ab\",\"%s\")" % s.pick("cx0"), "regex_extract(\"ab\",\"b\",%d)" % s.int(1, 5), "int(%s)" % s.pick(["1e30", "9.5e18"]), "round(1e19)"])
        return s.pick(["%s", "(1 + %s)", "strlen(tostring(%s))", "(0 ? 1 : %s)", "uf(%s,2)", "(%s) + la"]) % e
    def program(self, c):
        if c[0] == "lazy":
            e = c[3]
            body = [".if 0\n.word %s\n.else\n.byte 7\n.endif" % e, ".if la == 1\n.word %s\n.else\n.byte 7\n.endif" % e, ".byte 1 ? 7 : %s" % e,
                    ".byte la ? %s : 7" % e, ".byte fileexists(\"nope\") ? %s : 7" % e, ".if 1\n.byte 7\n.else\n.byte defined(la) ? %s : 0\n.endif" % e][c[2]]
            return "%s\n.create \"o.bin\",0\n.expfunc uf(a,b), a*b\nla:\n%s\n.close\n" % (c[1], body), b"\x07", [e + str(c[2])]
        if c[0] == "bad":
            return "%s\n.create \"o.bin\",0\n.definelabel dl,5\nla:\n.expfunc uf(a,b), a*b\n.expfunc ufs(a), strlen(a)\n.expfunc ufb(a), a 5\n.ascii \"\" + (%s)\n.close\n" % (c[1], c[2]), b"", []
        _, arch, base, files, out, used, funcs, items, twopass = c
        L = [arch]
        F = []
        for t in used: F.append(".expfunc " + TEMPL[t][0])
        for n, ps, body, sp in funcs: F.append(".expfunc %s%s(%s),%s%s" % (n, " " if False else "", ", ".join(ps), " " if sp else "", render(body)))
        L += F + [".create \"%s\",0x%X" % (out, base), ".definelabel dl,0x123456", "la:"]
        labels = {"la": (base, 0), "lz": (0x5010, 0x10), "dl": (0x123456, None)}
        ctx = {"arch": arch, "base": base, "pos": 0, "files": files, "funcs": {n: (ps, b) for n, ps, b, _ in funcs}, "labels": labels, "out": out, "version": self.version, "arm": arch == ".nds"}
        end = "<" if arch in LE else ">"
        exp = b""; keys = []; eq = 0
        for st, ty, n, viaeq, inif in items:
            if st is not None:
                if viaeq and not st: pass
                L.append(".arm" if st else ".thumb"); ctx["arm"] = st
            ctx["pos"] = len(exp)
            text = render(n)
            try: v = Ev2(ctx).ev(n)
            except (X.TypeErr, OverflowError, RecursionError): continue
            if isinstance(v, float) and math.isnan(v): continue
            if isinstance(v, str) and len(v) > 4000: continue
            if viaeq: L.append("eq%d equ %s" % (eq, text)); text = "eq%d" % eq; eq += 1
            if inif and not isinstance(v, str) and ("org" not in text.lower() and "headersize" not in text.lower()): L.append(".if (%s) == (%s)" % (text, text))
            if isinstance(v, int): L.append(".d64 " + text); exp += struct.pack(end + "q", v)
            elif isinstance(v, float): L.append(".double " + text); exp += struct.pack(end + "d", v)
            else: L.append(".ascii " + text); L.append(".byte 0xEE"); exp += v.encode() + b"\xee"
            if inif and not isinstance(v, str) and ("org" not in text.lower() and "headersize" not in text.lower()): L += [".else", ".byte 1", ".endif"]
            if "(" in text or viaeq: keys.append("|".join(F) + render(n))
        L += [".close", '.create "p.bin",0x5000', ".fill 0x10", "lz:", ".byte 1", ".close"]
        return "\n".join(L) + "\n", exp, keys
    version = 11 * 0
    def render(self, c): return {"fixed": c[0]} if c[0] in ("uni", "ver") else {"program": self.program(c)[0]}

    def explicit(self): return [("uni",), ("ver",)]

    def run(self, c, env):
        if c[0] == "uni":
            r = env.run({"a.asm": '.psx\n.create "o.bin",0\n.byte strlen("\u00e4\u3042b"),find("\u00e4b","b")\n.ascii substr("\u00e4b",1,1)\n.close\n'.encode()})
            o = r.read("o.bin")
            if r.rc or o != b"\x03\x01b": raise Fail("string functions count bytes, not characters: strlen of 3 characters, find and substr behind one: %r %s" % (o, r.text[:100]), "utf8-length")
            return 1, ["uni"], None
        if c[0] == "ver":
            r = env.run({"a.asm": '.psx\n.create "o.bin",0\n.word version()\n.close\n'})
            o = r.read("o.bin")
            v = int.from_bytes(o[:4], "little") if o else 0
            if r.rc or not 11000 > v >= 0: raise Fail("version() is %s" % v)
            return 1, ["ver"], None
        if c[0] == "lazy":
            src, exp, keys = self.program(c)
            r = env.run({"a.asm": src, "f.bin": bytes(range(16))})
            if r.rc or r.errors() or r.read("o.bin") != exp: raise Fail("a call that is not to be evaluated has an effect: rc=%d %s %r" % (r.rc, r.text[:200], r.read("o.bin")))
            return 1, keys, c[3]
        if c[0] == "bad":
            src = self.program(c)[0]
            r = env.run({"a.asm": src, "f.bin": bytes(range(16)), "bad.txt": b"ab\x01c", "hi.txt": b"ab\x80c"})
            if r.rc != 1 or not r.errors(): raise Fail("call outside of its domain accepted: %s -> rc=%d %s %r" % (c[2], r.rc, r.text[:200], r.read("o.bin")))
            return 1, [c[2]], c[2]
        if self.version == 0:
            r = env.run({"a.asm": '.psx\n.create "o.bin",0\n.word version()\n.close\n'})
            C22.version = int.from_bytes(r.read("o.bin")[:4], "little")
        _, arch, base, files, out, used, funcs, items, twopass = c
        src, exp, keys = self.program(c)
        r = env.run(dict(files, **{"a.asm": src, "sub/x": b""}))
        if r.rc: raise Fail("defined calls rejected: " + r.text[:500])
        o = r.read("o.bin")
        if o != exp:
            i = next((i for i in range(min(len(o), len(exp))) if o[i] != exp[i]), min(len(o), len(exp)))
            raise Fail("wrong value at output offset %d: got %r expected %r" % (i, o[i:i + 24], exp[i:i + 24]))
        return len(keys), keys, keys[0].split("|")[-1] if keys else None

CHECK = C22()
