import re
from ..core import Check, Fail

def _sjis():
    uni, multi = {}, set()
    for c in list(range(0x20, 0x7F)) + list(range(0xA1, 0xE0)) + [h << 8 | l for h in list(range(0x81, 0xA0)) + list(range(0xE0, 0xFD)) for l in range(0x40, 0xFD)]:
        b = bytes([c]) if c < 0x100 else bytes([c >> 8, c & 255])
        try: u = b.decode("cp932")
        except UnicodeDecodeError: continue
        if len(u) != 1 or 0xE000 <= ord(u) < 0xF8FF: continue
        if u in uni: multi.add(u)
        else: uni[u] = b
    return uni, multi
SJ, MULTI = _sjis()
UNI = {u: b for u, b in SJ.items() if u not in MULTI and (len(b) == 1 or b[0] < 0xEB)}
KATA = [u for u, b in UNI.items() if len(b) == 1 and b[0] >= 0xA1]
WIDE = [u for u, b in UNI.items() if len(b) == 2]
BYTRAIL = {}
for u in WIDE: BYTRAIL.setdefault(UNI[u][1], []).append(u)
TRICKY = [u for t in (0x5C, 0x7C, 0x40, 0x7E, 0x22, 0x3B, 0x80, 0xFC) for u in BYTRAIL.get(t, [])[:4]]
NONSJ = "\U0001F600\u00e4\u00e9\u0d0a\u0a0a\u0a0d\u20ac\uac00\u1e9e\u2603\u0100\u000b"[:-1]
ENCN = {"utf8": ["utf8", "utf-8", "UTF-8", "Utf8"], "utf16": ["utf16", "UTF-16"], "utf16be": ["utf16-be", "UTF-16-BE"], "sjis": ["sjis", "Shift-JIS", "SJIS"], "ascii": ["ascii", "ASCII"]}

def encode(text, enc):
    if enc in ("plain", "utf8"): return text.encode("utf-8")
    if enc == "bom8": return b"\xef\xbb\xbf" + text.encode("utf-8")
    if enc == "bomle": return b"\xff\xfe" + text.encode("utf-16-le")
    if enc == "bombe": return b"\xfe\xff" + text.encode("utf-16-be")
    if enc == "utf16": return text.encode("utf-16-le")
    if enc == "utf16be": return text.encode("utf-16-be")
    if enc == "ascii": return text.encode("ascii")
    if enc == "sjis":
        out = b""
        for c in text:
            if c in "\n\r\t": out += c.encode()
            elif c in UNI: out += UNI[c]
            else: raise UnicodeEncodeError("sjis", text, 0, 1, c)
        return out
def fit(text, enc):
    try: encode(text, enc); return enc
    except UnicodeEncodeError: return "plain"
ENCS = ["plain", "bom8", "bomle", "bombe", "utf8", "utf16", "utf16be", "sjis", "sjis", "ascii"]
def q(t): return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'

class Table:
    def __init__(self, lines):
        self.m = {}; self.term = b"\0"
        for l in lines:
            if l[0] == "e": self.m[l[2]] = l[1]
            elif l[0] == "t": self.term = l[1]
        self.maxlen = max([len(k) for k in self.m] or [0])
    def enc(self, s):
        out = b""; i = 0
        while i < len(s):
            for n in range(min(self.maxlen, len(s) - i), 0, -1):
                if s[i:i + n] in self.m: out += self.m[s[i:i + n]]; i += n; break
            else: return None
        return out

class C18(Check):
    ID = "C18"
    RULE = "a program with at least one non-empty encoded string; distinct = (tables, strings, file encodings)"
    QUICK, THOROUGH = 40000, 2000000
    QUICK_S, THOROUGH_S = 90, 1500
    ASSUMPTIONS = ["table lines are well formed (an even number of hexadecimal digits, at most 32 bytes)", "Shift-JIS as in code page 932; characters with several codes may use any of them"]

    def text(self, s, chars, n): return "".join(s.pick(chars) for _ in range(n))
    def gen(self, s):
        tabs = []
        for _ in range(s.int(1, 3)):
            al = s.pick(["ab", "abc", "ab ", "a=b", "aA0", "a\u3042\u3044", "\u00e4\u00e4b\u20ac", "ab" + "".join(s.pick(TRICKY) for _ in range(2)), "".join(s.pick(KATA) for _ in range(2)) + "a", "\u0d0a\u0a0db", "a\"\\;", "/*x", "a\U0001F600\U0001F601\U00010000", "\U0010FFFF\u3042\uFFFDb", "\U00020000\uD7FF\uE000"])
            def line(s):
                k = s.below(10)
                if k == 0: return ("c", s.pick(["", "* comment", "*41=a", "*", "*/FF"]))
                if k == 1: return ("t", self.hexb(s), s.below(3))
                return ("e", self.hexb(s), self.text(s, al, s.pick([1, 1, 1, 2, 2, 3, 4, 6])), s.below(3))
            lines = s.many(line, 1, 14, 0.9)
            if s.bool(0.7): lines += [("e", self.hexb(s), c, 0) for c in al]
            if s.bool(0.3): lines = s.shuffle(lines) or lines
            tabs.append((al, lines, s.pick(ENCS), s.bool(0.3), s.bool(0.2)))
        ops = s.many(lambda s: self.op(s, tabs, True), 1, 10, 0.85)
        return ("p", tabs, ops, s.pick(["plain", "plain", "bom8", "bomle", "bombe"]), s.bool(0.3), s.pick([".psx", ".n64", ".gba", ".saturn"]))
    def hexb(self, s): return s.bytes(s.pick([1, 1, 1, 2, 2, 3, 4, 31, 32]))
    def op(self, s, tabs, top):
        k = s.below(13)
        if k == 12: return ("note", self.text(s, [c for c in s.pick(tabs)[0] if c not in "\"\\"] + list("xy"), s.int(1, 9)))
        if k < 3: return ("load", s.below(len(tabs)), s.pick([".loadtable", ".table"]), s.below(4))
        if k < 8: return ("str", s.pick([".string", ".str", ".stringn", ".strn"]), s.many(lambda s: self.item(s, tabs), 1, 4, 0.6))
        if k < 10 or not top: return ("sjis", s.pick([".sjis", ".sjisn"]), s.many(lambda s: self.sitem(s), 1, 4, 0.6))
        return ("inc", s.pick(ENCS), s.bool(0.3), s.pick([0, 0, 1, 2]), s.int(0, 80), s.many(lambda s: self.op(s, tabs, False), 1, 5, 0.8), s.bool(0.8))
    def item(self, s, tabs):
        if s.bool(0.15): return s.pick([0, 1, 255, 256, -1, 0x1234])
        al, lines = s.pick(tabs)[:2]
        vals = [l[2] for l in lines if l[0] == "e"]
        if vals and s.bool(0.75):
            t = "".join(s.pick(vals) for _ in range(s.below(6)))
            if t and s.bool(0.15): t = t[:s.below(len(t)) + 1]
            return t
        return self.text(s, al, s.below(7))
    def sitem(self, s):
        if s.bool(0.15): return s.pick([0, 255, -1, 0x181])
        k = s.below(20)
        if k == 0: return self.text(s, NONSJ + "ab", s.int(1, 4))
        pool = s.pick([WIDE, KATA, TRICKY, "abcXYZ 0~;/*", WIDE + KATA + list("ab\\\"|")])
        return self.text(s, pool, s.below(8))

    def build(self, c):
        _, tabs, ops, menc, mcr, arch = c
        files = {}; encs = []
        for i, (al, lines, enc, cr, noend) in enumerate(tabs):
            L = []
            for l in lines:
                if l[0] == "c": L.append(l[1])
                else:
                    h = l[1].hex()
                    cs = l[-1]
                    h = h if cs == 0 else h.upper() if cs == 1 else "".join(x.upper() if j % 3 else x for j, x in enumerate(h))
                    L.append("/" + h if l[0] == "t" else h + "=" + l[2])
            t = ("\r\n" if cr else "\n").join(L) + ("" if noend else "\r\n" if cr else "\n")
            enc = fit(t, enc); encs.append(enc)
            files["t%d.tbl" % i] = encode(t, enc)
        T = [Table(lines) for _, lines, *_ in tabs]
        out = bytearray(); notes = []; st = {"t": None, "bad": False, "n": 0, "inc": 0}
        def emit(ops):
            L = []
            for o in ops:
                if o[0] == "load":
                    i = o[1]; e = encs[i]
                    p = ',"%s"' % ENCN[e][o[3] % len(ENCN[e])] if e in ENCN else ""
                    L.append('%s "t%d.tbl"%s' % (o[2], i, p)); st["t"] = T[i]
                elif o[0] == "note":
                    st["n"] += 1; notes.append(o[1])
                    L.append(".notice " + q(o[1]))
                elif o[0] == "str":
                    if st["t"] is None and o[1] in (".string", ".str") and not any(isinstance(x, str) and x for x in o[2]): continue
                    for x in o[2]:
                        if isinstance(x, int): out.append(x & 255)
                        elif x:
                            st["n"] += 1
                            b = st["t"].enc(x) if st["t"] else None
                            if b is None: st["bad"] = True
                            else: out.extend(b)
                    if o[1] in (".string", ".str") and st["t"]: out.extend(st["t"].term)
                    L.append(o[1] + " " + ",".join(q(x) if isinstance(x, str) else str(x) for x in o[2]))
                elif o[0] == "sjis":
                    for x in o[2]:
                        if isinstance(x, int): out.append(x & 255)
                        elif x:
                            st["n"] += 1
                            for ch in x:
                                if ch not in UNI: st["bad"] = True
                                else: out.extend(UNI[ch])
                    if o[1] == ".sjis": out.append(0)
                    L.append(o[1] + " " + ",".join(q(x) if isinstance(x, str) else str(x) for x in o[2]))
                else:
                    body = emit(o[5])
                    pad = "a-" if o[1] == "ascii" else "\u3042-"
                    if o[3]: body = ["; " + (pad * 40)[:40]] * (40 * o[3]) + [";" + "x" * o[4]] + body
                    t = ("\r\n" if o[2] else "\n").join(body) + ("\n" if o[6] else "")
                    e = fit(t, o[1])
                    n = st["inc"]; st["inc"] += 1
                    files["i%d.asm" % n] = encode(t, e)
                    L.append('.include "i%d.asm"%s' % (n, ',"%s"' % ENCN[e][n % len(ENCN[e])] if e in ENCN else ""))
                L.append(".byte 0xA5"); out.append(0xA5)
            return L
        body = [arch, '.create "o.bin",0'] + emit(ops) + [".close"]
        files["a.asm"] = encode(("\r\n" if mcr else "\n").join(body) + "\n", menc)
        return files, bytes(out), st["bad"], st["n"], notes
    def render(self, c):
        if c[0] != "p": return {"fixed": c[0]}
        files, out, bad, n, notes = self.build(c)
        return {"files": {k: repr(v if len(v) < 600 else v[:150] + b"..." + v[-400:]) for k, v in files.items()}, "expected": "error" if bad else out.hex()}

    def explicit(self): return [("all",), ("read",)]

    def run(self, c, env):
        if c[0] == "all":       # every character of the code page
            ch = [u for u in SJ if SJ[u][0] < 0xEF or len(SJ[u]) == 1]
            src = ".psx\n.create \"o.bin\",0\n" + "\n".join(".sjisn %s" % q(u) for u in ch) + "\n.close\n"
            r = env.run({"a.asm": src.encode()})
            if r.rc: raise Fail("characters of code page 932 rejected: " + r.text[:300])
            o = r.read("o.bin")
            try: t = o.decode("cp932")
            except UnicodeDecodeError as e: raise Fail("invalid Shift-JIS: %s" % e)
            if t != "".join(ch):
                i = next(i for i in range(len(ch)) if t[i:i + 1] != ch[i])
                raise Fail("character U+%04X encoded as %r" % (ord(ch[i]), t[i:i + 1]))
            return len(ch), [u for u in ch], "all characters of code page 932"
        if c[0] == "read":      # every Shift-JIS code read from a file
            ch = [u for u in UNI if u not in "\\\""]
            src = "\n".join(".stringn %s" % q(u) for u in ch)
            tbl = "\n".join("%08X=%s" % (ord(u), u) for u in ch)
            r = env.run({"a.asm": '.psx\n.create "o.bin",0\n.loadtable "t.tbl"\n.include "i.asm","sjis"\n.close\n', "t.tbl": tbl.encode(), "i.asm": encode(src, "sjis")})
            o = r.read("o.bin") or b""
            exp = b"".join(ord(u).to_bytes(4, "big") for u in ch)
            if r.rc or o != exp:
                i = next((i for i in range(0, len(exp), 4) if o[i:i + 4] != exp[i:i + 4]), 0)
                raise Fail("Shift-JIS source: %r read as %r (rc %d %s)" % (exp[i:i + 4], o[i:i + 4], r.rc, r.text[:200]))
            return len(ch), ["read" + u for u in ch], "every code of code page 932 in a source file"
        files, exp, bad, n, notes = self.build(c)
        r = env.run(files)
        if bad:
            if r.rc != 1 or not r.errors(): raise Fail("text that the table cannot encode accepted: rc=%d %s %r" % (r.rc, r.text[:200], r.read("o.bin")))
        else:
            if r.rc: raise Fail("rejected: " + r.text[:300])
            if r.warnings(): raise Fail("warning: " + r.text[:300])
            got = [l.split(" notice: ", 1)[1] for l in r.text.split("\n") if " notice: " in l]
            if got != notes: raise Fail("messages %r expected %r" % (got, notes))
            o = r.read("o.bin")
            if o != exp:
                i = next((i for i in range(min(len(o), len(exp))) if o[i] != exp[i]), min(len(o), len(exp)))
                raise Fail("wrong bytes at offset %d: got %r expected %r" % (i, o[i:i + 24], exp[i:i + 24]))
        return n, [repr((sorted(files.items())))] if n else [], repr(files["a.asm"][:200])

CHECK = C18()
