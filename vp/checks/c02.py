from ..core import Check, Fail
from .. import progen as P
import struct, math

STRCH = "abcXYZ019 _.-+;/:*'\\\"#@()[],=!{}<>|&?%^~$`\t"
CHCONST = "azAZ09 ~;/\"#\\'@\u00e9\u00ff\u0100\u3042\u4e9c\uffe5\u20ac"

def digits(v, b):
    if v == 0: return "0"
    d = ""
    while v: d = "0123456789abcdef"[v % b] + d; v //= b
    return d

def cas(s, t): 
    k = s.below(3)
    return t if k == 0 else t.upper() if k == 1 else "".join(c.upper() if s.bool() else c for c in t)

def int_lit(s):
    v = s.edgy(64, signed=False) & ((1 << 64) - 1)
    z = "0" * s.wpick([(5, 0), (1, 1), (1, 3)])
    k = s.below(7)
    if k == 0: t = z + "%d" % v
    elif k == 1: t = "0x" + z + digits(v, 16)
    elif k == 2: t = z + digits(v, 16) + "h"
    elif k == 3: t = "0o" + z + digits(v, 8)
    elif k == 4: t = z + digits(v, 8) + "o"
    elif k == 5: t = "0b" + z + digits(v, 2)
    else: t = z + digits(v, 2) + "b"
    if not t[0].isdigit(): t = "0" + t
    return cas(s, t), v

def bad_lit(s):
    """number-like text containing a digit that its base does not have"""
    k = s.below(6)
    pos = lambda t, c: (lambda i: t[:i] + c + t[i:])(s.int(1, len(t)))
    if k == 0: t = pos("%d" % s.int(10, 9999), s.pick("2345678")) + "b" if s.bool() else "1" + s.pick("23456789") + "b"
    elif k == 1: t = "7" + s.pick("89") + "o"
    elif k == 2: t = "0o1" + s.pick("89")
    elif k == 3: t = "0b1" + s.pick("23456789")
    elif k == 4: t = s.pick(["0x1" + s.pick("gklmnqrstuvwz"), "0x", "0X"])
    else: t = "1" + s.pick("gijklmnpqrstuvwyz") + s.pick(["", "1"])
    return t

def float_lit(s):
    k = s.below(5)
    a = "%d" % s.edgy(40, signed=False); b = "".join(s.pick("0123456789") for _ in range(s.int(1, 12)))
    e = s.pick(["e", "E"])
    if k == 0: t = a + "." + b; v = float(t)
    elif k == 1: t = a + e + "%d" % s.below(60); v = float(t)
    elif k == 2: t = a + e + s.pick("+-") + "%d" % s.below(60); v = float(t)
    elif k == 3: t = a + "." + b + e + s.pick(["+", "-", ""]) + "%d" % s.below(60); v = float(t)
    else:
        i = s.edgy(40, signed=False); f = "".join(s.pick("0123456789abcdef") for _ in range(s.int(1, 8)))
        t = "0x" + digits(i, 16) + "." + f; v = float.fromhex(t)
        t = cas(s, t)
    return t, v

def str_lit(s):
    txt = "".join(s.pick(STRCH) for _ in range(s.below(12)))
    lit = ""
    for i, c in enumerate(txt):
        if c == '"': lit += '\\"'
        elif c == "\\":
            nxt = txt[i + 1] if i + 1 < len(txt) else '"'
            lit += "\\\\" if nxt in '"\\' or s.bool() else "\\"
        else: lit += c
    return '"' + lit + '"', txt

class C02(Check):
    ID = "C02"
    RULE = ("literal: distinct spellings other than plain decimal integers below 10; layout: distinct programs whose layout variant "
            "differs textually from the canonical form and assembles to a non-empty output")
    QUICK, THOROUGH = 90000, 2000000
    QUICK_S, THOROUGH_S = 90, 1500

    def gen(self, s):
        k = s.wpick([(5, "lit"), (5, "layout"), (1, "bad")])
        if k == "lit":
            def one(s):
                t = s.wpick([(4, "i"), (3, "f"), (2, "c"), (3, "s")])
                if t == "i": return (t,) + int_lit(s)
                if t == "f": return (t,) + float_lit(s)
                if t == "c":
                    c = s.pick(CHCONST); return (t, "'%s'" % c, ord(c))
                return (t,) + str_lit(s)
            return (k, s.pick([".psp", ".n64", ".gba", ".saturn"]), s.many(one, 1, 24))
        if k == "bad": return (k, bad_lit(s))
        p = P.Prog(s, features=("cond", "macro", "equ", "area", "func", "deflabel", "locals"))
        st = p.statements()
        a = P.canonical(st); b = P.layout(s, st)
        crlf = s.below(4); bom = s.bool(0.2)
        if crlf == 1: b = b.replace("\n", "\r\n")
        if crlf == 2 and b.endswith("\n"): b = b[:-1]
        return (k, a, ("\ufeff" if bom else "") + b)

    def run(self, case, env):
        if case[0] == "lit":
            _, arch, items = case
            end = "<" if arch in (".psp", ".gba") else ">"
            L = [arch, '.create "o.bin",0']; exp = b""; keys = []
            for t, lit, v in items:
                if t == "i": L.append(".d64 " + lit); exp += struct.pack(end + "Q", v)
                elif t == "c": L.append(".d64 " + lit); exp += struct.pack(end + "Q", v)
                elif t == "f": L.append(".double " + lit); exp += struct.pack(end + "d", v)
                else: L.append(".ascii " + lit + ",0"); exp += v.encode() + b"\0"
                if not (t == "i" and len(lit) == 1): keys.append(lit)
            src = "\n".join(L) + "\n.close\n"
            r = env.run({"a.asm": src})
            if r.rc: raise Fail("valid literals rejected: " + r.text[:400])
            out = r.read("o.bin")
            if out != exp: raise Fail("literal value wrong: got %s expected %s" % (out.hex(), exp.hex()))
            return len(items), keys, keys[0] if keys else None
        if case[0] == "bad":
            r = env.run({"a.asm": '.psp\n.create "o.bin",0\n.d64 %s\n.close\n' % case[1]})
            if r.rc != 1 or not r.errors(): raise Fail("invalid number %s accepted: rc %d %s" % (case[1], r.rc, r.text))
            return 1, [case[1]], None
        _, a, b = case
        r1 = env.run({"a.asm": a})
        o1 = r1.read("o.bin")
        if r1.rc: raise Fail("generator: canonical program rejected: " + r1.text[:400])
        r2 = env.run({"a.asm": b})
        o2 = r2.read("o.bin")
        if r2.rc: raise Fail("layout variant rejected: " + r2.text[:400])
        if o1 != o2: raise Fail("layout variant assembles differently:\n%s\n%s" % (o1.hex(), o2.hex() if o2 is not None else None))
        return 2, [a] if o1 and a != b else [], b[:300]

CHECK = C02()
