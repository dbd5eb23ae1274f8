from ..core import Check, Fail
from .. import expr as X
import struct, math
from fractions import Fraction

LE = [".psx", ".ps2", ".psp", ".gba", ".nds", ".3ds", ".arm.little"]
BE = [".n64", ".rsp", ".saturn", ".32x", ".arm.big"]
ARCH = LE + BE
SH = (".saturn", ".32x")
B8 = [".byte", ".db", ".dcb", ".d8", "db", "dcb", ".ascii", ".asciiz"]
HW = [".halfword", ".hword", ".dcw", "dcw", ".dh", "dh"]
WD = [".word", ".dcd", "dcd", ".dw", "dw"]
DW = [".doubleword", ".dword", ".dcq", "dcq", ".dd", "dd"]
FX = [".d16", ".d32", ".d64"]
FL = [".float", ".double"]

def f32bits(v):
    """IEEE single bits of an int or float, one correct rounding"""
    if isinstance(v, float):
        if math.isinf(v): return 0xFF800000 if v < 0 else 0x7F800000
        if math.isnan(v): return 0x7FC00000
        sign = 0x80000000 if math.copysign(1, v) < 0 else 0
        x = Fraction(abs(v))
    else:
        sign = 0x80000000 if v < 0 else 0
        x = Fraction(abs(v))
    if x == 0: return sign
    e = x.numerator.bit_length() - x.denominator.bit_length()
    while Fraction(2) ** e > x: e -= 1
    while Fraction(2) ** (e + 1) <= x: e += 1
    e = max(e, -126)
    q = x / (Fraction(2) ** (e - 23))
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1): n += 1
    if n >= 1 << 24: n >>= 1; e += 1
    if e > 127: return sign | 0x7F800000
    if n < 1 << 23: return sign | n
    return sign | ((e + 127) << 23) | (n & 0x7FFFFF)

def unit(d, arch, nocash):
    ws = 2 if arch in SH else 4
    if d in B8: return 1
    if nocash and d in (".dw", "dw"): return 2
    if nocash and d in (".dd", "dd"): return 4
    if d in HW: return ws // 2
    if d in WD: return ws
    if d in DW: return ws * 2
    return {".d16": 2, ".d32": 4, ".d64": 8, ".float": 4, ".double": 8}[d]

class C03(Check):
    ID = "C03"
    RULE = "a data statement with at least one argument on a given architecture; distinct = (architecture, statement text), excluding single-digit single arguments"
    QUICK, THOROUGH = 90000, 2000000
    QUICK_S, THOROUGH_S = 90, 1500
    ASSUMPTIONS = ["float arguments of 8/16-bit units are not specified consistently in the manual and are not generated"]

    def arg(self, s, d, u):
        fl = d in FL
        k = s.wpick([(6, "i"), (3, "f" if (fl or u >= 4) else "i"), (2, "i" if fl else "s"), (1, "e")])
        if k == "i":
            v = s.edgy(s.pick([8, 16, 32, 64]))
            v = max(-(1 << 63), min((1 << 64) - 1, v))
            return ("%d" % v if v >= 0 else "-%d" % -v, X.wrap(v))
        if k == "f":
            m = s.below(3)
            if m == 0: n = s.pick(X.FTEXT); v = float(n)
            elif m == 1: n = "%d.%d" % (s.edgy(30, False), s.below(100000)); v = float(n)
            else: n = "%de%s%d" % (s.below(1000000), s.pick(["", "-", "+"]), s.below(44)); v = float(n)
            if s.bool(0.3): n = "-" + n; v = -v
            return (n, v)
        if k == "s":
            t = "".join(chr(s.int(32, 126)) for _ in range(s.below(6))).replace("\\", "/").replace('"', "'")
            return ('"%s"' % t, t)
        t = X.gen(s, 2, 'i')
        try: v = X.evaluate(t)[0]
        except X.TypeErr: return ("1", 1)
        return (X.render(t), v)

    def gen(self, s):
        if s.bool(0.05): return ("bad", s.pick(ARCH), self.bad(s))
        def one(s):
            k = s.wpick([(20, "data"), (2, "arch"), (1, "nocash"), (1, "pos")])
            if k == "arch": return (k, s.pick(ARCH))
            if k == "nocash": return (k, s.bool())
            if k == "pos": return (k, s.pick([".", "org()"]))
            d = s.pick(B8 + HW + WD + DW + FX + FL)
            return (k, d, s.many(lambda s: self.arg(s, d, 8 if d in DW + FL + [".d64"] else 4 if d in [".d32"] else 1), 1, 6))
        base = s.pick([0, 0x100, 0x08000000])
        return ("ok", s.pick(ARCH), base, s.many(one, 1, 16))

    def bad(self, s):
        k = s.below(3)
        if k == 0: return s.pick(FL) + ' "abc"'
        if k == 1: return s.pick([x for x in B8 + HW + FX]) + ' "a\u00e9b"'
        return s.pick([".d8", ".d16", ".byte"]) + ' 1.5+"'

    def program(self, case):
        _, arch, base, items = case
        L = [arch, '.create "o.bin",0x%X' % base]
        out = b""; keys = []; nocash = False
        for it in items:
            end = "<" if arch in LE else ">"
            if it[0] == "arch": arch = it[1]; L.append(arch); continue
            if it[0] == "nocash": nocash = it[1]; L.append(".nocash " + ("on" if nocash else "off")); continue
            if it[0] == "pos": L.append(".d32 " + it[1]); out += struct.pack(end + "I", base + len(out)); continue
            _, d, args = it
            if nocash and d in (".dh", "dh"): continue
            u = unit(d, arch, nocash)
            txt = []; 
            for t, v in args:
                if isinstance(v, float) and d not in FL and u < 4: continue
                txt.append(t)
                if isinstance(v, str): vals = [ord(c) for c in v]
                elif d == ".float": vals = [f32bits(v)]
                elif d == ".double": vals = [struct.unpack("<Q", struct.pack("<d", float(v)))[0]]
                elif isinstance(v, float): vals = [f32bits(v) if u == 4 else struct.unpack("<Q", struct.pack("<d", v))[0]]
                else: vals = [v]
                for x in vals: out += (x & ((1 << (8 * u)) - 1)).to_bytes(u, "little" if end == "<" else "big")
            if not txt: continue
            if d == ".asciiz": out += b"\0"
            L.append(d + " " + ",".join(txt))
            if not (len(txt) == 1 and len(txt[0]) == 1): keys.append((arch, L[-1]))
        L.append(".close")
        return "\n".join(L) + "\n", out, keys
    def render(self, case):
        return case if case[0] == "bad" else self.program(case)[0]

    def run(self, case, env):
        if case[0] == "bad":
            r = env.run({"a.asm": case[1] + '\n.create "o.bin",0\n' + case[2] + "\n.close\n"})
            if r.rc != 1 or not r.errors(): raise Fail("invalid data accepted: %s %s rc=%d" % (case[1], case[2], r.rc))
            return 1, [case], None
        src, exp, keys = self.program(case)
        r = env.run({"a.asm": src})
        if r.rc: raise Fail("valid data rejected: " + r.text[:400])
        out = r.read("o.bin")
        if out != exp: raise Fail("wrong bytes:\ngot      %s\nexpected %s" % (out.hex(), exp.hex()))
        return len(keys), keys, " ".join(keys[0]) if keys else None

CHECK = C03()
