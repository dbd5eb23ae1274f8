"""Reference encoder for the SH-2 (SuperH RISC engine programming manual).
Operand templates: n/m registers; #i immediates; D<bits>x<scale> displacements; B8/B12 branch targets;
W/L pc-relative word/long targets; PW/PL manual pc-relative offsets (armips: from the address of the instruction)."""
from . import arm as A

T = []
for line in """
mov #i,n 1110nnnniiiiiiii
mov.w W,n 1001nnnndddddddd
mov.l L,n 1101nnnndddddddd
mov.w @(PW,pc),n 1001nnnndddddddd
mov.l @(PL,pc),n 1101nnnndddddddd
mov m,n 0110nnnnmmmm0011
mov.b m,@n 0010nnnnmmmm0000
mov.w m,@n 0010nnnnmmmm0001
mov.l m,@n 0010nnnnmmmm0010
mov.b @m,n 0110nnnnmmmm0000
mov.w @m,n 0110nnnnmmmm0001
mov.l @m,n 0110nnnnmmmm0010
mov.b m,@-n 0010nnnnmmmm0100
mov.w m,@-n 0010nnnnmmmm0101
mov.l m,@-n 0010nnnnmmmm0110
mov.b @m+,n 0110nnnnmmmm0100
mov.w @m+,n 0110nnnnmmmm0101
mov.l @m+,n 0110nnnnmmmm0110
mov.b r0,@(D4x1,n) 10000000nnnndddd
mov.w r0,@(D4x2,n) 10000001nnnndddd
mov.l m,@(D4x4,n) 0001nnnnmmmmdddd
mov.b @(D4x1,m),r0 10000100mmmmdddd
mov.w @(D4x2,m),r0 10000101mmmmdddd
mov.l @(D4x4,m),n 0101nnnnmmmmdddd
mov.b m,@(r0,n) 0000nnnnmmmm0100
mov.w m,@(r0,n) 0000nnnnmmmm0101
mov.l m,@(r0,n) 0000nnnnmmmm0110
mov.b @(r0,m),n 0000nnnnmmmm1100
mov.w @(r0,m),n 0000nnnnmmmm1101
mov.l @(r0,m),n 0000nnnnmmmm1110
mov.b r0,@(D8x1,gbr) 11000000dddddddd
mov.w r0,@(D8x2,gbr) 11000001dddddddd
mov.l r0,@(D8x4,gbr) 11000010dddddddd
mov.b @(D8x1,gbr),r0 11000100dddddddd
mov.w @(D8x2,gbr),r0 11000101dddddddd
mov.l @(D8x4,gbr),r0 11000110dddddddd
mova L,r0 11000111dddddddd
mova @(PL,pc),r0 11000111dddddddd
movt n 0000nnnn00101001
swap.b m,n 0110nnnnmmmm1000
swap.w m,n 0110nnnnmmmm1001
xtrct m,n 0010nnnnmmmm1101
add m,n 0011nnnnmmmm1100
add #i,n 0111nnnniiiiiiii
addc m,n 0011nnnnmmmm1110
addv m,n 0011nnnnmmmm1111
cmp/eq #i,r0 10001000iiiiiiii
cmp/eq m,n 0011nnnnmmmm0000
cmp/hs m,n 0011nnnnmmmm0010
cmp/ge m,n 0011nnnnmmmm0011
cmp/hi m,n 0011nnnnmmmm0110
cmp/gt m,n 0011nnnnmmmm0111
cmp/pl n 0100nnnn00010101
cmp/pz n 0100nnnn00010001
cmp/str m,n 0010nnnnmmmm1100
div1 m,n 0011nnnnmmmm0100
div0s m,n 0010nnnnmmmm0111
div0u - 0000000000011001
dmuls.l m,n 0011nnnnmmmm1101
dmulu.l m,n 0011nnnnmmmm0101
dt n 0100nnnn00010000
exts.b m,n 0110nnnnmmmm1110
exts.w m,n 0110nnnnmmmm1111
extu.b m,n 0110nnnnmmmm1100
extu.w m,n 0110nnnnmmmm1101
mac.l @m+,@n+ 0000nnnnmmmm1111
mac.w @m+,@n+ 0100nnnnmmmm1111
mul.l m,n 0000nnnnmmmm0111
muls.w m,n 0010nnnnmmmm1111
mulu.w m,n 0010nnnnmmmm1110
neg m,n 0110nnnnmmmm1011
negc m,n 0110nnnnmmmm1010
sub m,n 0011nnnnmmmm1000
subc m,n 0011nnnnmmmm1010
subv m,n 0011nnnnmmmm1011
and m,n 0010nnnnmmmm1001
and #i,r0 11001001iiiiiiii
and.b #i,@(r0,gbr) 11001101iiiiiiii
not m,n 0110nnnnmmmm0111
or m,n 0010nnnnmmmm1011
or #i,r0 11001011iiiiiiii
or.b #i,@(r0,gbr) 11001111iiiiiiii
tas.b @n 0100nnnn00011011
tst m,n 0010nnnnmmmm1000
tst #i,r0 11001000iiiiiiii
tst.b #i,@(r0,gbr) 11001100iiiiiiii
xor m,n 0010nnnnmmmm1010
xor #i,r0 11001010iiiiiiii
xor.b #i,@(r0,gbr) 11001110iiiiiiii
rotl n 0100nnnn00000100
rotr n 0100nnnn00000101
rotcl n 0100nnnn00100100
rotcr n 0100nnnn00100101
shal n 0100nnnn00100000
shar n 0100nnnn00100001
shll n 0100nnnn00000000
shlr n 0100nnnn00000001
shll2 n 0100nnnn00001000
shlr2 n 0100nnnn00001001
shll8 n 0100nnnn00011000
shlr8 n 0100nnnn00011001
shll16 n 0100nnnn00101000
shlr16 n 0100nnnn00101001
bf B8 10001011dddddddd
bf/s B8 10001111dddddddd
bt B8 10001001dddddddd
bt/s B8 10001101dddddddd
bra B12 1010dddddddddddd
bsr B12 1011dddddddddddd
braf m 0000mmmm00100011
bsrf m 0000mmmm00000011
jmp @m 0100mmmm00101011
jsr @m 0100mmmm00001011
braf @m 0000mmmm00100011
bsrf @m 0000mmmm00000011
jmp m 0100mmmm00101011
jsr m 0100mmmm00001011
rts - 0000000000001011
clrt - 0000000000001000
clrmac - 0000000000101000
ldc m,sr 0100mmmm00001110
ldc m,gbr 0100mmmm00011110
ldc m,vbr 0100mmmm00101110
ldc.l @m+,sr 0100mmmm00000111
ldc.l @m+,gbr 0100mmmm00010111
ldc.l @m+,vbr 0100mmmm00100111
lds m,mach 0100mmmm00001010
lds m,macl 0100mmmm00011010
lds m,pr 0100mmmm00101010
lds.l @m+,mach 0100mmmm00000110
lds.l @m+,macl 0100mmmm00010110
lds.l @m+,pr 0100mmmm00100110
nop - 0000000000001001
rte - 0000000000101011
sett - 0000000000011000
sleep - 0000000000011011
stc sr,n 0000nnnn00000010
stc gbr,n 0000nnnn00010010
stc vbr,n 0000nnnn00100010
stc.l sr,@-n 0100nnnn00000011
stc.l gbr,@-n 0100nnnn00010011
stc.l vbr,@-n 0100nnnn00100011
sts mach,n 0000nnnn00001010
sts macl,n 0000nnnn00011010
sts pr,n 0000nnnn00101010
sts.l mach,@-n 0100nnnn00000010
sts.l macl,@-n 0100nnnn00010010
sts.l pr,@-n 0100nnnn00100010
trapa #i 11000011iiiiiiii
""".strip().split("\n"):
    T.append(tuple(line.split(" ")))

import re
TOK = re.compile(r"D\dx\d|B8|B12|PW|PL|[WL]|#i|gbr|vbr|mach|macl|sr|pr|pc|r0|[nm]|@-|@\(|@|[(),+]")
def toks(ops):
    r = []; p = 0
    while p < len(ops):
        m = TOK.match(ops, p); assert m, ops
        r.append(m.group()); p = m.end()
    return r
NAMES = sorted(set(x[0] for x in T))
SYS = ["sr", "gbr", "vbr", "mach", "macl", "pr"]

def case(s, t):
    k = s.below(6)
    return t.upper() if k == 1 else t.title() if k == 2 and t.isalpha() else t

def put(bits, f):
    w = 0
    left = {k: bits.count(k) for k in f}
    for ch in bits:
        w <<= 1
        if ch in "01": w |= int(ch)
        else: left[ch] -= 1; w |= f[ch] >> left[ch] & 1
    return w

def encode(s, row, pc, target, over=None):
    """-> (text, halfword) ; target(lo, hi, align, base) -> (text, address) or None; over: operand override value (out of range)"""
    name, ops, bits = row
    if ops == "-": return case(s, name), put(bits, {})
    f = {"n": 0, "m": 0, "d": 0, "i": 0}; o = ""
    T = toks(ops)
    for i, t in enumerate(T):
        if t in "nm":
            v = s.below(16); f[t] = v
            o += case(s, "r%d" % v)
        elif t == "#i":
            v = s.pick([s.int(-128, 255), s.int(-128, 127), s.pick([-128, -1, 0, 1, 127, 128, 255])])
            if over is not None: v = over
            f["i"] = v & 255
            h = "#" if name == "trapa" or s.bool(0.75) else ""
            o += h + A.num(s, v)
        elif t[0] == "D":
            b, sc = int(t[1]), int(t[3])
            v = sc * s.pick([s.below(1 << b), (1 << b) - 1, 0, 1])
            if over is not None: v = over * sc if over[0] is None else over
            f["d"] = v // sc & (1 << b) - 1; o += A.num(s, v)
        elif t in ("B8", "B12"):
            b = int(t[1:]); base = pc + 4
            a = target(-(1 << b), (1 << b) - 2, 2, base)
            if a is None: return None
            f["d"] = (a[1] - base >> 1) & (1 << b) - 1; o += a[0]
        elif t in ("W", "L"):
            sc = 2 if t == "W" else 4
            base = pc + 4 if t == "W" else pc + 4 & ~3
            a = target(0, 255 * sc, sc, base)
            if a is None: return None
            f["d"] = (a[1] - base) // sc; o += a[0]
        elif t in ("PW", "PL"):
            sc = 2 if t == "PW" else 4
            base = pc + 4 if t == "PW" else pc + 4 & ~3
            v = s.pick([s.below(256), 0, 255, s.below(8)]); f["d"] = v
            o += A.num(s, base + v * sc - pc)
        elif t == ",": o += s.pick([",", ",", ", ", " , "])
        elif t in ("@", "@-", "@(", "(", ")", "+"): o += t
        else: o += case(s, t)
    return case(s, name) + s.pick([" ", " ", "\t", "  "]) + o, put(bits, f)
