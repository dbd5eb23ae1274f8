from ..core import Check, Fail
from .. import expr as X
import struct, re, math

# where an expression can stand; every consumer has to report one that has no value
PLACES = [(".psp", x) for x in [".byte {}", ".dh {}", ".d16 1,{}", ".word {}", ".d64 {}", ".float {}", ".double {}", ".d8 {},1", ".ascii {}", ".asciiz {}", ".string {}", ".stringn \"A\",{}", ".sjis {}", ".sjisn {}",
          ".org {}", ".orga {}", ".fill {}", ".fill 1,{}", ".align {}", ".align 4,{}", ".aligna {}", ".skip {}", ".area {}\n.endarea", ".area 4,{}\n.endarea", ".incbin \"t.tbl\",{}", ".incbin \"t.tbl\",0,{}",
          ".definelabel dx,{}", "dx equ {}\n.byte dx", ".if {}\n.endif", ".if 0\n.elseif {}\n.endif", ".headersize {}", ".region {}\n.endregion", ".region 4,{}\n.endregion", ".defineregion {},4", ".defineregion 0x9000,{}", ".defineregion 0x9000,4,{}",
          ".autoregion {}\n.endautoregion", ".autoregion 0,{}\n.endautoregion", ".close\n.create \"p.bin\",{}", ".close\n.open \"q.bin\",{}", ".close\n.open \"q.bin\",\"p.bin\",{}", "addiu a0,a1,{}", "lw a0,{}(a1)", "lui a0,{}", "li a0,{}", "la a0,{}", "j {}", "beq a0,a1,{}\nnop", "sll a0,a1,{}", "break {}",
          ".byte min(1,{})", ".byte abs({})", ".ascii tostring({})", ".byte ({}) ? 1 : 2", ".byte 1 ? {} : 2", ".byte 0 ? 2 : {}", ".byte ({})+1", ".byte -({})", ".byte strlen({})", ".expfunc uf(a),a\n.byte uf({})", ".expfunc uf(a),{}\n.byte uf(1)",
          ".macro m,x\n.byte x\n.endmacro\nm {}", ".byte 1\n.if 1\n.byte {}\n.endif", "lx:\n.if lx == 0\n.byte {}\n.endif", ".func ff\n.byte {}\n.endfunc"]] + \
         [(".gba", x) for x in [".arm\nmov r0,{}", ".arm\nldr r0,={}\n.pool", ".arm\nb {}", ".arm\nldr r0,[r1,{}]", ".arm\nadd r0,r1,r2,lsl {}", ".arm\nswi {}", ".thumb\nmov r0,{}", ".thumb\nldr r0,={}\n.pool", ".thumb\nbl {}", ".thumb\nlsl r0,r1,{}", ".thumb\nldr r0,[r1,{}]", ".msg {}"]] + \
         [(".saturn", x) for x in ["mov #{},r0", "mov.l @({},r1),r2", "bra {}\nnop", "mova {},r0", "trapa #{}"]]

BADOPS = ['-', '*', '/', '%', '<<', '>>', '&', '|', '^']

class C01(Check):
    ID = "C01"
    RULE = ("an evaluated expression is non-trivial when its tree contains at least two operators; "
            "distinct = distinct rendered expression text")
    QUICK, THOROUGH = 42000, 2000000
    QUICK_S, THOROUGH_S = 90, 1500
    ASSUMPTIONS = ["shift counts 0..63; NaN text form unspecified; reference evaluator in vp/expr.py"]

    def gen(self, s):
        if s.bool(0.06):
            return self.gen_bad(s)
        names = [("lbl%d" % i, X.wrap(s.edgy(64) & X.M64)) for i in range(s.below(4))]
        arch = s.pick([".psp", ".gba", ".n64", ".saturn"])
        late = s.bool()
        def one(s):
            ty = s.wpick([(5, 'i'), (3, 'f'), (2, 's')])
            t = X.gen(s, s.int(1, 5), ty, names)
            mode = s.below(4)
            sp = (lambda: "") if mode == 0 else (lambda: " ") if mode == 1 else (lambda: s.pick(["", " ", "\t"]))
            return ty, t, X.render(t, sp), s.bool(0.15)
        return ("ok", arch, late, names, s.many(one, 1, 30))

    def gen_bad(self, s):
        # a type error at the root of an arithmetic operator must be an error
        k = s.below(4)
        d = s.below(3)
        if k == 0: t = ('b', s.pick(BADOPS), X.gen(s, d, 's'), X.gen(s, d, s.pick(['i', 'f', 's'])))
        elif k == 1: t = ('b', s.pick(BADOPS), X.gen(s, d, s.pick(['i', 'f', 's'])), X.gen(s, d, 's'))
        elif k == 2:
            a, b = s.pick([('f', 'i'), ('i', 'f'), ('f', 'f')])
            t = ('b', s.pick(['%', '<<', '>>', '&', '|', '^']), X.gen(s, d, a), X.gen(s, d, b))
        else: t = ('u', '~', X.gen(s, d, s.pick(['f', 's'])))
        for _ in range(s.wpick([(3, 0), (3, 1), (2, 2), (1, 3)])):     # an operand without a value takes the value from the whole expression
            k = s.below(5); o = X.gen(s, s.below(2), s.pick(['i', 'f']))
            if k == 0: t = ('u', s.pick(['-', '!', '~', '+']), t)
            elif k == 1: t = ('t', t, o, X.gen(s, 0, 'i'))
            elif k == 2: t = ('t', ('i', 1, "1"), t, o)
            else: op = s.pick(['+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>=', '&&', '||']); t = ('b', op, t, o) if s.bool() else ('b', op, o, t)
        return ("bad", X.render(t)) + s.pick(PLACES)

    def render(self, case):
        return case if case[0] == "bad" else {"program": self.program(case)[0]}

    def program(self, case):
        _, arch, late, names, items = case
        L = [arch, '.create "o.bin",0']
        defs = ['.definelabel %s,%d' % (n, v) for n, v in names]
        if not late: L += defs
        exp = b""
        end = "<" if arch in (".psp", ".gba") else ">"
        must, may, keys = set(), set(), []
        for ty, t, text, viastr in items:
            try:
                v, e = X.evaluate(t)
            except X.TypeErr:
                continue
            if (viastr or '"' in text) and X.has_nan(t): continue
            if isinstance(v, float) and math.isnan(v): continue
            ln = len(L) + 1
            if viastr and ty != 's':
                L.append('.ascii ""+(%s)' % text); exp += X.fmt(v).encode()
            elif ty == 'i':
                assert isinstance(v, int)
                L.append('.d64 ' + text); exp += struct.pack(end + "q", v)
            elif ty == 'f':
                L.append('.double ' + text); exp += struct.pack(end + "d", v)
            else:
                L.append('.ascii ' + text); exp += v.encode()
            if e.must: must.add(ln)
            if e.may: may.add(ln)
            if sum(text.count(c) for c in "+-*/%&|^<>=!~?") >= 2: keys.append(text)
        if late: L += defs
        L.append(".close")
        return "\n".join(L) + "\n", exp, must, may, keys, len(items)

    def run(self, case, env):
        if case[0] == "bad":
            src = '%s\n.create "o.bin",0\n.loadtable "t.tbl"\n%s\n.close\n' % (case[2], case[3].format(case[1]))
            r = env.run({"a.asm": src, "t.tbl": b"41=A\n", "q.bin": b"1234"})
            if r.rc != 1 or not any(re.match(r"a\.asm\(\d+\) (fatal )?error", l) for l in r.lines()):
                raise Fail("type error not reported: %s -> rc %d %r" % (src, r.rc, r.text))
            return 1, [("bad", case[3], case[1])], None
        src, exp, must, may, keys, n = self.program(case)
        r = env.run({"a.asm": src})
        out = r.read("o.bin")
        if r.rc != 0: raise Fail("valid expressions rejected: rc=%s %s" % (r.rc, r.text[:500]))
        if out != exp:
            i = next((i for i in range(min(len(out), len(exp))) if out[i] != exp[i]), min(len(out), len(exp)))
            raise Fail("wrong value at output offset %d: got %s expected %s" % (i, out[i:i + 16].hex(), exp[i:i + 16].hex()))
        w = set(int(m.group(1)) for l in r.lines() for m in [re.match(r"a\.asm\((\d+)\) warning: ", l)] if m and ("ivision" in l))
        if must - w: raise Fail("missing division warning on line(s) %s: %s" % (sorted(must - w), r.text[:500]))
        if w - may: raise Fail("spurious division warning: %s" % r.text[:500])
        return n, keys, keys[:1][0] if keys else None

CHECK = C01()
