"""Reference model of armips expressions: typed generation, evaluation, rendering.
Nodes: ('i',v,text) ('f',v,text) ('s',v) ('n',name,v) ('u',op,x) ('b',op,l,r) ('t',c,a,b) ('p',x) explicit parens"""
import math

M64 = (1 << 64) - 1
def wrap(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v

class TypeErr(Exception): pass

def fmt(v):
    if isinstance(v, str): return v
    if isinstance(v, int): return "%d" % v
    if math.isinf(v): return "inf" if v > 0 else "-inf"
    return "%#.17g" % v

PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 6, '!=': 6,
        '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}

def truth(v):
    if isinstance(v, str): raise TypeErr()
    return v != 0

def fdiv(a, b):
    if b == 0:
        if a == 0 or math.isnan(a): return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b

def fop(f, a, b):
    try: return f(a, b)
    except OverflowError: return math.inf

class Ev:
    """evaluation; .must/.may count divisions by zero (or overflow) executed / present in any subexpression"""
    def __init__(self):
        self.must = 0
        self.may = 0
    def ev(self, n, sure=True):
        k = n[0]
        if k in ('i', 'f'): return n[1]
        if k == 's': return n[1]
        if k == 'n': return n[2]
        if k == 'p': return self.ev(n[1], sure)
        if k == 'u':
            v = self.ev(n[2], sure)
            if n[1] == '+': return v
            if n[1] == '-':
                if isinstance(v, str): raise TypeErr()
                return wrap(-v) if isinstance(v, int) else -v
            if n[1] == '!': return int(not truth(v))
            if n[1] == '~':
                if not isinstance(v, int): raise TypeErr()
                return ~v
        if k == 't':
            c = self.ev(n[1], sure)
            if isinstance(c, str): raise TypeErr()
            t = c != 0
            r = self.ev(n[2] if t else n[3], sure)
            self.ev(n[3] if t else n[2], False)
            return r
        op = n[1]
        a = self.ev(n[2], sure)
        if op in ('&&', '||'):
            ta = truth(a)
            b = self.ev(n[3], sure and (ta == (op == '&&')))
            tb = truth(b)
            return int(ta and tb) if op == '&&' else int(ta or tb)
        b = self.ev(n[3], sure)
        return self.binop(op, a, b, sure)
    def dz(self, sure):
        self.may += 1
        if sure: self.must += 1
    def binop(self, op, a, b, sure=True):
        ia, ib = isinstance(a, int), isinstance(b, int)
        sa, sb = isinstance(a, str), isinstance(b, str)
        if op in ('==', '!='):
            if sa or sb: r = fmt(a) == fmt(b)
            elif ia and ib: r = a == b
            else: r = float(a) == float(b)
            return int(r if op == '==' else not r)
        if op in ('<', '<=', '>', '>='):
            if sa != sb: raise TypeErr()
            if not sa and not (ia and ib): a, b = float(a), float(b)
            return int({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])
        if op == '+' and (sa or sb): return fmt(a) + fmt(b)
        if sa or sb: raise TypeErr()
        if ia and ib:
            if op == '+': return wrap(a + b)
            if op == '-': return wrap(a - b)
            if op == '*': return wrap(a * b)
            if op == '/':
                if b == 0: self.dz(sure); return -1
                if a == -(1 << 63) and b == -1: self.dz(sure); return a
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            if op == '%':
                if b == 0: self.dz(sure); return a
                if a == -(1 << 63) and b == -1: self.dz(sure); return 0
                r = abs(a) % abs(b)
                return -r if a < 0 else r
            if op == '<<':
                if not 0 <= b < 64: raise TypeErr()
                return wrap(a << b)
            if op == '>>':
                if not 0 <= b < 64: raise TypeErr()
                return wrap((a & M64) >> b)
            if op == '&': return a & b
            if op == '|': return a | b
            if op == '^': return a ^ b
        if op in ('%', '<<', '>>', '&', '|', '^'): raise TypeErr()
        a, b = float(a), float(b)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/': return fdiv(a, b)
        raise AssertionError(op)

def evaluate(n):
    e = Ev()
    v = e.ev(n)
    return v, e

def prec(n):
    k = n[0]
    if k == 'b': return PREC[n[1]]
    if k == 't': return 0
    if k == 'u': return 11
    return 12

def render(n, sp=lambda: ""):
    """minimal parentheses (explicit 'p' nodes add redundant ones)"""
    k = n[0]
    if k in ('i', 'f'): return n[2]
    if k == 's': return '"' + n[1].replace("\\", "\\\\").replace('"', '\\"') + '"'
    if k == 'n': return n[1]
    if k == 'p': return "(" + sp() + render(n[1], sp) + sp() + ")"
    def sub(x, minp):
        t = render(x, sp)
        return t if prec(x) >= minp else "(" + t + ")"
    if k == 'u': return n[1] + sp() + sub(n[2], 12)
    if k == 't': return sub(n[1], 1) + sp() + "?" + sp() + sub(n[2], 0) + sp() + ":" + sp() + sub(n[3], 0)
    p = PREC[n[1]]
    return sub(n[2], p) + sp() + n[1] + sp() + sub(n[3], p + 1)

def int_leaf(s, v=None):
    if v is None: v = s.edgy(64, signed=False) & M64
    t = s.wpick([(6, 0), (2, 1), (1, 2)])
    text = "%d" % v if t == 0 else "0x%X" % v if t == 1 else "0%xh" % v
    return ('i', wrap(v), text)

FLOATS = [0.0, 1.0, 0.5, 2.5, 0.25, 3.0, 100.125, 65536.0, 0.1, 1e10, 123456.789, 4503599627370497.5, 9007199254740993.0, 1e18, 0.0009765625]
FTEXT = ["0.0", "1.0", "0.5", "2.5", "0.25", "3.0", "100.125", "65536.0", "0.1", "1e10", "123456.789", "4503599627370497.5", "9007199254740992.0", "1e18", "0.0009765625"]
FLOATS[12] = 9007199254740992.0
def float_leaf(s):
    i = s.below(len(FLOATS))
    return ('f', FLOATS[i], FTEXT[i])

STR = "abcXYZ019 _.-+"
def str_leaf(s):
    k = s.wpick([(3, 0), (1, 1), (1, 2)])
    if k == 1: return ('s', "%d" % s.below(12))
    if k == 2: return ('s', s.pick(["a", "ab", "b", ""]))
    return ('s', "".join(s.pick(STR) for _ in range(s.below(5))))

def gen(s, depth, ty, names=None):
    """typed tree: ty in 'i','f','s','n' (numeric: int or float)"""
    if ty == 'n': ty = s.wpick([(3, 'i'), (2, 'f')])
    if depth <= 0 or s.bool(0.12):
        if ty == 'i':
            if names and s.bool(0.3):
                nm = s.pick(names); return ('n', nm[0], nm[1])
            return int_leaf(s)
        return float_leaf(s) if ty == 'f' else str_leaf(s)
    d = depth - 1
    def g(t): return gen(s, d, t, names)
    if ty == 'i':
        k = s.wpick([(10, 'arith'), (3, 'shift'), (4, 'cmp'), (3, 'log'), (2, 'un'), (2, 'not'), (2, 'tern'), (2, 'scmp'), (1, 'paren')])
        if k == 'arith':
            op = s.pick(['+', '-', '*', '/', '%', '&', '|', '^'])
            if op in '/%' and s.bool(0.1):
                # the one quotient that has no representation, and its neighbours
                a = s.pick([-(1 << 63), -(1 << 63), -(1 << 63) + 1, (1 << 63) - 1])
                A = ('i', a, "0x%X" % (a % (1 << 64)))
                return ('b', op, A, s.pick([('u', '-', ('i', 1, "1")), ('u', '~', ('i', 0, "0")), ('u', '-', ('i', 1, "1")), ('i', 1, "1"), ('i', 0, "0")]))
            return ('b', op, g('i'), g('i'))
        if k == 'shift':
            r = ('i', *(lambda v: (v, "%d" % v))(s.below(64))) if s.bool(0.7) else ('p', ('b', '&', g('i'), ('i', 63, "63")))
            return ('b', s.pick(['<<', '>>']), g('i'), r)
        if k == 'cmp': return ('b', s.pick(['<', '<=', '>', '>=', '==', '!=']), g('n'), g('n'))
        if k == 'scmp':
            op = s.pick(['<', '<=', '>', '>=', '==', '!='])
            if op in ('==', '!=') and s.bool(0.4):
                a, b = g('s'), g('n')
                return ('b', op, a, b) if s.bool() else ('b', op, b, a)
            return ('b', op, g('s'), g('s'))
        if k == 'log': return ('b', s.pick(['&&', '||']), g('n'), g('n'))
        if k == 'un': return ('u', s.pick(['-', '~', '+']), g('i'))
        if k == 'not': return ('u', '!', g('n'))
        if k == 'tern': return ('t', g('n'), g('i'), g('i'))
        return ('p', g('i'))
    if ty == 'f':
        k = s.wpick([(6, 'ff'), (3, 'fi'), (3, 'if'), (2, 'un'), (2, 'tern'), (1, 'paren')])
        op = s.pick(['+', '-', '*', '/'])
        if k == 'ff': return ('b', op, g('f'), g('f'))
        if k == 'fi': return ('b', op, g('f'), g('i'))
        if k == 'if': return ('b', op, g('i'), g('f'))
        if k == 'un': return ('u', s.pick(['-', '+']), g('f'))
        if k == 'tern': return ('t', g('n'), g('f'), g('f'))
        return ('p', g('f'))
    k = s.wpick([(5, 'ss'), (2, 'sn'), (2, 'ns'), (1, 'tern'), (1, 'paren')])
    if k == 'ss': return ('b', '+', g('s'), g('s'))
    if k == 'sn': return ('b', '+', g('s'), g('n'))
    if k == 'ns': return ('b', '+', g('n'), g('s'))
    if k == 'tern': return ('t', g('n'), g('s'), g('s'))
    return ('p', g('s'))

def has_nan(n):
    """True if some subexpression evaluates to NaN (its text form is unspecified)"""
    try:
        v = Ev().ev(n)
    except TypeErr:
        return False
    if isinstance(v, float) and math.isnan(v): return True
    return any(has_nan(x) for x in n[1:] if isinstance(x, tuple))
