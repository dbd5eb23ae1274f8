"""Writes 32-bit ELF files and ar archives (independent of the code under test)."""
import struct
EM = {"arm": 40, "mips": 8, "sh": 42}
PROGBITS, SYMTAB, STRTAB, RELA, NOBITS, REL, INIT_ARRAY, NOTE = 1, 2, 3, 4, 8, 9, 14, 7
ALLOC, WRITE, EXEC = 2, 1, 4
ABS, COMMON = 0xFFF1, 0xFFF2

class Sec:
    def __init__(self, name, type=PROGBITS, flags=ALLOC, align=4, data=b"", size=None, rels=None, addr=0):
        self.name, self.type, self.flags, self.align, self.data = name, type, flags, align, bytearray(data)
        self.size = len(data) if size is None else size
        self.rels = rels or []          # (offset, type, symbol index in the caller's list, addend)
        self.rela = False; self.addr = addr; self.link = 0; self.info = 0; self.entsize = 0
class Sym:
    def __init__(self, name, value=0, size=0, bind=1, type=0, sec=0): self.name, self.value, self.size, self.bind, self.type, self.sec = name, value, size, bind, type, sec

def strtab(names, share=True):
    t = b"\0"; o = {"": 0}
    for n in names:
        if n not in o: o[n] = len(t); t += n.encode() + b"\0"
    return t, o

def relocatable(machine, big, secs, syms, order, gap=0, merge=False, extra_str=None, etype=1, emachine=None, rel_first=False, shdr_first=False, ident_big=None, phnum=0):
    """secs: list of Sec; syms: list of Sym whose sec is an index into secs (or ABS/COMMON/None = undefined).
    order: permutation of ["secs", "rels", "sym", "str", "shstr", "extra"], the section header order."""
    E = ">" if big else "<"
    H = [("null", None)]
    groups = {"secs": [("sec", s) for s in secs], "rels": [("rel", s) for s in secs if s.rels], "sym": [("sym", None)], "str": [("str", None)],
              "shstr": [] if merge else [("shstr", None)], "extra": [("extra", None)] if extra_str else []}
    if rel_first == "mixed":
        groups["secs"] = [x for s in secs for x in ([("sec", s)] + ([("rel", s)] if s.rels else []))]; groups["rels"] = []
    for g in order: H += groups[g]
    idx = {}
    for i, (k, s) in enumerate(H): idx[(k, id(s))] = i
    at = lambda k, s=None: idx[(k, id(s))]
    # symbols: locals first
    perm = [i for i, s in enumerate(syms) if s.bind == 0] + [i for i, s in enumerate(syms) if s.bind != 0]
    num = {j: i + 1 for i, j in enumerate(perm)}
    names = [s.name for s in syms] + ([s.name for s in secs] + [".rel" + s.name for s in secs] + [".rela" + s.name for s in secs] + [".symtab", ".strtab", ".shstrtab", ".stabstr"] if merge else [])
    st, so = strtab(names)
    if merge: ht, ho = st, so
    else: ht, ho = strtab([s.name for s in secs] + [".rel" + s.name for s in secs] + [".rela" + s.name for s in secs] + [".symtab", ".strtab", ".shstrtab", ".stabstr"])
    symd = bytes(16)
    for i in perm:
        s = syms[i]
        sh = 0 if s.sec is None else s.sec if s.sec >= 0xFF00 else at("sec", secs[s.sec])
        symd += struct.pack(E + "IIIBBH", so[s.name], s.value, s.size, s.bind << 4 | s.type, 0, sh)
    nl = 1 + sum(s.bind == 0 for s in syms)
    out = bytearray(52)
    def align(n):
        while n and len(out) % n: out.append(0)
    shoff = None
    if shdr_first: align(4); shoff = len(out); out.extend(bytes(40 * len(H)))
    hdrs = []
    for k, s in H:
        if k == "null": hdrs.append((0,) * 10); continue
        out.extend(b"\xEE" * gap)
        if k == "sec":
            align(s.align); off = len(out)
            if s.type != NOBITS: out.extend(s.data)
            hdrs.append((ho[s.name], s.type, s.flags, s.addr, off, s.size, s.link, s.info, s.align, s.entsize)); continue
        align(4); off = len(out)
        if k == "rel":
            d = b"".join(struct.pack(E + "II", o, num[y] << 8 | t) + (struct.pack(E + "i", a) if s.rela else b"") for o, t, y, a in s.rels)
            out.extend(d)
            hdrs.append((ho[(".rela" if s.rela else ".rel") + s.name], RELA if s.rela else REL, 0x40, 0, off, len(d), at("sym"), at("sec", s), 4, 12 if s.rela else 8))
        elif k == "sym": out.extend(symd); hdrs.append((ho[".symtab"], SYMTAB, 0, 0, off, len(symd), at("str"), nl, 4, 16))
        elif k == "str": out.extend(st); hdrs.append((so[".strtab"] if merge else ho[".strtab"], STRTAB, 0, 0, off, len(st), 0, 0, 1, 0))
        elif k == "shstr": out.extend(ht); hdrs.append((ho[".shstrtab"], STRTAB, 0, 0, off, len(ht), 0, 0, 1, 0))
        elif k == "extra": out.extend(extra_str); hdrs.append((ho[".stabstr"], STRTAB, 0, 0, off, len(extra_str), 0, 0, 1, 0))
    if shoff is None: align(4); shoff = len(out); out.extend(bytes(40 * len(H)))
    for i, h in enumerate(hdrs): out[shoff + 40 * i:shoff + 40 * i + 40] = struct.pack(E + "10I", *h)
    ib = big if ident_big is None else ident_big
    out[0:52] = b"\x7fELF" + bytes([1, 2 if ib else 1, 1]) + bytes(9) + struct.pack(E + "HHIIIIIHHHHHH", etype, EM[machine] if emachine is None else emachine, 1, 0, 52 if phnum else 0, shoff, 0, 52, 32 if phnum else 0, phnum, 40, len(H), at("str") if merge else at("shstr"))
    return bytes(out)

def archive(members, symbols=True, gnu=True):
    """members: [(name, bytes)]"""
    out = bytearray(b"!<arch>\n")
    def add(name, d, pad=b"\n"):
        out.extend(name.ljust(16).encode() + b"0".ljust(12) + b"0".ljust(6) + b"0".ljust(6) + b"644".ljust(8) + str(len(d)).encode().ljust(10) + b"`\n" + d)
        if len(d) % 2: out.extend(pad)
    if symbols: add("/", struct.pack(">I", 1) + struct.pack(">I", 8) + b"foo\0")
    long = b""
    for n, d in members:
        if len(n) > 15: long += n.encode() + b"/\n"
    if long: add("//", long)
    p = 0
    for n, d in members:
        if len(n) > 15: add("/%d" % p, d); p += len(n) + 2
        else: add(n + ("/" if gnu else ""), d)
    return bytes(out)

class Seg:
    """a segment: vaddr, its sections as (Sec, gap in front of it), tail bytes behind them, bss bytes"""
    def __init__(self, vaddr, secs, tail=b"", extra_mem=0, type=1, flags=7, align=16, paddr="zero"):
        self.vaddr, self.secs, self.tail, self.extra_mem, self.type, self.flags, self.align, self.paddr = vaddr, secs, tail, extra_mem, type, flags, align, paddr

def executable(machine, big, segs, free, order, entry=0, flags=0, gap=0, hdr_in_first=False, phent=32, shent=40, shdrs=True, trailer=b"", etype=2, interleave=False):
    """free: sections outside of any segment; order: permutation of ["ph", "sh", "seg", "free"]"""
    E = ">" if big else "<"
    secs = [(s, g) for g in segs for s, _ in g.secs]; H = [None]
    if interleave: H += [s for s in free] + [s for s, _ in secs]
    else: H += [s for s, _ in secs] + [s for s in free]
    names = [s.name for s in H if s] + [".shstrtab"]
    ht, ho = strtab(names); sh = Sec(".shstrtab", STRTAB, 0, 1, ht)
    H.append(sh); freeall = free + [sh]
    if not shdrs: H = []; freeall = []
    out = bytearray(52); off = {}; phoff = shoff = 0; seginfo = []
    def align(n):
        while n and len(out) % n: out.append(0xDD)
    for part in order:
        out.extend(b"\xEE" * gap)
        if part == "ph" and segs: align(4); phoff = len(out); out.extend(bytes(phent * len(segs)))
        elif part == "sh" and H: align(4); shoff = len(out); out.extend(bytes(shent * len(H)))
        elif part == "free":
            for s in freeall:
                align(s.align); off[id(s)] = len(out)
                if s.type != NOBITS: out.extend(s.data)
        elif part == "seg":
            for i, g in enumerate(segs):
                if hdr_in_first and i == 0: p = 0
                else: align(16); p = len(out)
                for s, pad in g.secs:
                    out.extend(pad); off[id(s)] = len(out)
                    if s.type != NOBITS: s.addr = g.vaddr + len(out) - p; out.extend(s.data)
                    else: s.addr = g.vaddr + len(out) - p
                out.extend(g.tail)
                seginfo.append((p, len(out) - p))
                out.extend(b"\xBB" * gap)
    out.extend(trailer)
    for i, g in enumerate(segs):
        p, n = seginfo[i]
        pa = {"zero": 0, "vaddr": g.vaddr}.get(g.paddr)
        if pa is None: pa = off[id(g.secs[g.paddr][0])]
        out[phoff + phent * i:phoff + phent * i + 32] = struct.pack(E + "8I", g.type, p, g.vaddr, pa, n, n + g.extra_mem, g.flags, g.align)
    for i, s in enumerate(H):
        if s is not None: out[shoff + shent * i:shoff + shent * i + 40] = struct.pack(E + "10I", ho[s.name], s.type, s.flags, s.addr, off[id(s)], s.size, s.link, s.info, s.align, s.entsize)
    out[0:52] = b"\x7fELF" + bytes([1, 2 if big else 1, 1]) + bytes(9) + struct.pack(E + "HHIIIIIHHHHHH", etype, EM[machine], 1, entry, phoff, shoff, flags, 52, phent, len(segs), shent, len(H), len(H) - 1 if H else 0)
    return bytes(out)

class Parsed: pass
def parse(d):
    """reads an ELF file, raising ValueError where it is inconsistent"""
    def need(ok, what):
        if not ok: raise ValueError(what)
    need(len(d) >= 52 and d[:4] == b"\x7fELF", "no ELF header")
    E = ">" if d[5] == 2 else "<"
    r = Parsed(); r.ident = d[:16]
    (r.type, r.machine, r.version, r.entry, phoff, shoff, r.flags, r.ehsize, pe, pn, se, sn, r.shstrndx) = struct.unpack(E + "HHIIIIIHHHHHH", d[16:52])
    r.phentsize, r.shentsize = pe, se
    r.segs = []; r.secs = []; spans = [(0, 52, "header")]
    if pn: spans.append((phoff, pe * pn, "program headers"))
    if sn: spans.append((shoff, se * sn, "section headers"))
    for i in range(pn):
        need(phoff + pe * i + 32 <= len(d), "program headers outside of the file")
        h = struct.unpack(E + "8I", d[phoff + pe * i:phoff + pe * i + 32])
        need(h[4] == 0 or h[1] + h[4] <= len(d), "segment %d outside of the file" % i)
        r.segs.append((h, d[h[1]:h[1] + h[4]]))
        if h[4]: spans.append((h[1], h[4], "segment %d" % i))
    for i in range(sn):
        need(shoff + se * i + 40 <= len(d), "section headers outside of the file")
        h = struct.unpack(E + "10I", d[shoff + se * i:shoff + se * i + 40])
        data = None
        if h[1] not in (0, NOBITS):
            need(h[5] == 0 or h[4] + h[5] <= len(d), "section %d outside of the file" % i)
            data = d[h[4]:h[4] + h[5]]
            own = [k for k, (g, _) in enumerate(r.segs) if g[1] <= h[4] and h[4] + h[5] <= g[1] + g[4]]
            if not own and h[5]: spans.append((h[4], h[5], "section %d" % i))
        r.secs.append([h, data, None])
    if sn:
        st = r.secs[r.shstrndx][1]
        for s in r.secs:
            if s[0][1]: e = st.find(b"\0", s[0][0]); need(e >= 0, "section name"); s[2] = st[s[0][0]:e]
    r.spans = sorted(spans)
    return r
