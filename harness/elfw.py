"""Writers for the inputs of a link: relocatable objects, shared objects and
archives.  They only lay out what they are told; no linking logic lives here."""
import struct

SHT = dict(NULL=0, PROGBITS=1, SYMTAB=2, STRTAB=3, RELA=4, HASH=5, DYNAMIC=6, NOTE=7,
           NOBITS=8, DYNSYM=11, INIT_ARRAY=14, FINI_ARRAY=15, PREINIT_ARRAY=16, GROUP=17,
           X86_64_UNWIND=0x70000001)
W, A, X, MERGE, STRINGS, TLSF = 1, 2, 4, 0x10, 0x20, 0x400
LOCAL, GLOBAL, WEAK = 0, 1, 2
NOTYPE, OBJECT, FUNC, SECTION, FILE, COMMONT, TLS, IFUNC = 0, 1, 2, 3, 4, 5, 6, 10
R = dict(NONE=0, R64=1, PC32=2, GOT32=3, PLT32=4, COPY=5, GLOB_DAT=6, JUMP_SLOT=7, RELATIVE=8,
         GOTPCREL=9, R32=10, R32S=11, R16=12, PC16=13, R8=14, PC8=15, DTPMOD64=16, DTPOFF64=17,
         TPOFF64=18, TLSGD=19, TLSLD=20, DTPOFF32=21, GOTTPOFF=22, TPOFF32=23, PC64=24,
         GOTOFF64=25, GOTPC32=26, GOTPCRELX=41, REX_GOTPCRELX=42)
UNDEF, ABS, COMMON = 0, 0xfff1, 0xfff2


class Sec:
    def __init__(self, name, type, flags, align, data, size, entsize):
        self.name, self.type, self.flags, self.align = name, type, flags, align
        self.data, self.size, self.entsize = data, size, entsize
        self.rels = []
        self.secsym = None
        self.index = None


class Sym:
    def __init__(self, name, bind, type, place, value, size, vis):
        self.name, self.bind, self.type, self.place = name, bind, type, place
        self.value, self.size, self.vis = value, size, vis
        self.index = None


class StrTab:
    def __init__(self):
        self.b = bytearray(b'\0')
        self.m = {'': 0}

    def add(self, s):
        if s not in self.m:
            self.m[s] = len(self.b)
            self.b += s.encode() + b'\0'
        return self.m[s]


class Obj:
    """A relocatable object."""

    def __init__(self, machine=62, klass=2, etype=1):
        self.secs, self.syms = [], []
        self.machine, self.klass, self.etype = machine, klass, etype
        self.rela_at = 'adjacent'     # adjacent | end | front
        self.tables_first = False     # clang puts .strtab first

    def sec(self, name, flags=A, align=1, data=None, size=None, type=None, entsize=0):
        if type is None:
            type = SHT['NOBITS'] if data is None else SHT['PROGBITS']
        if data is not None:
            size = len(data)
        s = Sec(name, type, flags, align, data, size or 0, entsize)
        self.secs.append(s)
        return s

    def sym(self, name, bind=GLOBAL, type=NOTYPE, place=UNDEF, value=0, size=0, vis=0):
        s = Sym(name, bind, type, place, value, size, vis)
        self.syms.append(s)
        return s

    def secsym(self, sec):
        if sec.secsym is None:
            sec.secsym = Sym('', LOCAL, SECTION, sec, 0, 0, 0)
            self.syms.append(sec.secsym)
        return sec.secsym

    def rel(self, sec, off, type, sym, addend=0):
        sec.rels.append((off, type, sym, addend))

    def bytes(self):
        # order of section headers
        order = [None]
        tabs = ['symtab', 'strtab', 'shstrtab']
        if self.tables_first:
            order += ['strtab']
            tabs.remove('strtab')
        rel = [s for s in self.secs if s.rels]
        if self.rela_at == 'front':
            order += [('rela', s) for s in rel]
        for s in self.secs:
            order.append(s)
            if self.rela_at == 'adjacent' and s.rels:
                order.append(('rela', s))
        if self.rela_at == 'end':
            order += [('rela', s) for s in reversed(rel)]
        order += tabs
        for i, e in enumerate(order):
            if isinstance(e, Sec):
                e.index = i
        idx = {e: i for i, e in enumerate(order) if isinstance(e, str)}
        strtab, shstr = StrTab(), StrTab()
        loc = [s for s in self.syms if s.bind == LOCAL]
        glo = [s for s in self.syms if s.bind != LOCAL]
        symb = bytearray(24)
        for i, s in enumerate(loc + glo):
            s.index = i + 1
            shndx = s.place.index if isinstance(s.place, Sec) else s.place
            symb += struct.pack('<IBBHQQ', strtab.add(s.name), (s.bind << 4) | s.type, s.vis,
                                shndx, s.value & (2**64 - 1), s.size)
        for e in order[1:]:
            if isinstance(e, Sec):
                shstr.add(e.name)
            elif isinstance(e, tuple):
                shstr.add('.rela' + e[1].name)
            else:
                shstr.add('.' + e)
        out = bytearray(64)
        hdrs = [bytes(64)]

        def put(b, align):
            while len(out) % max(align, 1):
                out.append(0)
            o = len(out)
            out.extend(b)
            return o
        for e in order[1:]:
            if isinstance(e, Sec):
                off = put(e.data, min(e.align or 1, 64)) if e.data is not None else len(out)
                h = (shstr.add(e.name), e.type, e.flags, 0, off, e.size, 0, 0, e.align, e.entsize)
            elif isinstance(e, tuple):
                b = bytearray()
                for off_, t, sy, ad in e[1].rels:
                    b += struct.pack('<QQq', off_, ((sy.index if sy else 0) << 32) | t, ad)
                off = put(b, 8)
                h = (shstr.add('.rela' + e[1].name), SHT['RELA'], 0x40, 0, off, len(b),
                     idx['symtab'], e[1].index, 8, 24)
            elif e == 'symtab':
                off = put(symb, 8)
                h = (shstr.add('.symtab'), SHT['SYMTAB'], 0, 0, off, len(symb), idx['strtab'],
                     len(loc) + 1, 8, 24)
            else:
                t = strtab if e == 'strtab' else shstr
                off = put(t.b, 1)
                h = (shstr.add('.' + e), SHT['STRTAB'], 0, 0, off, len(t.b), 0, 0, 1, 0)
            hdrs.append(struct.pack('<IIQQQQIIQQ', *h))
        while len(out) % 8:
            out.append(0)
        shoff = len(out)
        for h in hdrs:
            out += h
        out[:64] = b'\x7fELF' + bytes([self.klass, 1, 1, 0]) + bytes(8) + struct.pack(
            '<HHIQQQIHHHHHH', self.etype, self.machine, 1, 0, 0, shoff, 0, 64, 0, 0, 64,
            len(hdrs), idx['shstrtab'])
        return bytes(out)


def sysv_hash(n):
    h = 0
    for c in n.encode():
        h = (h << 4) + c
        g = h & 0xf0000000
        if g:
            h ^= g >> 24
        h &= ~g & 0xffffffff
    return h


class So:
    """A shared object: dynamic symbols over one .text and one .data section.
    Symbols: (name, bind, type, defined, size[, value])."""

    def __init__(self, soname=None, needed=(), machine=62):
        self.soname, self.needed, self.syms, self.machine = soname, list(needed), [], machine

    def sym(self, name, bind=GLOBAL, type=FUNC, defined=True, size=8, value=None, vis=0):
        self.syms.append([name, bind, type, defined, size, value, vis])

    def bytes(self):
        st = StrTab()
        text = b'\xc3' * 64
        base_text, base_data = 0x1000, 0x2000
        dpos = 0
        rows = [bytes(24)]
        self.syms.sort(key=lambda y: y[1] != LOCAL)
        for n, b, t, d, size, value, vis in self.syms:
            if not d:
                v, ndx = 0, 0
            elif t == OBJECT:
                ndx = 6
                if value is None:
                    v = base_data + dpos
                    dpos += (size + 15) // 16 * 16
                else:
                    v = base_data + value
            else:
                ndx, v = 5, base_text + (0 if value is None else value)
            rows.append(struct.pack('<IBBHQQ', st.add(n) if n != '?' else 0x7fffff00, (b << 4) | t, vis, ndx, v, size))
        dynsym = b''.join(rows)
        n = len(rows)
        nb = n // 2 + 1
        buckets, chains = [0] * nb, [0] * n
        for i, s in enumerate(self.syms, 1):
            k = sysv_hash(s[0]) % nb
            chains[i] = buckets[k]
            buckets[k] = i
        hsh = struct.pack('<II', nb, n) + b''.join(struct.pack('<I', v) for v in buckets + chains)
        so = st.add(self.soname) if self.soname else None
        nd = [st.add(x) for x in self.needed]
        # layout: identity mapping file offset == vaddr
        pos = 64 + 56 * 3
        def al(p, a): return (p + a - 1) // a * a
        o_hash = al(pos, 8)
        o_sym = al(o_hash + len(hsh), 8)
        o_str = o_sym + len(dynsym)
        end = o_str + len(st.b)
        shift = al(max(end, 0x1000), 0x1000)
        base = shift - 0x1000           # move text/data if the tables are large
        if base:
            rows2 = [rows[0]]
            for r in rows[1:]:
                f = list(struct.unpack('<IBBHQQ', r))
                if f[3]:
                    f[4] += base
                rows2.append(struct.pack('<IBBHQQ', *f))
            dynsym = b''.join(rows2)
        o_text, o_data = 0x1000 + base, 0x2000 + base
        data = bytes(max([dpos, 8] + [y[5] + y[4] for y in self.syms if y[3] and y[2] == OBJECT and y[5] is not None]))
        o_dyn = al(o_data + len(data), 16)
        dyn = [(1, x) for x in nd]
        if so is not None:
            dyn.append((14, so))
        dyn += [(4, o_hash), (5, o_str), (6, o_sym), (10, len(st.b)), (11, 24), (0, 0)]
        dynb = b''.join(struct.pack('<QQ', t, v) for t, v in dyn)
        total = o_dyn + len(dynb)
        shs = StrTab()
        names = ['', '.hash', '.dynsym', '.dynstr', '.dynamic', '.text', '.data', '.shstrtab']
        for x in names:
            shs.add(x)
        o_shs = total
        shoff = al(o_shs + len(shs.b), 8)
        out = bytearray(shoff + 64 * len(names))
        def w(o, b): out[o:o + len(b)] = b
        w(0, b'\x7fELF\x02\x01\x01\0' + bytes(8) + struct.pack('<HHIQQQIHHHHHH', 3, self.machine, 1, 0, 64,
          shoff, 0, 64, 56, 3, 64, len(names), 7))
        w(64, struct.pack('<IIQQQQQQ', 1, 5, 0, 0, 0, o_data, o_data, 0x1000))
        w(120, struct.pack('<IIQQQQQQ', 1, 6, o_data, o_data, o_data, total - o_data, total - o_data, 0x1000))
        w(176, struct.pack('<IIQQQQQQ', 2, 6, o_dyn, o_dyn, o_dyn, len(dynb), len(dynb), 8))
        for o, b in ((o_hash, hsh), (o_sym, dynsym), (o_str, st.b), (o_text, text), (o_data, data),
                     (o_dyn, dynb), (o_shs, shs.b)):
            w(o, b)
        H = [(0,) * 10,
             (shs.add('.hash'), 5, A, o_hash, o_hash, len(hsh), 2, 0, 8, 4),
             (shs.add('.dynsym'), 11, A, o_sym, o_sym, len(dynsym), 3,
              1 + sum(y[1] == LOCAL for y in self.syms), 8, 24),
             (shs.add('.dynstr'), 3, A, o_str, o_str, len(st.b), 0, 0, 1, 0),
             (shs.add('.dynamic'), 6, A | W, o_dyn, o_dyn, len(dynb), 3, 0, 8, 16),
             (shs.add('.text'), 1, A | X, o_text, o_text, len(text), 0, 0, 16, 0),
             (shs.add('.data'), 1, A | W, o_data, o_data, len(data), 0, 0, 16, 0),
             (shs.add('.shstrtab'), 3, 0, 0, o_shs, len(shs.b), 0, 0, 1, 0)]
        for i, h in enumerate(H):
            w(shoff + 64 * i, struct.pack('<IIQQQQIIQQ', *h))
        return bytes(out)


def ar_bytes(members, index=None, thin=False):
    """members: [(name, bytes, [defined symbol names])]; a SysV/GNU archive.
    index: None -> from the members' lists; else [(symbol, member position)]."""
    if not members and index is None:
        return b'!<arch>\n'
    if index is None:
        index = [(s, i) for i, (_, _, syms) in enumerate(members) for s in syms]
    long = bytearray()
    hn = []
    for n, _, _ in members:
        if len(n) > 15:
            hn.append('/%d' % len(long))
            long += n.encode() + b'/\n'
        else:
            hn.append(n + '/')
    strs = b''.join(s.encode() + b'\0' for s, _ in index)
    isz = 4 + 4 * len(index) + len(strs)
    def pad(n): return n + (n & 1)
    pos = 8
    if index or True:
        pos += 60 + pad(isz)
    if long:
        pos += 60 + pad(len(long))
    offs = []
    for _, b, _ in members:
        offs.append(pos)
        pos += 60 + pad(len(b))

    def hdr(n, size): return ('%-16s%-12s%-6s%-6s%-8s%-10d`\n' % (n, '0', '0', '0', '644', size)).encode()
    out = bytearray(b'!<arch>\n')
    idx = struct.pack('>I', len(index)) + b''.join(struct.pack('>I', offs[m]) for _, m in index) + strs
    out += hdr('/', len(idx)) + idx + b'\n' * (len(idx) & 1)
    if long:
        out += hdr('//', len(long)) + long + b'\n' * (len(long) & 1)
    for (n, b, _), h in zip(members, hn):
        out += hdr(h, len(b)) + b + b'\n' * (len(b) & 1)
    return bytes(out)
