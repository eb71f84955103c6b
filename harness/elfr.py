"""Independent reader of ELF files and archives.  It projects a file to plain data
(the vocabulary of the specification) and judges nothing."""
import struct

NOHEX = 1 << 16
PAGES = 64


class Bad(Exception):
    pass


def limbs(v):
    v &= 2**64 - 1
    return [v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, v >> 48]


def i31(v):
    """TLC integers have 32 bits; anything larger is -1."""
    return v if -2**31 < v < 2**31 else -1


def cstr(b, o):
    if o >= len(b):
        raise Bad('string offset')
    e = b.find(b'\0', o)
    if e < 0:
        raise Bad('unterminated string')
    return b[o:e].decode('utf-8', 'surrogateescape')


def need(c, m):
    if not c:
        raise Bad(m)


class Elf:
    def __init__(self, b):
        need(len(b) >= 64 and b[:4] == b'\x7fELF', 'magic')
        self.b = b
        self.cls, self.data = b[4], b[5]
        need(self.cls == 2 and self.data == 1, 'class')
        (self.etype, self.machine, self.version, self.entry, self.phoff, self.shoff, self.eflags, self.ehsize,
         self.phentsize, self.phnum, self.shentsize, self.shnum, self.shstrndx) = struct.unpack_from(
             '<HHIQQQIHHHHHH', b, 16)
        self.secs = []
        if self.shnum:
            need(self.shentsize == 64, 'shentsize')
            need(self.shoff + 64 * self.shnum <= len(b), 'section headers outside the file')
        for i in range(self.shnum):
            f = struct.unpack_from('<IIQQQQIIQQ', b, self.shoff + 64 * i)
            self.secs.append(dict(zip(('nameoff', 'type', 'flags', 'addr', 'off', 'size', 'link', 'info', 'align',
                                       'entsize'), f)))
        for s in self.secs:
            s['data'] = b''
            if s['type'] not in (0, 8):
                need(s['off'] + s['size'] <= len(b), 'section outside the file')
                s['data'] = b[s['off']:s['off'] + s['size']]
        if self.secs:
            need(self.shstrndx < len(self.secs), 'shstrndx')
            st = self.secs[self.shstrndx]['data']
            for s in self.secs:
                try:
                    s['name'] = cstr(st, s['nameoff']) if s['nameoff'] or st else ''
                except Bad:
                    # what never becomes part of a program may be called anything
                    need(self.etype == 1 and s['type'] in (0, 2, 3, 4, 6, 9, 10, 11, 17), 'string offset')
                    s['name'] = '?'
        self.phs = []
        if self.phnum:
            need(self.phentsize == 56, 'phentsize')
            need(self.phoff + 56 * self.phnum <= len(b), 'program headers outside the file')
        for i in range(self.phnum):
            f = struct.unpack_from('<IIQQQQQQ', b, self.phoff + 56 * i)
            self.phs.append(dict(zip(('type', 'flags', 'off', 'vaddr', 'paddr', 'filesz', 'memsz', 'align'), f)))

    def symtab(self, sec, unreadable=None):
        s = self.secs[sec]
        need(s['link'] < len(self.secs), 'symtab link')
        st = self.secs[s['link']]['data']
        need(s['size'] % 24 == 0, 'symtab size')
        r = []
        for i in range(s['size'] // 24):
            n, info, other, shndx, value, size = struct.unpack_from('<IBBHQQ', s['data'], 24 * i)
            name = unreadable if unreadable and n >= len(st) else cstr(st, n)
            r.append(dict(name=name, bind=info >> 4, type=info & 15, other=other, shndx=shndx, value=value,
                          size=size))
        return r

    def find(self, type):
        return [i for i, s in enumerate(self.secs) if s['type'] == type]


def sym_json(s):
    return dict(n=s['name'], b=s['bind'], t=s['type'], x=s['shndx'], v=limbs(s['value']), z=i31(s['size']),
                o=s['other'])


ZERO = bytes(4096)


def content(b):
    """The contents of a section: all bytes of a small one, else the pages that aren't zero, if there are few."""
    if len(b) <= NOHEX:
        return dict(h=b.hex(), sp=False, pg=[])
    if b.count(0) < len(b) - 4096 * PAGES:
        return dict(h='', sp=False, pg=[])
    pg = [[k // 4096, b[k:k + 4096].ljust(4096, b'\0').hex()] for k in range(0, len(b), 4096)
          if b[k:k + 4096] != ZERO[:len(b) - k]]
    return dict(h='', sp=True, pg=pg) if len(pg) <= PAGES else dict(h='', sp=False, pg=[])


def project_obj(b):
    """A relocatable object (or what claims to be one)."""
    base = dict(cls=b[4] if len(b) > 4 else 0, data=b[5] if len(b) > 5 else 0, et=-1, mach=-1, secs=[], syms=[],
                rels=[], ok=False)
    if len(b) >= 20 and base['data'] == 1:
        base['et'], base['mach'] = struct.unpack_from('<HH', b, 16)
    try:
        e = Elf(b)
        tabs = e.find(2)
        syms = e.symtab(tabs[0]) if tabs else []
        rels = []
        for i in e.find(4):
            s = e.secs[i]
            for k in range(s['size'] // 24):
                off, info, add = struct.unpack_from('<QQq', s['data'], 24 * k)
                rels.append(dict(s=i31(s['info']), o=i31(off), t=i31(info & 0xffffffff), y=i31(info >> 32), d=limbs(add)))
        base['secs'] = [dict(n=s['name'], t=i31(s['type']), f=s['flags'] & 0xfffffff, a=i31(s['align']),
                             s=i31(s['size']), e=i31(s['entsize']), **content(s['data'])) for s in e.secs]
        base['syms'] = [sym_json(s) for s in syms]
        base['rels'] = rels
        base['ok'] = True
    except (Bad, struct.error, IndexError):
        pass
    return base


def project_so(b, names=None):
    """A shared object; `names` limits the symbols to those of interest."""
    base = dict(cls=b[4] if len(b) > 4 else 0, data=b[5] if len(b) > 5 else 0, et=-1, mach=-1, soname='', defs=[],
                undefs=[], ok=False)
    if len(b) >= 20 and base['data'] == 1:
        base['et'], base['mach'] = struct.unpack_from('<HH', b, 16)
    try:
        e = Elf(b)
        ds = e.find(11)
        syms = e.symtab(ds[0], '?') if ds else []
        keep = None
        if names is not None:
            keep = set(names)
            objs = {(s['shndx'], s['value']) for s in syms if s['name'] in keep and s['type'] == 1}
            keep |= {s['name'] for s in syms if s['type'] == 1 and (s['shndx'], s['value']) in objs}
        seen = set()
        for s in syms[1:]:
            if keep is not None and s['name'] not in keep | {'?'}:
                continue
            if s['shndx'] == 0:
                base['undefs'].append(s['name'])
            elif (s['name'], s['bind'] == 0) not in seen:
                seen.add((s['name'], s['bind'] == 0))
                al = 1
                if s['shndx'] < len(e.secs):
                    al = max(1, e.secs[s['shndx']]['align'])
                while s['value'] % al:
                    al //= 2
                base['defs'].append(dict(n=s['name'], b=s['bind'], t=s['type'], z=i31(s['size']),
                                         at='%x:%x' % (s['shndx'], s['value']), al=min(al, 64),
                                         o=s['other']))
        for i in e.find(6):
            st = e.secs[e.secs[i]['link']]['data']
            for k in range(e.secs[i]['size'] // 16):
                tag, val = struct.unpack_from('<QQ', e.secs[i]['data'], 16 * k)
                if tag == 14:
                    base['soname'] = cstr(st, val)
                if tag == 0:
                    break
        base['ok'] = True
    except (Bad, struct.error, IndexError):
        pass
    return base


def read_ar(b):
    """(members [(name, bytes)], index {symbol: position})"""
    need(b[:8] == b'!<arch>\n', 'ar magic')
    pos, long, index, members, offs = 8, b'', [], [], {}
    while pos + 60 <= len(b):
        h = b[pos:pos + 60]
        need(h[58:60] == b'`\n', 'ar header')
        name, size = h[:16].decode('latin1').rstrip(), int(h[48:58].decode())
        d = b[pos + 60:pos + 60 + size]
        need(len(d) == size, 'ar member')
        if name == '/':
            n = struct.unpack_from('>I', d, 0)[0]
            at = struct.unpack_from('>%dI' % n, d, 4)
            names = d[4 + 4 * n:].split(b'\0')[:n]
            index = [(x.decode(), o) for x, o in zip(names, at)]
        elif name == '//':
            long = d
        else:
            if name.startswith('/') and name[1:].isdigit():
                o = int(name[1:])
                name = long[o:long.index(b'\n', o)].decode()
            offs[pos] = len(members)
            members.append((name.rstrip('/'), d))
        pos += 60 + size + (size & 1)
    # a byte may be left over
    need(pos in (len(b), len(b) + 1, len(b) - 1), 'ar header')
    # the index knows members that are there
    need(all(o in offs for _, o in index), 'ar index')
    return members, [(s, offs[o]) for s, o in index]


def project_ar(b):
    try:
        ms, idx = read_ar(b)
    except (Bad, struct.error, ValueError, UnicodeDecodeError, IndexError):
        return dict(ok=False, mem=[], idx=[])
    return dict(ok=True, idx=sorted({s for s, _ in idx}),
                mem=[dict(n=n, o=project_obj(d)) for n, d in ms])


def rela_json(b):
    r = []
    for k in range(len(b) // 24):
        off, info, add = struct.unpack_from('<QQq', b, 24 * k)
        r.append(dict(o=i31(off), t=i31(info & 0xffffffff), y=i31(info >> 32), d=limbs(add)))
    return r


def codes(n):
    return list(n.encode('utf-8', 'surrogateescape'))


def project_out(b):
    """The program that was written, as the specification looks at it."""
    try:
        e = Elf(b)
        secs = []
        for s in e.secs:
            secs.append(dict(n=s['name'], t=i31(s['type']), f=s['flags'] & 0xfffffff, ad=i31(s['addr']),
                             of=i31(s['off']), s=i31(s['size']), l=i31(s['link']), i=i31(s['info']), a=i31(s['align']),
                             e=i31(s['entsize']), **content(s['data'])))
        tabs, dyn = e.find(2), e.find(11)
        o = dict(ok=True, why='', size=len(b), et=e.etype, mach=e.machine, ver=i31(e.version), idver=b[6], osabi=b[7],
                 entry=i31(e.entry), phoff=i31(e.phoff), shoff=i31(e.shoff), ehsize=e.ehsize, phes=e.phentsize,
                 phn=e.phnum, shes=e.shentsize, shn=e.shnum, shstr=e.shstrndx, secs=secs,
                 phs=[dict(t=i31(p['type']), f=i31(p['flags']), of=i31(p['off']), va=i31(p['vaddr']), pa=i31(p['paddr']),
                           fs=i31(p['filesz']), ms=i31(p['memsz']), a=i31(p['align'])) for p in e.phs],
                 nsymtab=len(tabs), ndynsym=len(dyn),
                 syms=[sym_json(s) for s in e.symtab(tabs[0])] if tabs else [],
                 dsyms=[dict(sym_json(s), c=codes(s['name'])) for s in e.symtab(dyn[0])] if dyn else [])
        strs = {}
        o['dyn'] = []
        for i in e.find(6):
            st = e.secs[e.secs[i]['link']]['data']
            d = e.secs[i]['data']
            for k in range(len(d) // 16):
                tag, val = struct.unpack_from('<QQ', d, 16 * k)
                o['dyn'].append(dict(g=i31(tag) if tag < 2**31 else -1, v=i31(val),
                                     s=cstr(st, val) if tag == 1 else ''))
        o['interp'] = ''
        for p in e.phs:
            if p['type'] == 3:
                need(p['off'] + p['filesz'] <= len(b), 'interp')
                d = b[p['off']:p['off'] + p['filesz']]
                o['interp'] = d[:-1].decode() if d.endswith(b'\0') else '?' + d.decode('latin1')
        rel = {s['name']: rela_json(s['data']) for s in e.secs if s['type'] == 4}
        o['reldyn'], o['relplt'] = rel.get('.rela.dyn', []), rel.get('.rela.plt', [])
        o['hash'] = dict(nb=0, nc=0, b=[], c=[])
        for i in e.find(5):
            d = e.secs[i]['data']
            w = [i31(x) for x in struct.unpack('<%dI' % (len(d) // 4), d[:len(d) // 4 * 4])]
            need(len(w) >= 2, 'hash')
            o['hash'] = dict(nb=w[0], nc=w[1], b=w[2:2 + w[0]], c=w[2 + w[0]:])
        o['gnu'] = dict(nb=0, so=0, bs=0, sh=0, bloom=[], b=[], c=[])
        for i in e.find(0x6ffffff6):
            d = e.secs[i]['data']
            nb, so, bs, sh = struct.unpack_from('<IIII', d, 0)
            need(16 + 8 * bs + 4 * nb <= len(d), 'gnu hash')
            bl = struct.unpack_from('<%dQ' % bs, d, 16)
            bu = struct.unpack_from('<%dI' % nb, d, 16 + 8 * bs)
            rest = d[16 + 8 * bs + 4 * nb:]
            ch = struct.unpack('<%dI' % (len(rest) // 4), rest[:len(rest) // 4 * 4])
            o['gnu'] = dict(nb=i31(nb), so=i31(so), bs=i31(bs), sh=i31(sh), bloom=[limbs(x) for x in bl], b=[i31(x) for x in bu],
                            c=[[x >> 16, x & 0xffff] for x in ch])
        return o
    except (Bad, struct.error, UnicodeDecodeError, IndexError) as ex:
        return dict(ok=False, why=str(ex))
