"""Seeded random worlds, in the vocabulary of the specification.  The generator only takes
care that a world is meaningful; what has to come out is the specification's business."""
import random

GLOBAL, WEAK, LOCAL = 1, 2, 0
NOTYPE, OBJECT, FUNC, SECTION, FILE, TLS = 0, 1, 2, 3, 4, 6
W, A, X, T = 1, 2, 4, 1024
ABS = 65521


def limbs(v):
    v &= 2**64 - 1
    return [v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, v >> 48]


def sec(n, t, f, a, size, data=None):
    return dict(n=n, t=t, f=f, a=a, s=size, e=0, h='' if t == 8 else (data or bytes(size)).hex())


def sym(n, b=GLOBAL, t=NOTYPE, x=0, v=0, z=0, o=0):
    return dict(n=n, b=b, t=t, x=x, v=limbs(v), z=z, o=o)


def rel(s, o, t, y, d=0):
    return dict(s=s, o=o, t=t, y=y, d=limbs(d))


def obj(secs, syms, rels):
    return dict(cls=2, data=1, et=1, mach=62, ok=True, secs=[sec('', 0, 0, 0, 0)] + secs, syms=[sym('')] + syms,
                rels=rels)


def shared(soname, defs, undefs=()):
    return dict(cls=2, data=1, et=3, mach=62, ok=True, soname=soname, defs=defs, undefs=list(undefs))


def exp(n, t=FUNC, z=8, b=GLOBAL, at='', o=0):
    return dict(n=n, b=b, t=t, z=z, at=at, al=16, o=o)


def world(id, fam, argv, files, **k):
    return dict(id=id, fam=fam, argv=argv, files=files, **k)


class Sparse:
    """The contents of a large section: zeros, but for what was put in."""

    def __init__(self):
        self.at = []

    def __setitem__(self, k, b):
        self.at.append([k.start, bytes(b).hex()])


def json_sec(n, t, f, a, size, d):
    if isinstance(d, Sparse):
        return dict(n=n, t=t, f=f, a=a, s=size, e=0, h='', at=d.at)
    return sec(n, t, f, a, size, bytes(d) if d is not None else None)


class ObjGen:
    """One object with random sections; references are added afterwards."""

    def __init__(self, r, tag, opts):
        self.r, self.tag, self.o = r, tag, opts
        self.secs, self.locals, self.globals, self.rels = [], [], [], []
        self.free = {}           # section -> next free offset
        self.data = {}
        r = self.r
        kinds = [('.text', 1, A | X)]
        pool = [('.data', 1, A | W), ('.rodata', 1, A), ('.bss', 8, A | W), ('.text.x', 1, A | X), ('.data.rel', 1, A | W),
                ('.zz', 1, A | W), ('.ro2', 1, A), ('.comment', 1, 0x30), ('.note.x', 7, A), ('.eh_frame', 0x70000001, A),
                ('.data', 1, A | W), ('.bss', 8, A | W), ('.bss2', 8, A | W), ('.debug_q', 1, 0)]
        if r.random() < .1:
            pool += [('.meta', 1, W), ('.meta.x', 1, X), ('.meta.z', 8, 0), ('.meta', 8, W)]
        if opts.get('arrays'):
            pool += [('.init_array', 14, A | W), ('.fini_array', 15, A | W), ('.init', 1, A | X), ('.fini', 1, A | X)]
        if opts.get('tls'):
            pool += [('.tdata', 1, A | W | T), ('.tbss', 8, A | W | T)] * 2
        for _ in range(r.randrange(1, opts.get('nsec', 6))):
            kinds.append(r.choice(pool))
        if opts.get('dupsec') or r.random() < 0.8:
            seen = set()
            kinds = [k for k in kinds if k[0] not in seen and not seen.add(k[0])]
        r.shuffle(kinds)
        for n, t, f in kinds:
            a = r.choice([1, 1, 2, 4, 8, 16, 16, 32, 64] + ([256, 4096] if r.random() < 0.1 else []))
            if n in ('.init_array', '.fini_array'):
                a, size = 8, 8 * r.randrange(0, 4)
            else:
                size = r.choice([0, 1, 3, 8, 16, 24, 40, 64, 100, 7, 33])
                if n == '.text' or opts.get('big') and r.random() < .2:
                    size = 64 + 16 * r.randrange(0, 12)
                if t == 8 and r.random() < .1:
                    size = r.choice([5000, 70000])
            large = bool(opts.get('large')) and n not in ('.init', '.fini', '.init_array', '.fini_array') and r.random() < .3
            if large:
                size = r.choice([65537, 70000, 100001, 1 << 17, 300000, 1 << 20, (1 << 20) + 3, 3 << 20, (1 << 24) + 5] +
                                ([1 << 25, 1 << 26, 1 << 28] if t == 8 else []))
            if opts.get('large') and r.random() < .15:
                a = r.choice([1 << 13, 1 << 16, 1 << 20, 1 << 21, 1 << 22, 1 << 23])
            if large and t != 8:
                d = Sparse()
                ends = [0, 4090, 65530, 65536, 131070, size // 2, size - 40, 1 << 20, 1 << 24]
                for _ in range(r.randrange(0, 6)):
                    o = r.choice([r.choice(ends) + r.randrange(-8, 8), r.randrange(size)])
                    o = max(0, min(o, size - 20))
                    d[o:o + 20] = bytes(r.randrange(256) for _ in range(r.randrange(1, 20)))
                self.secs.append([n, t, f, a, size, d])
                self.free[len(self.secs)] = max(0, r.choice([r.choice(ends) - r.randrange(30), size - r.randrange(30, 400),
                                                             r.randrange(size - 30)]))
                continue
            d = bytes(r.randrange(256) for _ in range(size)) if t != 8 else None
            if n in ('.init', '.fini'):
                d = b'\x90' * size
            self.secs.append([n, t, f, a, size, bytearray(d) if d is not None else None])
            self.free[len(self.secs)] = r.randrange(0, 5)

    def place(self, tls=False, func=False, any=False):
        """a random section (1-based) for a definition"""
        c = [i for i, s in enumerate(self.secs, 1) if bool(s[2] & T) == tls and (s[2] & A) and
             (s[0] not in ('.init_array', '.fini_array'))]
        if not c:
            return None
        if func:
            c = [i for i in c if self.secs[i - 1][2] & X] or c
        return self.r.choice(c)

    def define(self, n, b, t):
        i = self.place(t == TLS, t == FUNC)
        if i is None:
            return False
        size = self.secs[i - 1][4]
        v = self.r.randrange(0, size + 1)
        self.add(sym(n, b, t, i, v, self.r.choice([0, 1, 4, 8, size]), self.r.choice([0] * 20 + [1, 2, 3, 3])))
        return True

    def add(self, s):
        (self.locals if s['b'] == LOCAL else self.globals).append(s)
        return s

    def slot(self, n, align=1):
        """room for n bytes in a section with contents"""
        c = [i for i, s in enumerate(self.secs, 1) if s[5] is not None and self.free[i] + n <= s[4] and
             s[0] not in ('.init', '.fini')]
        if self.r.random() < .8:
            c = [i for i in c if self.secs[i - 1][2] & A] or c
        if not c:
            return None
        i = self.r.choice(c)
        o = self.free[i]
        if self.secs[i - 1][0] in ('.init_array', '.fini_array'):
            o = (o + 7) // 8 * 8
            if o + 8 > self.secs[i - 1][4]:
                self.free[i] = self.secs[i - 1][4]
                return None
        self.free[i] = o + n + (self.r.randrange(0, 4) if self.r.random() < .5 else 0)
        return i, o

    def refer(self, s, kind):
        """a reference of a suitable type to symbol s; kind: what the symbol is"""
        r = self.r
        if kind == 'tls':
            t = r.choice([23, 22, 19] if s is None or True else [])
        elif kind == 'tlsimp':
            t = r.choice([22, 19])
        elif kind == 'func':
            t = r.choice([2, 4, 4, 1, 10, 11, 41, 42, 41, 42, 3, 9])
        elif kind == 'object':
            t = r.choice([2, 1, 10, 11, 41, 42, 41, 42, 3, 9])
        elif kind == 'bigabs':
            t = r.choice([1, 1, 1, 42] if r.random() < .1 else [1])
        elif kind == 'weak0':
            t = r.choice([1, 41, 42, 11, 10, 3, 9])
        else:
            t = r.choice([1, 2, 10, 11])
        n = {1: 8, 41: 6, 42: 7}.get(t, 4)
        p = self.slot(n)
        if not p:
            return
        i, o = p
        d = self.secs[i - 1][5]
        add = r.choice([0, 0, 0, 4, -4, 17, -9, 1000])
        if t == 1 and r.random() < .2:
            add = r.choice([1 << 32, (1 << 31) + 5, -(1 << 31) - 3, -(1 << 40) + 9, (1 << 63) - 1, 0x123456789abc])
        if self.secs[i - 1][0] in ('.init_array', '.fini_array') and t != 1:
            return
        if t in (2, 4):
            add -= 4
        if t == 3:
            add = 0 if r.random() < .7 else 8
        if t == 41:
            d[o:o + 2] = r.choice([b'\xff\x15', b'\xff\x25', b'\x8b\x05', b'\x8b\x0d', b'\x3b\x05', b'\x03\x1d', b'\x85\x05'])
            o += 2
            add = -4
        if t == 42:
            d[o:o + 3] = r.choice([b'\x48\x8b\x05', b'\x4c\x8b\x0d', b'\x48\x8b\x3d', b'\x48\x3b\x05', b'\x48\x85\x05', b'\x4c\x03\x15',
                                   b'\x48\x2b\x05'])
            o += 3
            add = -4
        if t in (9, 19, 22):
            add = -4
        if t == 23:
            add = r.choice([0, 0, 4, -2])
        if t == 10:
            add = abs(add)
        self.rels.append((i, o, t, s, add))

    def json(self):
        syms = [self.locals[i] for i in range(len(self.locals))] + self.globals
        num = {id(s): i + 1 for i, s in enumerate(syms)}
        secs = [json_sec(*x) for x in self.secs]
        return obj(secs, syms, [rel(i, o, t, num[id(s)] if s else 0, d) for i, o, t, s, d in self.rels])


def mix(r, id, fam='mix', **opts):
    """a link that succeeds in most cases"""
    nobj = r.randrange(1, opts.get('maxobj', 4) + 1)
    nar = r.randrange(0, opts.get('maxar', 2) + 1)
    nlib = r.randrange(0, opts.get('maxlib', 3) + 1)
    tag = lambda: ''.join(r.choice('abcdefghij') for _ in range(r.choice([1, 2, 3, 5, 12])))
    names = []
    for k in range(r.randrange(opts.get('minname', 2), opts.get('maxname', 12))):
        names.append('g%d_%s' % (k, tag()))
        if r.random() < .08:
            # names that differ in the end only, and in characters that mean something to other tools
            names += r.sample([names[-1] + x for x in ('@V1', '@V2', '@@V2', '.0', '.1', '$x', '@plt', '_', '\u00e9')], 2)
    gens = [ObjGen(r, 'o%d' % i, opts) for i in range(nobj)]
    mems = [[ObjGen(r, 'a%d_%d' % (a, m), opts) for m in range(r.randrange(1, 4))] for a in range(nar)]
    libs = [dict(defs=[], undefs=[]) for _ in range(nlib)]
    everyone = gens + [m for a in mems for m in a]
    kinds = {}
    for n in names:
        where = r.choice(['obj'] * 4 + ['mem'] * 2 + ['lib'] * 3 + ['weak', 'abs'])
        if where == 'mem' and not nar:
            where = 'obj'
        if where == 'lib' and not nlib:
            where = 'obj'
        t = r.choice([FUNC, OBJECT, NOTYPE, FUNC, OBJECT] + ([TLS, TLS] if opts.get('tls') else []))
        if where == 'weak':
            t = NOTYPE
        kinds[n] = (where, t)
        if where == 'obj' or where == 'mem':
            c = gens if where == 'obj' else r.choice(mems)
            g = r.choice(c)
            if not g.define(n, GLOBAL if r.random() < .8 else WEAK, t):
                kinds[n] = ('weak', NOTYPE)
                continue
            if r.random() < .25:
                h = r.choice(gens if where == 'obj' else [g])
                if h is not g:
                    h.define(n, WEAK, t)
            if r.random() < .15 and nlib and t != TLS:
                r.choice(libs)['defs'].append(exp(n, FUNC if t != OBJECT else OBJECT, r.choice([1, 4, 8, 32])))
        elif where == 'lib':
            if t == NOTYPE:
                t = FUNC
            kinds[n] = ('lib', t)
            for l in r.sample(libs, r.choice([1, 1, min(2, nlib)])):
                l['defs'].append(exp(n, t, r.choice([0, 1, 4, 8, 12, 24, 40, 100]) if t == OBJECT else 8,
                                     r.choice([GLOBAL, GLOBAL, WEAK])))
        elif where == 'abs':
            v = r.choice([0, 1, 0x1234, 0x7fffffff, 0x80000000, 0xffffffff, 2**40 + 5, 2**64 - 1, 2**63])
            kinds[n] = ('bigabs', v)
            r.choice(gens).add(sym(n, GLOBAL, NOTYPE, ABS, v))
    for g in everyone:
        for k in range(r.randrange(0, 4)):
            # local symbols, some with names that others use as well
            i = g.place()
            if i:
                g.add(sym(r.choice(['loc', 'tmp', 'x', g.tag, r.choice(names)]), LOCAL, r.choice([NOTYPE, OBJECT, FUNC]), i,
                          r.randrange(0, g.secs[i - 1][4] + 1), r.randrange(9)))
        if r.random() < .4:
            g.locals.insert(0, sym('file_%s.c' % g.tag, LOCAL, FILE, ABS))
        if r.random() < .2:
            g.add(sym('labs', LOCAL, NOTYPE, ABS, r.randrange(1 << 20)))
        ss = []
        for i, s in enumerate(g.secs, 1):
            if r.random() < .6:
                y = sym('', LOCAL, SECTION, i)
                g.locals.append(y)
                ss.append((i, y))
        mine = {y['n'] for y in g.globals}
        for _ in range(r.randrange(0, opts.get('maxref', 14))):
            c = r.random()
            if c < .2 and ss:
                i, y = r.choice(ss)
                if not g.secs[i - 1][2] & T:
                    g.refer(y, 'section')
            elif c < .4 and g.locals:
                y = r.choice(g.locals)
                if y['t'] not in (FILE, SECTION):
                    g.refer(y, 'local')
            else:
                n = r.choice(names)
                where, t = kinds[n]
                ys = [y for y in g.globals if y['n'] == n]
                if ys:
                    y = ys[0]
                else:
                    b = WEAK if where == 'weak' or r.random() < .1 else GLOBAL
                    y = g.add(sym(n, b, TLS if t == TLS and where != 'bigabs' else NOTYPE))
                if where == 'bigabs':
                    g.refer(y, 'bigabs' if t > 0x7fffffff else 'local' if t < 0x10000 else 'bigabs')
                elif where == 'weak':
                    g.refer(y, 'weak0')
                elif t == TLS:
                    g.refer(y, 'tlsimp' if where == 'lib' else 'tls')
                elif where == 'mem' and y['b'] == WEAK:
                    g.refer(y, 'weak0' if r.random() < .5 else 'object')
                else:
                    g.refer(y, 'func' if t == FUNC else 'object')
        if opts.get('ld') and r.random() < .7:
            for n in r.sample(['_GLOBAL_OFFSET_TABLE_', '__init_array_start', '__init_array_end', '__fini_array_start',
                               '__fini_array_end'], r.randrange(1, 6)):
                y = g.add(sym(n, r.choice([GLOBAL, GLOBAL, WEAK])))
                g.refer(y, 'section')
    # visibilities: of references and definitions here, of definitions in the libraries
    for g in everyone:
        for y in g.globals:
            if r.random() < (.02 if kinds.get(y['n'], ('',))[0] == 'lib' else .15):
                y['o'] = r.choice([1, 2, 2, 3])
    for l in libs:
        for d in l['defs']:
            d['o'] = 3 if r.random() < .05 else 0
            if r.random() < .03:
                d['b'] = LOCAL
    if r.random() < .95:
        gens[r.randrange(nobj)].define('_start', GLOBAL, FUNC)
    for l in libs:
        # what the library refers to: some of it is ours
        for _ in range(r.choice([0, 1, 2, 5])):
            l['undefs'].append(r.choice(['lu_%s' % tag(), 'nobody_has_this'] + names * 2))
        l['undefs'] = sorted(set(l['undefs']) - {d['n'] for d in l['defs']})
        if r.random() < .4:
            l['defs'].append(exp('unused_' + tag(), r.choice([FUNC, OBJECT]), 8))
        seen = set()
        l['defs'] = [d for d in l['defs'] if d['n'] not in seen and not seen.add(d['n'])]
        r.shuffle(l['defs'])
    files, words = [], []
    for i, g in enumerate(gens):
        files.append(dict(k='obj', b='/S/o%d.o' % i, o=g.json()))
        words.append(['o%d.o' % i])
    for i, a in enumerate(mems):
        files.append(dict(k='ar', b='/S/libar%d.a' % i,
                          a=dict(ok=True, mem=[dict(n=r.choice(['m.o', 'member%d.o' % k, 'a_rather_long_member_name_%d.o' % k]),
                                                    o=m.json()) for k, m in enumerate(a)])))
        words.append(r.choice([['libar%d.a' % i], ['-lar%d' % i], ['-l', 'ar%d' % i]]))
    for i, l in enumerate(libs):
        files.append(dict(k='so', b='/S/libso%d.so' % i,
                          s=shared(r.choice(['', 'libso%d.so.%d' % (i, i), 'other%d' % i]), l['defs'], l['undefs'])))
        words.append(r.choice([['libso%d.so' % i], ['-lso%d' % i], ['./libso%d.so' % i]]))
    if opts.get('shuffle', True):
        r.shuffle(words)
    argv = ['-L', '.'] if r.random() < .5 else []
    for x in words:
        if r.random() < .3:
            argv.append(r.choice(['--as-needed', '--no-as-needed']))
        argv += x
    if '-L' not in argv:
        argv += ['-L.']
    out = r.choice(['out', './out', 'prog', '/S/abs.out'])
    argv[r.choice([0, len(argv)]):0] = ['-o', out]
    if r.random() < .6:
        argv += ['--hash-style=' + r.choice(['sysv', 'gnu', 'both'])]
    if r.random() < .2:
        argv += ['-dynamic-linker', r.choice(['/lib/ld.so', '/x/loader-1', '/lib64/ld-linux-x86-64.so.2'])]
    return world(id, fam, argv, files)


# ---------------------------------------------------------------- larger and stranger
def absolute(w, r):
    """the same link with absolute paths, and another directory to start it from"""
    names = {f['b'][3:] for f in w['files']}
    out, argv = False, []
    for a in w['argv']:
        b = a[2:] if a.startswith('./') else a
        if out and not a.startswith('/'):
            a = '/S/' + b
        elif b in names:
            a = '/S/' + b
        elif a == '-L.':
            a = '-L/S/'
        elif a == '.':
            a = '/S/'
        out = a == '-o'
        argv.append(a)
    if '-o' not in argv:
        argv += ['-o', '/S/out']
    w.update(argv=argv, absolute=True, cwd2='/S/else/where', mkdirs=['/S/else/where'])
    return w


def determ(r, id, fam='determ', **opts):
    o = dict(tls=True, arrays=True, ld=True, maxobj=6, maxar=3, maxlib=4, maxname=r.choice([8, 30, 60]), minname=6)
    w = mix(r, id, fam, **o)
    w['repeat'] = opts.get('repeat', 4)
    c = r.random()
    if c < .6:
        absolute(w, r)
    if r.random() < opts.get('pause', .1):
        w.update(pause=1.05, repeat=2)
    if r.random() < .2:
        # something is wrong: it is wrong again
        f = r.choice([f for f in w['files'] if f['k'] == 'obj'])
        for k in range(3):
            f['o']['syms'].append(sym('nowhere%d' % r.randrange(9), GLOBAL))
    return w


def big(r, id, fam='big', **opts):
    o = dict(tls=True, arrays=True, ld=True, maxobj=r.choice([4, 12, 20]), maxar=6, maxlib=6, maxname=r.choice([30, 80]), minname=10,
             nsec=r.choice([3, 12]), maxref=30, dupsec=r.random() < .3)
    return mix(r, id, fam, **o)


def colliding(r, n):
    """names of equal GNU hash"""
    base = ['']
    for _ in range(max(1, n.bit_length())):
        base = [x + y for x in base for y in ('bB', 'c!')]    # 33*98+66 = 33*99+33
    r.shuffle(base)
    return base[:n]


def names(r, id, fam='names', **opts):
    """many imports, with names of every kind"""
    def word():
        c = r.random()
        if c < .5:
            return ''.join(r.choice('abcdefghijklmnopqrstuvwxyz_0123456789') for _ in range(r.randrange(1, 12)))
        if c < .6:
            return '_ZN' + ''.join(r.choice('abcXYZ123') for _ in range(r.choice([20, 60, 250])))
        if c < .7:
            return ''.join(r.choice('äöü€𝄞éab') for _ in range(r.randrange(1, 6)))
        if c < .8:
            return r.choice('abz') * r.randrange(1, 40)
        return 'sym_%d' % r.randrange(10000)
    n = r.choice([0, 1, 2, 3, 5, 8, 16, 31, 64, opts.get('max', 100)])
    ns = {word() for _ in range(n)} | set(colliding(r, r.choice([0, 0, 2, 5, 9])))
    # names of equal SysV hash: adding 1 to a byte is 16 of the next
    if r.random() < .4:
        for k in range(r.randrange(1, 4)):
            x = word()[:4]
            ns |= {x + 'a' + chr(0x61 + 16), x + 'b' + chr(0x61)}
    ns = sorted(ns)
    r.shuffle(ns)
    fun = [x for x in ns if r.random() < .6]
    syms, rels, at = [sym('_start', GLOBAL, FUNC, 1, 0, 1)], [], 0
    for x in ns:
        syms.append(sym(x))
        rels.append(rel(2, at, 1, len(syms), 0))
        at += 8
    nlib = r.randrange(1, 4)
    libs = [shared('libn%d.so' % i, []) for i in range(nlib)]
    for x in ns:
        r.choice(libs)['defs'].append(exp(x, FUNC if x in fun else OBJECT, r.choice([1, 4, 8, 24])))
    for l in libs:
        for k in range(r.randrange(0, 5)):
            l['defs'].append(exp('unused%d_' % k + word(), r.choice([FUNC, OBJECT]), 4))
        r.shuffle(l['defs'])
        seen = set()
        l['defs'] = [d for d in l['defs'] if d['n'] not in seen and not seen.add(d['n'])]
    o = obj([sec('.text', 1, A | X, 16, 16), sec('.data', 1, A | W, 8, at + 8)], syms, rels)
    probes = [word() for _ in range(40)] + [x + y for x in ns[:6] for y in ('a', 'A')] + [x[:-1] for x in ns[:6]] + ['', 'bBbB', 'c!c!', 'c!bB']
    for x in ns[:20]:
        if len(x) > 1:
            # a name of equal hash that isn't there
            probes.append(x[:-2] + chr((ord(x[-2]) + 1) & 127 or 1) + chr((ord(x[-1]) - 33) & 127 or 1))
            probes.append(x[:-2] + chr((ord(x[-2]) + 1) & 127 or 1) + chr((ord(x[-1]) - 16) & 127 or 1))
    argv = ['a.o'] + ['libn%d.so' % i for i in range(nlib)]
    r.shuffle(argv)
    argv += [['--hash-style=gnu'], ['--hash-style=sysv'], ['--hash-style', 'both'], []][r.randrange(4)]
    return world(id, fam, argv, [dict(k='obj', b='/S/a.o', o=o)] +
                 [dict(k='so', b='/S/libn%d.so' % i, s=l) for i, l in enumerate(libs)], probes=probes)


def imports(r, id, fam='imports', **opts):
    """so many imports that indices and slots need more than a byte"""
    n = opts.get("n") or r.choice([40, 127, 129, 200, 255, 256, 257, 258, 300, 300, 400, 520])
    share = r.choice([0, .2, .9, 1, 1, 1])                   # of functions
    ns = ['i%d%s' % (k, ''.join(r.choice('abc_') for _ in range(r.choice([0, 0, 1, 3, 30])))) for k in range(n)]
    fun = {x for x in ns if r.random() < share}
    nlib = r.randrange(1, 6)
    libs = [shared(r.choice(['', 'libi%d.so.1' % i]), []) for i in range(nlib)]
    for x in ns:
        r.choice(libs)['defs'].append(exp(x, FUNC if x in fun else OBJECT, r.choice([1, 2, 4, 8, 16, 24, 64, 1000])))
    objs = []
    for k in range(r.randrange(1, 4)):
        syms, rels, text, data = [], [], bytearray(16), bytearray(8)
        if k == 0:
            syms.append(sym('_start', GLOBAL, FUNC, 1, 0, 1))
        for x in r.sample(ns, len(ns)):
            if k and r.random() < .5:
                continue
            syms.append(sym(x))
            for t in r.sample([1, 2, 4, 9, 41, 42, 11], r.choice([1, 1, 2])):
                if t == 4 and x not in fun:
                    t = 2
                if t == 1:
                    rels.append(rel(2, len(data), 1, len(syms), 0))
                    data += bytes(8)
                else:
                    text += {2: b'\x48\x8d\x05', 4: b'\xe8', 9: b'\x48\x8b\x05', 41: r.choice([b'\xff\x15', b'\xff\x25', b'\x8b\x05']),
                             42: b'\x48\x8b\x0d', 11: b'\x48\xc7\xc0'}[t]
                    rels.append(rel(1, len(text), t, len(syms), 0 if t == 11 else -4))
                    text += bytes(4)
        objs.append(obj([sec('.text', 1, A | X, 16, len(text), bytes(text)), sec('.data', 1, A | W, 8, len(data))], syms, rels))
    argv = ['o%d.o' % k for k in range(len(objs))] + ['libi%d.so' % i for i in range(nlib)]
    r.shuffle(argv)
    argv += [['--hash-style=gnu'], ['--hash-style=sysv'], ['--hash-style', 'both'], []][r.randrange(4)]
    return world(id, fam, argv, [dict(k='obj', b='/S/o%d.o' % k, o=o) for k, o in enumerate(objs)] +
                 [dict(k='so', b='/S/libi%d.so' % i, s=l) for i, l in enumerate(libs)], probes=['i', 'i0', 'i999', 'j'])


def truncated(r, id, fam='trunc', **opts):
    """one of the inputs is cut off somewhere: the specification decides what that means"""
    import run
    w = mix(r, id, fam, maxobj=2, maxar=2, maxlib=2, maxref=5)
    k = r.randrange(len(w['files']))
    f = w['files'][k]
    b = run.file_bytes(f, r.randrange(12))
    n = r.choice([r.randrange(len(b)), len(b) - 1, r.randrange(min(len(b), 80)), len(b) - r.randrange(1, min(len(b), 70))])
    w['files'][k] = dict(b=f['b'], k='raw', raw=b[:n].decode('latin1'))
    w['timeout'] = 5
    return w


def flipped(r, id, fam='flip', **opts):
    """bytes of an input are changed: the run has to end properly"""
    import run
    w = mix(r, id, fam, maxobj=2, maxar=2, maxlib=2, maxref=5)
    k = r.randrange(len(w['files']))
    f = w['files'][k]
    b = bytearray(run.file_bytes(f, r.randrange(12)))
    for _ in range(r.choice([1, 1, 2, 4, 16])):
        i = r.choice([r.randrange(len(b)), r.randrange(min(64, len(b))), len(b) - 1 - r.randrange(min(len(b), 700))])
        b[i] = r.choice([0, 255, 1, 127, 128, b[i] ^ (1 << r.randrange(8)), r.randrange(256)])
    if r.random() < .1:
        i = r.randrange(len(b))
        b[i:i] = bytes(r.randrange(256) for _ in range(r.randrange(1, 40)))
    w['files'][k] = dict(b=f['b'], k='raw', raw=bytes(b).decode('latin1'))
    w['timeout'] = 5
    w['wild'] = True
    return w


def noise(r, id, fam='noise', **opts):
    """anything at all as an input or an argument"""
    def text():
        words = ['GROUP', 'AS_NEEDED', 'OUTPUT_FORMAT', '(', ')', '(', ')', '/*', '*/', 'a.o', '-lx', '*', '/', 'INPUT', '\n', ';', 'GROUP(', '))', '((',
                 'AS_NEEDED(', 's.ld', 'elf64-x86-64', '"', '\t', ',']
        return ''.join(r.choice(words) + r.choice(['', ' ', ' ', '\n']) for _ in range(r.randrange(0, 14)))
    def args():
        c = ['-o', '-L', '-l', '-m', '-z', '-h', '--help', '--build-id', '--hash-style', '--hash-style=', '--hash-style=x', 'a.o', 's.ld', 'b', '', '-', '--',
             '-L.', '-la', '-lx', 'elf_x86_64', 'gnu', '0x', '0xzz', 'md5', '-dynamic-linker', '--as-needed', '--start-group', '--end-group', '-ö', '.', '/', '..',
             '--eh-frame-hdr', 'x.a', 'l.so', 'a.o', 'x.a', 'b']
        return [r.choice(c) for _ in range(r.randrange(0, 7))]
    o = obj([sec('.text', 1, A | X, 16, 16)], [sym('_start', GLOBAL, FUNC, 1), sym('g', GLOBAL)], [])
    m = obj([sec('.text', 1, A | X, 16, 16)], [sym('g', GLOBAL, FUNC, 1)], [])
    files = [dict(k='obj', b='/S/a.o', o=o), dict(k='ar', b='/S/x.a', a=dict(ok=True, mem=[dict(n='m.o', o=m)])),
             dict(k='ar', b='/S/libx.a', a=dict(ok=True, mem=[dict(n='m.o', o=m)])),
             dict(k='so', b='/S/l.so', s=shared('', [exp('g')])), dict(k='text', b='/S/s.ld', x=text()),
             dict(b='/S/b', k='raw', raw=r.choice([bytes(r.randrange(256) for _ in range(r.randrange(60))),
                                                   b'!<arch>\n' + bytes(r.randrange(32, 127) for _ in range(r.randrange(140))),
                                                   b'\x7fELF\2\1\1' + bytes(r.choice([0, 0, 1, 3, 62, 64, 255]) for _ in range(r.randrange(200))),
                                                   b'!<arch>\n', b'\x7fELF', b'']).decode('latin1'))]
    argv = args() + ['a.o'] * r.randrange(2) + r.choice([[], ['s.ld'], ['x.a'], ['b']])
    wild = r.random() < .04
    if wild:
        argv.insert(r.randrange(len(argv) + 1), r.choice(['\udcff', '-L\udcfe', 'a\udc80.o']))
    return world(id, fam, argv, files, timeout=5, wild=wild)


def texts(r, id, fam='texts', **opts):
    """linker scripts: structures with any blanks and comments between their parts, some then damaged"""
    chars = 'ab_.-/*() \n\tGROUPAS_NEEDED;,{}"+0'
    comment = lambda: '/*' + ''.join(r.choice(chars) for _ in range(r.randrange(8))).replace('*/', '* /') .rstrip('*') + r.choice(['', ' ', '*', '**', '/', '\n']) + '*/'
    blank = lambda: r.choice([' ', ' ', '\n', '\t', '\r\n', '  ', '\n\n'])

    def gap(least):
        g = ''.join(r.choice([blank, blank, blank, comment])() for _ in range(r.choice([0, 0, 1, 1, 2, 4])))
        # a comment next to a word needs a blank in between
        return g if not g and not least else ' ' + g + ' ' if '/' in g else g or ' '
    names = ['b.o', 'c.o', 'libq.so', 'libs.so', '-lq', '-ls', './b.o', '/S/c.o', 'x-1_2.o', 'libm.a', '-lm', 'd/in.ld', 'two.ld', 'nosuch.o', 'AS', 'GROUPS', 'OUTPUT_FORMAT']

    def item(deep):
        if deep and r.random() < .3:
            return 'AS_NEEDED' + gap(False) + '(' + gap(False) + ''.join(item(False) + gap(True) for _ in range(r.randrange(4))) + ')'
        return r.choice(names[:11] if r.random() < .95 else names)

    def text(n):
        t = gap(False)
        for _ in range(n):
            if r.random() < .25:
                t += 'OUTPUT_FORMAT' + gap(False) + '(' + gap(False) + r.choice(['elf64-x86-64', 'elf32-i386', 'x']) + gap(False) + ')' + gap(False)
            else:
                items = [item(True) for _ in range(r.randrange(5))]
                t += 'GROUP' + gap(False) + '(' + gap(False) + ''.join(i + gap(not i.endswith(')')) for i in items) + ')' + gap(False)
        if r.random() < .35:
            for _ in range(r.choice([1, 1, 2, 3])):
                i = r.randrange(len(t) + 1)
                k = r.randrange(4)
                if k == 0:
                    t = t[:i] + t[i + 1:]
                elif k == 1:
                    t = t[:i] + r.choice(chars) + t[i:]
                elif k == 2:
                    t = t[:i] + r.choice(chars) + t[i + 1:]
                else:
                    j = r.randrange(len(t) + 1)
                    t = t[:min(i, j)] + t[max(i, j):] if abs(i - j) < 12 else t[:i]
        return t
    start = obj([sec('.text', 1, A | X, 16, 16), sec('.data', 1, A | W, 8, 24)],
                [sym('_start', GLOBAL, FUNC, 1), sym('g_q', WEAK), sym('g_s', WEAK), sym('g_m', r.choice([GLOBAL, WEAK]))],
                [rel(2, 0, 1, 1), rel(2, 8, 1, 2), rel(2, 16, 1, 3)])
    weak = lambda *ns: obj([sec('.data', 1, A | W, 8, 8)], [sym(n, WEAK, OBJECT, 1, z=8) for n in ns], [])
    files = [dict(k='obj', b='/S/a.o', o=start), dict(k='obj', b='/S/b.o', o=weak('w', 'only_b')), dict(k='obj', b='/S/c.o', o=weak('w', 'only_c', 'g_m')),
             dict(k='obj', b='/S/x-1_2.o', o=weak('w', 'only_x')), dict(k='so', b='/S/libq.so', s=shared('libq.so', [exp('g_q', OBJECT)])),
             dict(k='so', b='/S/libs.so', s=shared(r.choice(['libs.so', '']), [exp('g_s', OBJECT), exp('g_q', OBJECT)])),
             dict(k='ar', b='/S/libm.a', a=dict(ok=True, mem=[dict(n='m.o', o=weak('g_m', 'w'))])),
             dict(k='text', b='/S/one.ld', x=text(r.choice([1, 1, 1, 2, 3]))), dict(k='text', b='/S/two.ld', x=text(1)), dict(k='text', b='/S/d/in.ld', x=text(1))]
    argv = [['-L.', 'a.o', 'one.ld'], ['-L.', '--as-needed', 'one.ld', 'a.o'], ['a.o', 'one.ld', '-L', '.', '-lq'], ['-L.', 'a.o', 'two.ld', 'one.ld'],
            ['-L.', 'one.ld', '--as-needed', 'a.o', '-ls', '--no-as-needed', 'two.ld']][r.randrange(5)]
    return world(id, fam, argv, files, timeout=5)


def chain(r, id, fam='chain', **opts):
    """archives that lead from one to the next, further than a round or two, also in circles and by detours"""
    n = r.choice([2, 3, 5, 8, 13, 21, 34])
    narch = r.randrange(1, min(n, 14) + 1)
    order = list(range(n))
    arch = [[] for _ in range(narch)]
    style = r.choice(['back', 'random', 'forth'])
    for k in range(n):
        a = {'back': (n - 1 - k) * narch // n, 'forth': k * narch // n, 'random': r.randrange(narch)}[style]
        arch[a].insert(0 if style == 'back' else r.randrange(len(arch[a]) + 1), k)
    last = r.choice(['end', 'circle', 'open', 'weak', 'lib', 'start'])
    wanted = r.randrange(1, 4)

    def member(k):
        syms = [sym('here', LOCAL, OBJECT, 2, 8 * (k % 3), 4), sym('link%d' % k, GLOBAL if r.random() < .85 else WEAK, OBJECT, 2, 16, 8)]
        to = []
        if k + 1 < n:
            to.append(('link%d' % (k + 1), GLOBAL))
        else:
            to += {'end': [], 'circle': [('link%d' % r.randrange(n), GLOBAL)], 'open': [('nobody', GLOBAL)], 'weak': [('nobody', WEAK)],
                   'lib': [('i_end', GLOBAL)], 'start': [('g_start', GLOBAL)]}[last]
        for _ in range(r.choice([0, 0, 1, 2])):
            to.append(('link%d' % r.randrange(n), r.choice([GLOBAL, WEAK, WEAK])))
        rels, seen = [], {'link%d' % k}
        if r.random() < .2:
            syms.append(sym('extra%d' % k, r.choice([GLOBAL, WEAK]), OBJECT, 2, 4, 4))
        for j, (x, b) in enumerate(to):
            if x in seen:
                continue
            seen.add(x)
            syms.append(sym(x, b))
            rels.append(rel(2, 8 * j, 1, len(syms), j))
        return obj([sec('.text', 1, A | X, 16, 16), sec('.data', 1, A | W, 8, 40)], syms, rels)
    starts = [('link0', GLOBAL)] + [('link%d' % r.randrange(n), r.choice([GLOBAL, WEAK])) for _ in range(wanted - 1)]
    syms, rels = [sym('_start', GLOBAL, FUNC, 1, 0, 1), sym('g_start', GLOBAL, OBJECT, 2, 32, 8)], []
    for j, (x, b) in enumerate(dict(starts).items()):
        syms.append(sym(x, b))
        rels.append(rel(2, 8 * j, 1, len(syms), 0))
    files = [dict(k='obj', b='/S/a.o', o=obj([sec('.text', 1, A | X, 16, 16), sec('.data', 1, A | W, 8, 40)], syms, rels))]
    words = ['a.o']
    for i, a in enumerate(arch):
        files.append(dict(k='ar', b='/S/libc%d.a' % i, a=dict(ok=True, mem=[dict(n='m.o', o=member(k)) for k in a])))
        words.append('libc%d.a' % i)
    if last == 'lib' or r.random() < .3:
        files.append(dict(k='so', b='/S/libi.so', s=shared('libi.so.1', [exp('i_end', OBJECT, 8)] +
                                                           ([exp('link%d' % r.randrange(n), FUNC, 4)] if r.random() < .4 else []))))
        words.insert(r.randrange(len(words) + 1), 'libi.so')
    if r.random() < .2:
        files.append(dict(k='ar', b='/S/none.a', a=dict(ok=True, mem=[])))
        words.insert(r.randrange(len(words) + 1), 'none.a')
    if r.random() < .3:
        words.append(r.choice(words[1:]))
    if r.random() < .2:
        words = words[1:] + words[:1]
    return world(id, fam, words, files)


def many(r, id, fam='many', **opts):
    """a lot of symbols that stay unresolved, and others that don't"""
    n = r.choice([3, 9, 15, 16, 17, 18, 31, 33, 40, 64, 100, 130, 257])
    names = ['u%d_%s' % (k, ''.join(r.choice('xyz_$') for _ in range(r.randrange(12)))) for k in range(n)]
    fate = {x: r.choice(opts.get('fates', ['un', 'un', 'un', 'weak', 'both', 'obj', 'mem', 'lib', 'libref'])) for x in names}
    if r.random() < .15:
        fate = {x: r.choice(['weak', 'obj', 'mem', 'lib']) for x in names}
    data = lambda k: [sec('.text', 1, A | X, 16, 16), sec('.data', 1, A | W, 8, max(8, 8 * k))]

    def refer(xs, first):
        syms = [sym('_start', GLOBAL, FUNC, 1, 0, 1)] if first else []
        rels = []
        for x in xs:
            syms.append(sym(x, WEAK if fate[x] == 'weak' or fate[x] == 'both' and r.random() < .6 else GLOBAL))
            if r.random() < .8:
                rels.append(rel(2, 8 * len(rels), 1, len(syms), 0))
        return obj(data(len(xs)), syms, rels)

    def define(xs):
        return obj(data(len(xs)), [sym(x, r.choice([GLOBAL, GLOBAL, WEAK]), OBJECT, 2, 8 * k, 8) for k, x in enumerate(xs)], [])
    some = lambda: [x for x in names if r.random() < .7]
    xs = some()
    o1, o2 = refer(xs, True), refer(some(), False)
    mem = [x for x in names if fate[x] == 'mem']
    r.shuffle(mem)
    cut = r.randrange(len(mem) + 1)
    files = [dict(k='obj', b='/S/a.o', o=o1), dict(k='obj', b='/S/b.o', o=o2),
             dict(k='obj', b='/S/d.o', o=define([x for x in names if fate[x] == 'obj'])),
             dict(k='ar', b='/S/m.a', a=dict(ok=True, mem=[dict(n='m.o', o=define(p)) for p in (mem[:cut], mem[cut:]) if p])),
             dict(k='so', b='/S/l.so', s=shared('', [exp(x, r.choice([FUNC, OBJECT]), 8) for x in names if fate[x] == 'lib'] or [exp('none')],
                                                [x for x in names if fate[x] == 'libref']))]
    argv = ['a.o', 'b.o', 'd.o', 'm.a', 'l.so']
    r.shuffle(argv)
    return world(id, fam, argv, files)


def elf_fields(b, base=0):
    """[(what, offset in the file, width, values that are out of bounds)] of an ELF file at base"""
    import struct
    r = []
    shoff, = struct.unpack_from('<Q', b, base + 40)
    shn, shx = struct.unpack_from('<HH', b, base + 60)
    size = len(b) - base
    r.append(('shoff', base + 40, 8, [size - 10, size, size + 64, 1 << 40, (1 << 64) - 1, (1 << 63)]))
    r.append(('shnum', base + 60, 2, [shn + 40, 65279, 65535]))
    r.append(('shstrndx', base + 62, 2, [shn, shn + 1, 200, 65000]))
    r.append(('shentsize', base + 58, 2, [0, 40, 63, 65, 65535]))
    secs = [struct.unpack_from('<IIQQQQIIQQ', b, base + shoff + 64 * i) for i in range(shn)]
    for i, s in enumerate(secs):
        o = base + shoff + 64 * i
        tab = secs[shx]
        r.append(('sh_name', o, 4, [tab[5], tab[5] + 1, 70000, (1 << 32) - 1, (1 << 31)]))
        if s[1] not in (0, 8):
            r.append(('sh_offset', o + 24, 8, [size + 1, 1 << 40, (1 << 64) - 1, 1 << 63, size - s[5] + 1]))
            r.append(('sh_size', o + 32, 8, [size - s[4] + 1, size + 1, 1 << 40, (1 << 64) - 1, 1 << 63]))
        if s[1] in (2, 11):
            r.append(('sh_link', o + 40, 4, [shn, shn + 7, 65522, (1 << 32) - 1]))
            r.append(('symtab size', o + 32, 8, [s[5] - 1, s[5] - 8, s[5] - 23]))
            st = secs[s[6]]
            for k in range(1, s[5] // 24):
                q = base + s[4] + 24 * k
                r.append(('st_name', q, 4, [st[5], st[5] + 1, 70000, (1 << 32) - 1, 1 << 31]))
                r.append(('st_shndx', q + 6, 2, [shn, shn + 1, 60000, 65279]))
        if s[1] == 4:
            r.append(('rela sh_info', o + 44, 4, [shn, shn + 5, (1 << 32) - 1]))
            for k in range(s[5] // 24):
                q = base + s[4] + 24 * k
                r.append(('r_sym', q + 12, 4, [secs[s[6]][5] // 24, 9999, (1 << 32) - 1]))
                r.append(('r_offset', q, 8, [secs[s[7]][5], secs[s[7]][5] - 3, 1 << 31, 1 << 40, (1 << 64) - 1, (1 << 64) - 4]))
        if s[1] in (3,) and s[5]:
            r.append(('terminator', base + s[4] + s[5] - 1, 1, [65]))
    return r


def fields(r, id, fam='fields', **opts):
    """one field of one input says something that can't be: the specification decides what that means"""
    import run, struct
    w = mix(r, id, fam, maxobj=2, maxar=2, maxlib=2, maxref=5)
    c = [k for k, f in enumerate(w['files'])]
    k = r.choice(c)
    f = w['files'][k]
    b = bytearray(run.file_bytes(f, r.randrange(12)))
    if f['k'] == 'ar':
        pos, c = 8, []
        while pos + 60 <= len(b):
            size = int(b[pos + 48:pos + 58])
            if b[pos:pos + 2] not in (b'/ ', b'//'):
                c.append((pos + 60, size))
            pos += 60 + size + (size & 1)
        o, size = r.choice(c)
        fs = elf_fields(bytes(b[:o + size]), o)
    else:
        fs = elf_fields(bytes(b))
    kinds = sorted({x[0] for x in fs})
    kind = opts.get('kind') or r.choice(kinds)
    what, at, width, values = r.choice([x for x in fs if x[0] == kind] or fs)
    b[at:at + width] = (r.choice(values) & (1 << 8 * width) - 1).to_bytes(width, 'little')
    w['files'][k] = dict(b=f['b'], k='raw', raw=bytes(b).decode('latin1'))
    w['timeout'] = 5
    w['note'] = what
    # what a loader doesn't look at, or what can be read either way
    w['wild'] = f['k'] == 'so' or what == 'terminator'
    return w
