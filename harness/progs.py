"""Random C programs of several files, archives and shared libraries.  A program is a tree that
the specification (spec/CProgram.tla) gives a meaning to; here it is only written down as C."""
import os, re, shutil, subprocess, tempfile

MOD = 1009


# ---------------------------------------------------------------- how the compiler driver calls the linker
_driver = {}


def driver(cc, *opts):
    """the words of the linker's command line: (words before the inputs, words after them), without -o"""
    key = (cc,) + opts
    if key in _driver:
        return _driver[key]
    tmp = tempfile.mkdtemp(prefix='dlddrv')
    open(os.path.join(tmp, 'INPUT.o'), 'w').close()
    p = subprocess.run([cc, '-###', '-no-pie', *opts, 'INPUT.o', '-o', 'OUTPUT'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
    shutil.rmtree(tmp)
    line = [l for l in p.stdout.decode().splitlines() if 'crt1.o' in l][-1]
    words = [a or b for a, b in re.findall(r'"([^"]*)"|(\S+)', line)][1:]
    r, k = [], 0
    while k < len(words):
        w = words[k]
        if w == '-o':
            k += 2
            continue
        r.append(w)
        k += 1
    i = r.index('INPUT.o')
    _driver[key] = (r[:i], r[i + 1:])
    return _driver[key]


def system_files(words):
    """files and symbolic links that the linker may meet on its way"""
    dirs = [w[2:] for w in words if w.startswith('-L')]
    names = ['libgcc_s.so.1', 'libc.so.6', 'ld-linux-x86-64.so.2', 'libc_nonshared.a']
    for w in words:
        if w.startswith('-l'):
            so = 'lib%s.so' % w[2:]
            names.append(so if any(os.path.isfile(os.path.join(d, so)) for d in dirs) else 'lib%s.a' % w[2:])
    paths = [w for w in words if w.endswith('.o') and w.startswith('/')]
    paths += ['/lib64/ld-linux-x86-64.so.2', '/lib/x86_64-linux-gnu/libc.so.6']
    paths += [os.path.join(d, n) for d in dirs for n in names]
    files, links, seen = set(), {}, {'/'}
    for p in paths + [d + '/x' for d in dirs]:
        at = ''
        for c in p.split('/')[1:]:
            if c == '..':
                at = at[:at.rindex('/')] if at else ''
                continue
            if c in ('', '.'):
                continue
            at += '/' + c
            while os.path.islink(at):
                t = os.path.normpath(os.path.join(os.path.dirname(at), os.readlink(at)))
                if os.path.realpath(at) != os.path.realpath(t):
                    t = os.path.realpath(at)
                t = os.path.realpath(t)
                links[at] = t
                at = t
            seen.add(at if os.path.isdir(at) else os.path.dirname(at))
        if os.path.isfile(at):
            files.add(at)
    return sorted(files), [dict(b=b, t=t) for b, t in sorted(links.items())], sorted(seen - {'/'})


# ---------------------------------------------------------------- the tree as C
def expr(e, u):
    k = e[0]
    if k == 'k':
        return str(e[1])
    if k in 'ta':
        return k
    if k == 'v':
        return u.read(e[1], e[2])
    if k == '+':
        return '(%s + %s)' % (expr(e[1], u), expr(e[2], u))
    if k == '*':
        return '(%s * %s) %% %d' % (expr(e[1], u), expr(e[2], u), MOD)
    if k == 'pv':
        return '*%s' % e[1]
    if k == 'feq':
        return '(%s == %s)' % (e[1], e[2])
    if k == 'peq':
        return '(%s == %s)' % (e[1], u.addr(e[2], e[3]))
    if k == 'al':
        return '(int)((unsigned long)%s %% %d)' % (u.addr(e[1], 0), e[2])
    if k == 'def':
        return '(%s != 0)' % (u.addr(e[1], 0) if e[1] in u.sizes else e[1])
    raise ValueError(k)


def stmts(body, u, ind):
    out = []
    p = '  ' * ind
    m = lambda e: '(%s) %% %d' % (expr(e, u), MOD)
    for s in body:
        k = s[0]
        if k == 'let':
            out.append(p + 't = %s;' % m(s[1]))
        elif k == 'call':
            out.append(p + 't = (t + %s(%s)) %% %d;' % (s[1], m(s[2]), MOD))
        elif k == 'callw':
            out.append(p + 'if (%s) t = (t + %s(%s)) %% %d; else t = (t + 7) %% %d;' % (s[1], s[1], m(s[2]), MOD, MOD))
        elif k == 'callt':
            out.append(p + 't = (t + %s[(%s) %% %d](%s)) %% %d;' % (s[1], expr(s[2], u), s[3], m(s[4]), MOD))
        elif k == 'set':
            out.append(p + '%s = %s;' % (u.read(s[1], s[2]), m(s[3])))
        elif k == 'setp':
            out.append(p + '*%s = %s;' % (s[1], m(s[2])))
        elif k == 'fset':
            out.append(p + '%s = %s;' % (s[1], s[2]))
        elif k == 'pset':
            out.append(p + '%s = %s;' % (s[1], u.addr(s[2], s[3])))
        elif k == 'print':
            out.append(p + 'printf("%%d\\n", %s);' % m(s[1]))
        elif k == 'fprint':
            out.append(p + 'fprintf(stdout, "%%d\\n", %s);' % m(s[1]))
        elif k == 'puts':
            out.append(p + 'puts(%s);' % s[1])
        elif k == 'lit':
            out.append(p + 'puts("%s");' % s[1])
        elif k == 'len':
            out.append(p + 't = (t + (int)strlen(%s)) %% %d;' % (s[1], MOD))
        elif k == 'atexit':
            out.append(p + 'atexit(%s);' % s[1])
        elif k == 'exit':
            out.append(p + 'exit((%s) %% 100);' % expr(s[1], u))
        elif k == 'if':
            out += [p + 'if ((%s) %% 2) {' % expr(s[1], u)] + stmts(s[2], u, ind + 1) + [p + '} else {'] + stmts(s[3], u, ind + 1) + [p + '}']
        elif k == 'sw':
            out.append(p + 'switch ((%s) %% %d) {' % (expr(s[1], u), len(s[2])))
            for n, b in enumerate(s[2]):
                out += [p + '  case %d:' % n] + stmts(b, u, ind + 2) + [p + '    break;']
            out.append(p + '}')
        else:
            raise ValueError(k)
    return out


def used(body, acc):
    for s in body:
        for x in s[1:]:
            if isinstance(x, str):
                acc.add(x)
            elif isinstance(x, list) and x and isinstance(x[0], str):
                used([x], acc)
            elif isinstance(x, list):
                for y in x:
                    if y and isinstance(y[0], str):
                        used([y], acc)
                    else:
                        used(y, acc)
    return acc


class Unit:
    def __init__(self, u, kinds, rnd):
        self.u, self.kinds, self.rnd = u, kinds, rnd
        self.sizes = dict(kinds['sizes'])
        for v in u['vars']:
            if v['k'] == 'int':
                self.sizes[v['n']] = len(v['init'])
            elif v['n'] in self.sizes and v['k'] != 'alias':
                del self.sizes[v['n']]

    def read(self, n, i):
        return n if self.sizes[n] == 1 else '%s[%d]' % (n, i)

    def addr(self, n, i):
        return '&' + self.read(n, i)

    def c(self):
        u, K = self.u, self.kinds
        names = set()
        for f in u['fns']:
            used(f['body'], names)
        for v in u['vars']:
            names |= {v['to']} if v['to'] else set()
            names |= set(v['fs'])
        own = {x['n'] for x in u['vars'] + u['fns']}
        vis = lambda n, sc='g': '' if sc == 's' or n not in u['vis'] else '__attribute__((visibility("%s"))) ' % u['vis'][n]
        o = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>']
        for f in u['fns']:
            if f['k'] == 'fn':
                o.append('%s%sint %s(int a);' % ('static ' if f['sc'] == 's' else '', vis(f['n'], f['sc']), f['n']))
            elif f['k'] == 'void':
                o.append('static void %s(void);' % f['n'])
        weak = set(u['weakrefs'])
        for n in sorted(names - own):
            w = ('extern __attribute__((weak)) ' if n in weak else 'extern ') + vis(n)
            if n in K['fns']:
                o.append('%sint %s(int a);' % (w, n))
            elif n in K['sizes']:
                t = '__thread ' if n in K['tls'] else ''
                o.append('%s%sint %s%s;' % (w, t, n, '' if K['sizes'][n] == 1 else '[%d]' % K['sizes'][n]))
            elif n in K['ptrs']:
                o.append('%sint *%s;' % (w, n))
            elif n in K['fptrs']:
                o.append('%sint (*%s)(int);' % (w, n))
            elif n in K['tabs']:
                o.append('%sint (*const %s[])(int);' % (w, n))
            elif n in K['strs']:
                o.append('%sconst char %s[];' % (w, n))
        for v in u['vars']:
            st = {'s': 'static ', 'w': '__attribute__((weak)) ', 'g': ''}[v['sc']] + vis(v['n'], v['sc'])
            if v['k'] == 'int':
                al = '__attribute__((aligned(%d))) ' % v['al'] if v['al'] else ''
                t = '__thread ' if v['tls'] else ''
                dim = '' if len(v['init']) == 1 else '[%d]' % len(v['init'])
                init = '' if not any(v['init']) else ' = ' + (str(v['init'][0]) if not dim else '{%s}' % ', '.join(map(str, v['init'])))
                o.append('%s%s%sint %s%s%s;' % (st, al, t, v['n'], dim, init))
            elif v['k'] == 'ptr':
                o.append('%sint *%s = %s;' % (st, v['n'], self.addr(v['to'], v['ix'])))
            elif v['k'] == 'fptr':
                o.append('%sint (*%s)(int) = %s;' % (st, v['n'], v['to']))
            elif v['k'] == 'tab':
                o.append('%sint (*const %s[])(int) = {%s};' % (st, v['n'], ', '.join(v['fs'])))
            elif v['k'] == 'str':
                o.append('%sconst char %s[] = "%s";' % (st, v['n'], v['str']))
            elif v['k'] == 'alias':
                n = self.sizes[v['to']]
                o.append('extern int %s%s __attribute__((alias("%s")));' % (v['n'], '' if n == 1 else '[%d]' % n, v['to']))
        for f in u['fns']:
            w = {'s': 'static ', 'w': '__attribute__((weak)) ', 'g': ''}[f['sc']]
            if f['k'] == 'fn':
                o.append('%sint %s(int a) {' % (w, f['n']))
            elif f['k'] == 'main':
                o.append('int main(void) {\n  int a = 1;')
            elif f['k'] == 'void':
                o.append('static void %s(void) {\n  int a = 2;' % f['n'])
            else:
                o.append('static __attribute__((%s)) void %s(void) {\n  int a = 2;' % (f['k'], f['n']))
            o.append('  int t = a;')
            o += stmts(f['body'], self, 1)
            o.append({'fn': '  return t;', 'main': '  return t % 100;'}.get(f['k'], '  (void)t;'))
            o.append('}')
        return '\n'.join(o) + '\n'


# ---------------------------------------------------------------- random trees
def program(r, id, fam='prog', callbacks=True):
    nprog, nlib = r.choice([1, 2, 2, 3, 4]), r.choice([0, 1, 1, 2, 3])
    nar = r.choice([0, 1, 2])
    units = []

    def unit(kind, f, m=0):
        u = dict(i=len(units), kind=kind, f=f, m=m, lib=kind == 'lib', vars=[], fns=[], weakrefs=[])
        units.append(u)
        return u
    for k in range(nprog):
        unit('obj', '/S/m%d.o' % k)
    ars = []
    for k in range(nar):
        n = r.choice([1, 2, 3, 5])
        ars.append([unit('mem', '/S/libar%d.a' % k, j + 1) for j in range(n)])
    for k in range(nlib):
        unit('lib', '/S/libso%d.so' % k)
    libs = [u for u in units if u['lib']]
    progs = [u for u in units if not u['lib']]

    K = dict(fns={}, sizes={}, tls=set(), ptrs={}, fptrs={}, tabs={}, strs={})

    def var(u, n, k, sc='g', **x):
        v = dict(n=n, k=k, sc=sc, init=[], to='', ix=0, fs=[], str='', al=0, tls=False)
        v.update(x)
        u['vars'].append(v)
        return v

    def ints():
        n = r.choice([1, 1, 1, 2, 5, 17, 300])
        return [0] * n if r.random() < .4 else [r.randrange(1, 900)] + [r.choice([0, r.randrange(900)]) for _ in range(n - 1)]

    # which global variables there are and who defines them
    nv = r.choice([2, 4, 8])
    for k in range(nv):
        n = 'v%d' % k
        u = r.choice(units)
        tls = r.random() < .15
        init = ints()
        K['sizes'][n] = len(init)
        if tls:
            K['tls'].add(n)
        v = var(u, n, 'int', init=init, tls=tls, al=r.choice([0, 0, 0, 8, 16, 64, 32]))
        c = r.random()
        if not u['lib'] and c < .25:
            # weak definitions next to it
            for o in r.sample(progs, min(len(progs), r.choice([1, 2]))):
                if o is not u and all(x['n'] != n for x in o['vars']):
                    var(o, n, 'int', sc='w', init=[r.randrange(900) for _ in init], tls=tls)
            if r.random() < .4:
                v['sc'] = 'w'
        elif u['lib'] and not tls and c < .3:
            v['al'] = 0
            var(u, 'al%d' % k, 'alias', to=n)
            K['sizes']['al%d' % k] = len(init)
        elif c < .45 and callbacks and libs:
            o = r.choice(libs)
            if o is not u and all(x['n'] != n for x in o['vars']):
                v['al'] = 0
                var(o, n, 'int', init=[r.randrange(900) for _ in init], tls=tls)
    # compilers take it that different names mean different things
    other_name = [set() for _ in units]
    for n in sorted(K['sizes']):
        for u in units:
            if n.startswith('al') and all(v['n'] != n for v in u['vars']):
                other_name[u['i']].add(r.choice([n, 'v' + n[2:]]))
    # functions: a function only calls those that come later
    nf = r.choice([4, 8, 14])
    where = {}
    for k in range(nf):
        n = 'f%d' % k
        u = r.choice(units)
        where[n] = [(u, 'g')]
        K['fns'][n] = k
        if r.random() < .15 and not u['lib']:
            where[n] = [(u, r.choice('gw'))]
            for o in r.sample(progs, min(len(progs), 2)):
                if o is not u:
                    where[n].append((o, 'w'))
        elif r.random() < .15 and libs and callbacks:
            o = r.choice(libs)
            if o is not u:
                where[n].append((o, 'g'))
    # functions that nobody defines, only weakly referenced
    K['fns']['nof'] = 10000
    K['sizes']['nov'] = 1
    # tables, pointers, strings
    leafs = ['f%d' % k for k in range(nf - max(1, nf // 3), nf)]
    for k in range(r.choice([0, 1, 2])):
        u = r.choice(units)
        n = 'p%d' % k
        K['ptrs'][n] = 0
        cand = [x for x in K['sizes'] if x not in K['tls'] and x != 'nov' and x not in other_name[u['i']] and (not u['lib'] or callbacks and any(o['kind'] != 'mem' and any(y['n'] == x for y in o['vars']) for o in units) or any(y['n'] == x for y in u['vars']))]
        if not cand:
            del K['ptrs'][n]
            continue
        t = r.choice(cand)
        var(u, n, 'ptr', to=t, ix=r.randrange(K['sizes'][t]))
    ok = lambda u, n: not u['lib'] or callbacks and any(o['kind'] != 'mem' for o, _ in where[n]) or any(o is u for o, _ in where[n])
    for k in range(r.choice([0, 1, 2])):
        u = r.choice(units)
        c = [x for x in leafs if ok(u, x)]
        if c:
            K['fptrs']['q%d' % k] = 0
            var(u, 'q%d' % k, 'fptr', to=r.choice(c))
    for k in range(r.choice([0, 1])):
        u = r.choice(units)
        c = [x for x in leafs if ok(u, x)]
        if c:
            fs = [r.choice(c) for _ in range(r.choice([2, 3, 7]))]
            K['tabs']['tab%d' % k] = len(fs)
            var(u, 'tab%d' % k, 'tab', fs=fs)
    for k in range(r.choice([0, 1, 2])):
        K['strs']['str%d' % k] = 0
        var(r.choice(units), 'str%d' % k, 'str', str=''.join(r.choice('abcxyz') for _ in range(r.choice([1, 3, 9, 40]))))

    defined = {}
    for u in units:
        for v in u['vars']:
            defined.setdefault(v['n'], []).append(u)
    for n, ws in where.items():
        defined[n] = [u for u, _ in ws]

    def reached(n):
        """whether a library finds the name: what only members of archives define might not be linked"""
        return callbacks and any(d['kind'] != 'mem' for d in defined.get(n, []))

    def visible(u, n):
        """whether code in u may use the name n"""
        if n not in defined or n in other_name[u['i']]:
            return False
        if n in mine(u, n):
            return True
        return not u['lib'] or reached(n)

    def mine(u, n):
        return {n} if any(d is u for d in defined.get(n, [])) else set()

    statics = {}

    def pick(u, names):
        c = [n for n in names if visible(u, n)]
        return r.choice(c) if c else None

    def anyvar(u):
        c = [n for n in K['sizes'] if n != 'nov' and visible(u, n)] + [s for s in statics.get(u['i'], [])] * 3
        if not c:
            return None
        n = r.choice(c)
        size = next((len(v['init']) for v in u['vars'] if v['n'] == n and v['k'] == 'int'), K['sizes'].get(n))
        return n, r.choice([0, size - 1, r.randrange(size)])

    def tlsname(u, n):
        v = next((v for v in u['vars'] if v['n'] == n), None)
        return v['tls'] if v else n in K['tls']

    def ex(u, d=0):
        c = r.random()
        if c < .25 or d > 2:
            return r.choice([['k', r.randrange(900)], ['t'], ['a'], ['t']])
        if c < .55:
            v = anyvar(u)
            return ['v', v[0], v[1]] if v else ['t']
        if c < .75:
            return [r.choice('++*'), ex(u, d + 2 if c < .7 else 3), ['t']] if r.random() < .5 else ['+', ex(u, d + 1), ex(u, d + 1)]
        if c < .82:
            p = pick(u, K['ptrs'])
            return ['pv', p] if p else ['a']
        if c < .88:
            q, f = pick(u, K['fptrs']), pick(u, leafs)
            return ['feq', q, f] if q and f else ['t']
        if c < .94:
            p, v = pick(u, K['ptrs']), anyvar(u)
            return ['peq', p, v[0], v[1]] if p and v and not tlsname(u, v[0]) else ['t']
        v = anyvar(u)
        if c < .97 and v:
            x = next((x for x in u['vars'] if x['n'] == v[0]), None)
            als = [y['al'] for d in defined.get(v[0], []) for y in d['vars'] if y['n'] == v[0]]
            al = x['al'] if x and x['sc'] == 's' else als[0] if len(als) == 1 else 0
            return ['al', v[0], al] if al and not tlsname(u, v[0]) else ['t']
        return ['def', r.choice(weaks(u))]

    def weaks(u):
        for n in ('nof', 'nov'):
            if n not in u['weakrefs']:
                u['weakrefs'].append(n)
        return ['nof', 'nov']

    def st(u, level, d=0):
        c = r.random()
        if c < .2:
            # a later function
            f = pick(u, [n for n in where if K['fns'][n] > level])
            own = [f['n'] for f in u['fns'] if f['sc'] == 's' and f['k'] == 'fn' and f.get('level', -1) > level]
            if own and r.random() < .4:
                f = r.choice(own)
            return ['call', f, ex(u)] if f else ['let', ex(u)]
        if c < .25:
            return ['callw', 'nof', ex(u)] if weaks(u) else None
        if c < .31 and level < K['fns'][leafs[0]]:
            q = pick(u, K['fptrs'])
            return ['call', q, ex(u)] if q else ['print', ex(u)]
        if c < .37 and level < K['fns'][leafs[0]]:
            q = pick(u, K['tabs'])
            return ['callt', q, ex(u), K['tabs'][q], ex(u)] if q else ['fprint', ex(u)]
        if c < .57:
            v = anyvar(u)
            return ['set', v[0], v[1], ex(u)] if v else ['print', ex(u)]
        if c < .62:
            p = pick(u, K['ptrs'])
            return ['setp', p, ex(u)] if p else ['let', ex(u)]
        if c < .66:
            q, f = pick(u, K['fptrs']), pick(u, leafs)
            return ['fset', q, f] if q and f else ['let', ex(u)]
        if c < .70:
            p, v = pick(u, K['ptrs']), anyvar(u)
            return ['pset', p, v[0], v[1]] if p and v and not tlsname(u, v[0]) else ['let', ex(u)]
        if c < .80:
            return [r.choice(['print', 'print', 'fprint']), ex(u)]
        if c < .84:
            s = pick(u, K['strs'])
            return [r.choice(['puts', 'len']), s] if s else ['lit', r.choice(['one', 'two', 'three', 'o', 'wo'])]
        if c < .86:
            return ['lit', r.choice(['one', 'two', 'three', 'hree', 'ee'])]
        if c < .92 and d < 2:
            return ['if', ex(u), [st(u, level, d + 1)], [st(u, level, d + 1)]]
        if c < .96 and d < 1:
            return ['sw', ex(u), [[st(u, level, d + 1)] for _ in range(r.choice([3, 5, 8]))]]
        return ['let', ex(u)]

    # static variables and functions: few names, which other files use as well
    for u in units:
        if r.random() < .6:
            for n in r.sample(['s0', 's1', 'loc'], r.choice([1, 2])):
                var(u, n, 'int', sc='s', init=ints(), tls=r.random() < .1, al=r.choice([0, 0, 16]))
                statics.setdefault(u['i'], []).append(n)
        if r.random() < .25:
            # a static that is named like someone else's global
            n = r.choice([x for x in K['sizes'] if x != 'nov'])
            if all(v['n'] != n and v['to'] != n for v in u['vars']) and u not in defined.get(n, []):
                var(u, n, 'int', sc='s', init=ints())
                statics.setdefault(u['i'], []).append(n)
    for u in units:
        own = {v['n']: v for v in u['vars'] if v['sc'] == 's'}
        u['shadow'] = set(own)
    size = lambda: r.choice([1, 2, 3, 5])
    for u in units:
        if r.random() < .5:
            level = r.randrange(nf)
            u['fns'].append(dict(n=r.choice(['h0', 'h1', 'loc_f']), sc='s', k='fn', body=[st(u, max(level, 1)) for _ in range(2)], level=level))
    for n in sorted(where, key=lambda n: -K['fns'][n]):
        for u, sc in where[n]:
            u['fns'].append(dict(n=n, sc=sc, k='fn', body=[st(u, K['fns'][n]) for _ in range(size())]))
    m = units[0]
    body = [st(m, -1) for _ in range(r.choice([3, 6, 12]))]
    if r.random() < .3:
        m['fns'].append(dict(n='bye', sc='s', k='void', body=[['print', ex(m)], ['lit', 'bye']]))
        body.insert(r.randrange(len(body)), ['atexit', 'bye'])
    if r.random() < .2:
        body.append(['exit', ex(m)])
    # everything that is global is shown in the end
    for n in sorted(K['sizes']):
        if n != 'nov' and visible(m, n) and r.random() < .7:
            sz = next((len(v['init']) for v in m['vars'] if v['n'] == n and v['k'] == 'int'), K['sizes'][n])
            body.insert(len(body) - (body[-1][0] == 'exit'), ['print', ['v', n, sz - 1]])
    m['fns'].append(dict(n='main', sc='g', k='main', body=body))
    for u in units:
        if r.random() < .35:
            if u['lib']:
                mine_ = [v for v in statics.get(u['i'], []) if not tlsname(u, v)]
                if mine_:
                    u['fns'].append(dict(n='init_me', sc='s', k='constructor', body=[['set', mine_[0], 0, ['k', r.randrange(900)]]]))
            else:
                u['fns'].append(dict(n='init_me', sc='s', k='constructor', body=[['lit', 'init'], st(u, 0), ['print', ['t']]]))
        if r.random() < .25 and not u['lib']:
            u['fns'].append(dict(n='fini_me', sc='s', k='destructor', body=[['lit', 'fini'], st(u, 0), ['print', ['t']]]))

    # ------------------------------------------------------------ visibility: it changes nothing that the program does
    names = set(K['sizes']) - K['tls'] | set(where) | set(K['ptrs']) | set(K['fptrs']) | set(K['tabs']) | set(K['strs'])
    for u in units:
        u['vis'] = {}
        if u['lib'] or r.random() < .5:
            for n in sorted(names):
                ds = defined.get(n, [])
                if u['lib']:
                    # a function of the library whose address nobody takes
                    if n in where and n not in leafs and ds == [u] and r.random() < .2:
                        u['vis'][n] = 'protected'
                elif not any(d['lib'] for d in ds) and r.random() < .3:
                    u['vis'][n] = 'hidden' if not ds else 'protected' if reached(n) else r.choice(['hidden', 'hidden', 'protected'])

    # ------------------------------------------------------------ how it is compiled and linked
    src, arcs, sos = [], [], []
    for k, u in enumerate(units):
        cc = r.choice(['clang', 'gcc'])
        fl = [r.choice(['-O0', '-O1', '-O2', '-Os']), '-w']
        if u['lib']:
            fl += ['-fPIC', '-fsemantic-interposition']
        else:
            fl.append(r.choice(['-fno-pic', '-fno-pic', '-fpie', '-fPIC']))
            if r.random() < .7:
                fl.append('-ftls-model=initial-exec')
            if not callbacks and r.random() < .1:
                fl.append('-fvisibility=hidden')
        for f, p in (('-g', .15), ('-ffunction-sections', .2), ('-fdata-sections', .2), ('-fno-plt', .15), ('-fno-asynchronous-unwind-tables', .3),
                     ('-fno-jump-tables', .1), ('-fstack-protector-all', .1), ('-fno-builtin', .3), ('-fno-inline', .3)):
            if r.random() < p:
                fl.append(f)
        if cc == 'clang' and not u['lib'] and r.random() < .04:
            fl.append('-mcmodel=medium')
        fl += [] if cc == 'gcc' else [] if r.random() < .5 else ['-fno-direct-access-external-data'] if '-fno-pic' not in fl and r.random() < .3 else []
        src.append(dict(out='u%d.o' % k, cc=[cc] + fl, code=Unit(u, K, r).c()))
        u['obj'] = 'u%d.o' % k
    files = []
    for u in units:
        if u['kind'] == 'obj':
            files.append(dict(b=u['f'], built=u['obj']))
    for k, us in enumerate(ars):
        arcs.append(dict(out='libar%d.a' % k, mem=[u['obj'] for u in us]))
        files.append(dict(b='/S/libar%d.a' % k, built='libar%d.a' % k))
    for k, u in enumerate(libs):
        sos.append(dict(out='libso%d.so' % k, obj=u['obj'], soname=r.choice(['', 'libso%d.so' % k])))
        files.append(dict(b='/S/libso%d.so' % k, built='libso%d.so' % k))
    objs = [u['f'][3:] for u in units if u['kind'] == 'obj']
    rest = [r.choice(['libar%d.a', '-lar%d']) % k for k in range(nar)] + [r.choice(['libso%d.so', '-lso%d']) % k for k in range(nlib)]
    args = objs + rest
    r.shuffle(args)
    pre, post = driver('clang')
    argv = ['-o', 'out'] + pre + ['-L.'] + args + post
    if r.random() < .3:
        argv += [r.choice(['--hash-style=sysv', '--hash-style=both', '--hash-style=gnu'])]
    real, links, dirs = system_files(pre + post)
    files += [dict(b=p, real=p, big=True) for p in real]
    for u in units:
        for f in u['fns']:
            f.pop('level', None)
    prog = dict(u=[dict(f=u['f'], m=u['m'], lib=u['lib'], vars=[dict(n=v['n'], k=v['k'], sc=v['sc'], init=v['init'], to=v['to'], ix=v['ix'], fs=v['fs'], str=v['str'])
                                                                for v in u['vars']],
                        fns=[dict(n=f['n'], k=f['k'], sc=f['sc'], body=f['body']) for f in u['fns']]) for u in units])
    return dict(id=id, fam=fam, argv=argv, files=files, links=links, mkdirs=dirs, prog=prog, exec=True, repeat=1, timeout=30, vary=False,
                build=dict(src=src, ar=arcs, so=sos))
