"""Realises worlds (files and a command line) in a scratch directory, runs the real
linker in them as an unprivileged user and records what it did.  Nothing is judged here."""
import hashlib, json, multiprocessing, os, random, re, resource, shutil, signal, stat, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import elfr, elfw

NOBODY = 65534


# ---------------------------------------------------------------- inputs from the specification's vocabulary
def word(v):
    return v[0] | v[1] << 16 | v[2] << 32 | v[3] << 48


def s64(v):
    v = word(v)
    return v - 2**64 if v >> 63 else v


def obj_bytes(o, variant=0):
    e = elfw.Obj(machine=o['mach'], klass=o['cls'], etype=o['et'])
    secs = [None]
    for s in o['secs'][1:]:
        data = None if s['t'] == 8 else bytes.fromhex(s['h'])
        if data is not None and len(data) < s['s']:
            data += bytes(s['s'] - len(data))
        if s.get('at'):                                # what isn't zero in a large section
            data = bytearray(data)
            for at, h in s['at']:
                data[at:at + len(h) // 2] = bytes.fromhex(h)
            data = bytes(data[:s['s']])
        secs.append(e.sec(s['n'], s['f'], s['a'], data, s['s'], s['t'], s['e']))
    syms = [None]
    for y in o['syms'][1:]:
        place = secs[y['x']] if 0 < y['x'] < len(secs) else y['x']
        syms.append(e.sym(y['n'], y['b'], y['t'], place, word(y['v']), y['z'], y['o']))
    for r in o['rels']:
        y = syms[r['y']] if r['y'] < len(syms) else type('Y', (), {'index': r['y']})
        e.rel(secs[r['s']], r['o'], r['t'], y, s64(r['d']))
    e.rela_at = ('adjacent', 'end', 'front')[variant % 3]
    e.tables_first = variant % 4 == 3
    return e.bytes()


def so_bytes(s):
    e = elfw.So(soname=s['soname'] or None, machine=s['mach'])
    for d in s['defs']:
        e.sym(d['n'], d['b'], d['t'], True, d['z'], int(d['at'], 16) if d['at'] else None, d['o'])
    for n in s['undefs']:
        e.sym(n, 1, 0, False, 0)
    b = bytearray(e.bytes())
    b[4], b[5], b[16:18] = s['cls'], s['data'], s['et'].to_bytes(2, 'little')
    return bytes(b)


def ar_file(a, variant=0):
    ms = []
    for k, m in enumerate(a['mem']):
        b = obj_bytes(m['o'], variant + k)
        ms.append((m['n'], b, [y['n'] for y in m['o']['syms'][1:] if y['b'] != 0 and y['x'] != 0]))
    return elfw.ar_bytes(ms)


def file_bytes(f, variant=0):
    if 'raw' in f:
        return f['raw'].encode('latin1')
    if f['k'] == 'so' or 's' in f:
        return so_bytes(f['s'])
    if f['k'] == 'obj':
        return obj_bytes(f['o'], variant)
    if f['k'] == 'ar':
        return ar_file(f['a'], variant)
    return f['x'].encode('latin1')


# ---------------------------------------------------------------- projection of the inputs
def kind(b):
    if b[:8] == b'!<arch>\n':
        return 'ar'
    if len(b) >= 18:
        if b[:4] == b'\x7fELF':
            return 'so' if b[16:18] == b'\3\0' else 'obj'
    try:
        b.decode('utf-8')
        return 'text'
    except UnicodeDecodeError:
        return 'bin'


def obj_names(o):
    return {y['n'] for y in o['syms'] if y['b'] != 0}


EMPTY = dict(cls=2, data=1, et=1, mach=62, secs=[], syms=[], rels=[], ok=True)
_cache = {}


def project_files(files):
    """files: [(canonical path, bytes, big)]"""
    out, names = [], set()
    for path, b, big in files:
        k = kind(b)
        f = dict(k=k, b=path)
        if k == 'obj':
            f['o'] = elfr.project_obj(b)
            names |= obj_names(f['o'])
        elif k == 'ar':
            key = hashlib.sha1(b).digest() if big else None
            if key and key in _cache:
                f['a'] = _cache[key]
            else:
                f['a'] = elfr.project_ar(b)
                if key:
                    _cache[key] = f['a']
        elif k == 'text':
            f['x'] = b.decode('utf-8').encode('ascii', 'replace').decode() if all(c < 128 for c in b) else \
                ''.join(c if ord(c) < 128 else '\x7f' for c in b.decode('utf-8'))
        out.append(f)
    # names that may play a role
    more = True
    while more:
        more = False
        for f, (_, _, big) in zip(out, files):
            if f['k'] == 'ar':
                for m in f['a']['mem']:
                    if not big or any(y['n'] in names for y in m['o']['syms'] if y['b'] != 0 and y['x'] != 0):
                        n = obj_names(m['o'])
                        if not n <= names:
                            names |= n
                            more = True
    for f, (_, b, big) in zip(out, files):
        if f['k'] == 'ar' and big:
            f['a'] = dict(f['a'], idx=[n for n in f['a']['idx'] if n in names],
                          mem=[dict(n=m['n'], o=m['o'] if any(y['n'] in names for y in m['o']['syms']
                                                              if y['b'] != 0 and y['x'] != 0) else EMPTY)
                               for m in f['a']['mem']])
        if f['k'] == 'so':
            f['s'] = elfr.project_so(b, names if big else None)
    return out


# ---------------------------------------------------------------- running
class Runner:
    def __init__(self, dld, root):
        self.dld, self.root, self.S = dld, root, os.path.join(root, 'S')

    def real(self, text):
        if isinstance(text, str):
            return re.sub(r'(?<!\.)/S/', self.S + '/', text)
        return re.sub(rb'(?<!\.)/S/', self.S.encode() + b'/', text)

    def shown(self, text):
        return text.replace(self.S, '/S')

    def path(self, p):
        return self.S + p[2:] if p == '/S' or p.startswith('/S/') else p

    def snapshot(self):
        r = {}
        for d, ds, fs in os.walk(self.S):
            for n in fs:
                p = os.path.join(d, n)
                st = os.lstat(p)
                if stat.S_ISLNK(st.st_mode):
                    r[self.shown(p)] = ('link', os.readlink(p).encode())
                elif stat.S_ISREG(st.st_mode) and os.access(p, os.R_OK):
                    with open(p, 'rb') as fd:
                        r[self.shown(p)] = (st.st_mode, hashlib.sha1(fd.read()).digest())
                else:
                    r[self.shown(p)] = (st.st_mode, b'%d' % st.st_size)
            for n in ds:
                p = os.path.join(d, n)
                r[self.shown(p)] = ('dir', os.readlink(p).encode() if os.path.islink(p) else b'')
        return r

    def lay_out(self, w, data):
        if os.path.isdir(self.S):
            for d, ds, _ in os.walk(self.S):
                os.chmod(d, 0o755)
            shutil.rmtree(self.S)
        os.makedirs(self.S)
        for d in w.get('mkdirs', []):
            if d.startswith('/S'):
                os.makedirs(self.path(d), exist_ok=True)
        for path, b, mode in data:
            p = self.path(path)
            if not path.startswith('/S/'):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fd:
                fd.write(b)
            if mode is not None:
                os.chmod(p, mode)
        for l in w.get('links', []):
            if not l['b'].startswith('/S/'):
                continue
            p = self.path(l['b'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(self.path(l['t']), p)
        for d in w.get('rodirs', []):
            os.chmod(self.path(d), 0o555)

    def once(self, w, cwd, env=None):
        def pre():
            if w.get('fault') == 'fsize':
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (w.get('fsize', 100), w.get('fsize', 100)))
        e = {'PATH': '/usr/bin:/bin', 'RUST_BACKTRACE': '0'}
        e.update(env or {})
        fault = w.get('fault')
        fo, fe = (tempfile.TemporaryFile(dir=self.root), tempfile.TemporaryFile(dir=self.root)) \
            if not fault else (subprocess.PIPE, subprocess.PIPE)
        if w.get('stdout') == 'full':
            fo = open('/dev/full', 'wb')
        p = subprocess.Popen([self.dld] + [self.real(a) for a in w['argv']], cwd=self.path(cwd), env=e,
                             stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, start_new_session=True,
                             preexec_fn=pre if fault == 'fsize' else None)
        tmo = False
        try:
            if fault:
                o, er = p.communicate(timeout=w.get('timeout', 10))
            else:
                p.wait(timeout=w.get('timeout', 10))
        except subprocess.TimeoutExpired:
            tmo = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            o = er = b''
        if not fault:
            o = b''
            if w.get('stdout') != 'full':
                fo.seek(0)
                o = fo.read(1 << 20)
            fe.seek(0)
            er = fe.read(1 << 20)
            fo.close()
            fe.close()
        return p.returncode, tmo, o.decode('utf-8', 'replace'), er.decode('utf-8', 'replace')

    TOKEN = re.compile(r'[\w.$@/+\-]+')

    def run(self, w):
        """w: id, fam, argv, files [{b, k, o|s|a|x|raw, mode, big}], and options; returns a record for the specification."""
        rnd = random.Random(w['id'])
        variant = rnd.randrange(12) if w.get('vary', True) else 1
        data = []
        built = self.build(w['build']) if 'build' in w else {}
        for f in w['files']:
            if 'built' in f:
                b = built[f['built']]
            elif 'real' in f:
                b = open(f['real'], 'rb').read()
            else:
                b = file_bytes(f, variant)
                if kind(b) in ('text', 'bin'):
                    b = self.real(b)
            data.append((f['b'], b, f.get('mode')))
        shown = [(p, b.replace(self.S.encode() + b'/', b'/S/') if kind(b) == 'text' else b, f.get('big', False))
                 for (p, b, _), f in zip(data, w['files'])]
        files = project_files(shown) if not w.get('wild') else [dict(k='bin', b=x[0]) for x in shown]
        for f, (_, _, mode) in zip(files, data):
            if mode is not None and not mode & 0o400:
                f['hidden'] = True
            if mode is not None and not mode & 0o200:
                f['locked'] = True
        dirs = {'', w.get('cwd', '/S')}
        for p in [x[0] for x in data] + [d + '/x' for d in w.get('mkdirs', [])] + ['/S/x']:
            while '/' in p[1:]:
                p = p[:p.rindex('/')]
                dirs.add(p)
        self.lay_out(w, data)
        before = self.snapshot()
        cwd = w.get('cwd', '/S')
        code, tmo, o, er = self.once(w, cwd)
        after = self.snapshot()
        changed = lambda a: sorted(p for p in a if before.get(p) != a[p])
        made, gone = changed(after), sorted(p for p in before if p not in after)
        obs = dict(code=0 if code == 0 else 1, tmo=tmo, sig=-code if code < 0 and not tmo else 0,
                   err=sorted(set(t.rstrip('.') for t in self.TOKEN.findall(self.shown(er)))),
                   msg=re.sub(r'\\(["\'\\])', r'\1', self.shown(er))[:800],
                   out=sorted(set(self.TOKEN.findall(self.shown(o)))) if '-h' in w['argv'] or '--help' in w['argv'] else [],
                   made=made, gone=gone, x=False, same=True, size=sum(os.path.getsize(self.path(p)) for p in made if os.path.isfile(self.path(p))),
                   img=dict(ok=False, why='no file'), run=[])
        prog = None
        if len(made) == 1 and made[0].startswith('/S/') and os.path.isfile(self.path(made[0])):
            with open(self.path(made[0]), 'rb') as fd:
                prog = fd.read()
            obs['x'] = bool(os.stat(self.path(made[0])).st_mode & 0o100)
            if code == 0 and not w.get('noimg'):
                obs['img'] = elfr.project_out(prog)
        if w.get('exec') and prog and obs['x']:
            obs['run'] = self.execute(w, self.path(made[0]))
        # the same once more
        for k in range(0 if tmo else w.get('repeat', 1)):
            if made or gone:
                self.lay_out(w, data)
            c2 = cwd
            if w.get('absolute'):
                c2 = ['/S', w.get('cwd2', '/S')][k % 2]
            if w.get('pause'):
                time.sleep(w['pause'])
            again = self.once(w, c2, {'DLD_RUN': 'x' * k})
            now = self.snapshot()
            if code and self.shown(again[3]) != self.shown(er):
                obs['same'] = False
            if (again[0], changed(now), sorted(p for p in before if p not in now)) != (code, made, gone) or \
                    any(now[p] != after[p] for p in made):
                obs['same'] = False
        for f in files:
            f['b'] = self.shown(f['b'])
        probes = w.get('probes')
        if probes is None:
            base = sorted({y for f in files for y in self.names_of(f)})
            probes = [base[0] + 'x'] if base else ['zz']
            for n in base[:6]:
                probes += [n[:-1] or 'q', n[::-1], n + n]
            probes += ['', 'main', 'no_such_%d' % rnd.randrange(1000)]
        return dict(id=w['id'], fam=w['fam'], wild=w.get('wild', False), argv=[a.encode('utf-8', 'replace').decode() for a in w['argv']], cwd=cwd, dirs=sorted(dirs),
                    rodirs=w.get('rodirs', []), links=w.get('links', []), files=files, fault=w.get('fault', ''),
                    probes=[elfr.codes(n) for n in sorted(set(probes))], prog=w.get('prog', {'none': True}), obs=obs)

    @staticmethod
    def names_of(f):
        if f['k'] == 'obj':
            return obj_names(f['o'])
        if f['k'] == 'so':
            return {d['n'] for d in f['s']['defs']}
        return set()

    def build(self, b):
        """compiles the sources of a program; the files' contents by name"""
        d = os.path.join(self.root, 'B')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TMPDIR': d, 'ZERO_AR_DATE': '1'}

        def call(*cmd):
            p = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            if p.returncode:
                raise RuntimeError(' '.join(cmd) + '\n' + p.stdout.decode('utf-8', 'replace')[:3000])
        for s in b['src']:
            name = s['out'][:-2] + s.get('ext', '.c')
            with open(os.path.join(d, name), 'w') as f:
                f.write(s['code'])
            call(*s['cc'], '-c', name, '-o', s['out'])
        for a in b['ar']:
            call('ar', 'rcsD', a['out'], *a['mem'])
        for a in b['so']:
            call('gcc', '-shared', '-Wl,-Bdynamic', *(['-Wl,-soname,' + a['soname']] if a['soname'] else []), a['obj'], '-o', a['out'])
        r = {}
        for n in os.listdir(d):
            with open(os.path.join(d, n), 'rb') as f:
                r[n] = f.read()
        return r

    def execute(self, w, prog):
        """runs the linked program itself; what it printed, word by word, and its status"""
        try:
            p = subprocess.run([prog] + w.get('args', []), cwd=self.S, stdin=subprocess.DEVNULL, capture_output=True,
                               timeout=20, env={'LD_LIBRARY_PATH': self.S, **w.get('env', {})})
            return [str(p.returncode)] + p.stdout.decode('latin1').split()
        except subprocess.TimeoutExpired:
            return ['timeout']
        except OSError as ex:
            return ['exec:%s' % ex.errno]


_runner = None
_slow = 0


def _start(dld, root):
    global _runner
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    me = os.path.join(root, str(os.getpid()))
    os.mkdir(me)
    os.chown(me, NOBODY, NOBODY)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CPU, (3000, 3000))
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)
    _runner = Runner(dld, me)


def _one(w):
    global _slow
    if _slow >= 3:
        return 'SKIP ' + w['id']     # runs that don't end have been seen often enough
    try:
        r = _runner.run(w)
        _slow += r['obs']['tmo']
        return json.dumps(r)
    except Exception as ex:
        import traceback
        return 'ERROR ' + w['id'] + ' ' + traceback.format_exc()


def run_worlds(worlds, dld, procs=8):
    """[json text] in the order of the worlds"""
    root = tempfile.mkdtemp(prefix='dldv')
    try:
        os.chmod(root, 0o755)
        exe = os.path.join(root, 'dld')
        shutil.copy(dld, exe)
        os.chmod(exe, 0o755)
        with multiprocessing.Pool(procs, _start, (exe, root)) as pool:
            return pool.map(_one, worlds, chunksize=max(1, min(16, len(worlds) // (procs * 2))))
    finally:
        shutil.rmtree(root, ignore_errors=True)
