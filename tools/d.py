"""Helpers of the demonstrations: inputs are built with the system's tools in a scratch directory and linked by target/debug/dld."""
import atexit, os, re, shutil, struct, subprocess, sys, tempfile
DLD = os.path.abspath('target/debug/dld')
S = tempfile.mkdtemp(prefix='dlddemo')
atexit.register(shutil.rmtree, S, True)
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C', 'LD_LIBRARY_PATH': S}


def sh(*cmd, ok=True, cwd=None, timeout=60):
    p = subprocess.run(cmd, cwd=cwd or S, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if ok and p.returncode:
        sys.exit('cannot prepare: %s\n%s' % (' '.join(cmd), p.stdout.decode('latin1')))
    return p.returncode, p.stdout.decode('latin1')


def write(name, text):
    os.makedirs(os.path.dirname(os.path.join(S, name)), exist_ok=True)
    with open(os.path.join(S, name), 'wb' if isinstance(text, bytes) else 'w') as f:
        f.write(text)


def asm(name, text):
    write(name + '.s', text)
    sh('as', name + '.s', '-o', name + '.o')
    return name + '.o'


def cc(name, text, *flags):
    write(name + '.c', text)
    sh('gcc', '-c', '-w', '-fno-pie', '-fno-stack-protector', '-fcf-protection=none', '-fno-asynchronous-unwind-tables', *flags, name + '.c', '-o', name + '.o')
    return name + '.o'


def so(name, text, *flags):
    write(name + '.c', text)
    sh('gcc', '-shared', '-fPIC', '-w', *flags, name + '.c', '-o', name + '.so')
    return name + '.so'


def ar(name, *members):
    sh('ar', 'rcsD', name, *members)
    return name


def dld(*args, cwd=None):
    """status and output of the linker; a run that doesn't end has the status -99"""
    try:
        return sh(DLD, *args, ok=False, cwd=cwd, timeout=20)
    except subprocess.TimeoutExpired:
        return -99, 'timeout'


def clang(*args):
    """links with libc by the compiler driver"""
    return sh('clang', '-no-pie', '-fuse-ld=' + DLD, *args, ok=False, timeout=60)


def run(name='out', *args):
    try:
        p = subprocess.run([os.path.join(S, name), *args], cwd=S, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        return p.returncode, p.stdout.decode('latin1')
    except (OSError, subprocess.TimeoutExpired) as e:
        return -98, str(e)


def need(cond, what):
    if not cond:
        print('FAILS: ' + str(what))
        sys.exit(1)


LIBC = '/lib/x86_64-linux-gnu/libc.so.6'    # the dynamic loader wants it
START = '.globl _start\n_start:\n call main\n mov %eax,%edi\n mov $60,%eax\n syscall\n.section .note.GNU-stack,"",@progbits\n'


class Elf:
    def __init__(self, name='out'):
        with open(os.path.join(S, name), 'rb') as f:
            self.b = b = f.read()
        (_, _, _, self.entry, phoff, shoff, _, _, pes, self.phnum, ses, self.shnum, sx) = struct.unpack_from('<HHIQQQIHHHHHH', b, 16)
        self.secs = [dict(zip('name type flags addr off size link info align entsize'.split(), struct.unpack_from('<IIQQQQIIQQ', b, shoff + 64 * i)))
                     for i in range(self.shnum)]
        st = self.data(self.secs[sx])
        for s in self.secs:
            s['name'] = st[s['name']:st.index(b'\0', s['name'])].decode()
        self.phs = [dict(zip('type flags off vaddr paddr filesz memsz align'.split(), struct.unpack_from('<IIQQQQQQ', b, phoff + 56 * i)))
                    for i in range(self.phnum)]

    def data(self, s):
        return b'' if s['type'] == 8 else self.b[s['off']:s['off'] + s['size']]

    def sec(self, name):
        return next((s for s in self.secs if s['name'] == name), None)

    def table(self, t):
        sec = next(s for s in self.secs if s['type'] == t)
        st, d, r = self.data(self.secs[sec['link']]), self.data(sec), []
        for i in range(len(d) // 24):
            n, info, other, x, v, z = struct.unpack_from('<IBBHQQ', d, 24 * i)
            r.append(dict(name=st[n:st.index(b'\0', n)].decode(), bind=info >> 4, type=info & 15, other=other, shndx=x, value=v, size=z))
        return r

    def syms(self):
        return self.table(2)

    def dynsyms(self):
        return self.table(11)

    def sym(self, name):
        return next((s for s in self.syms() if s['name'] == name), None)

    def dyn(self):
        sec = next(s for s in self.secs if s['type'] == 6)
        st, d = self.data(self.secs[sec['link']]), self.data(sec)
        return [struct.unpack_from('<QQ', d, 16 * i) for i in range(len(d) // 16)], st

    def needed(self):
        es, st = self.dyn()
        return [st[v:st.index(b'\0', v)].decode() for t, v in es if t == 1]

    def at(self, addr, n):
        """what is in memory at an address after loading, None if nothing is"""
        for p in self.phs:
            if p['type'] == 1 and p['vaddr'] <= addr and addr + n <= p['vaddr'] + p['memsz']:
                d = self.b[p['off']:p['off'] + p['filesz']] + bytes(p['memsz'] - p['filesz'])
                return d[addr - p['vaddr']:addr - p['vaddr'] + n]
