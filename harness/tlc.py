"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def tlc(module, cfg=None, env=None, workers=8, heap='6g', timeout=800, extra=(), props=()):
    """(exit status, output, {steps, distinct})"""
    meta = tempfile.mkdtemp(prefix='dldtlc')
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4', *props, '-cp', JAR, 'tlc2.TLC', '-workers',
               str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg or module + '.cfg', *extra, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out, rc = p.stdout.decode('utf-8', 'replace'), p.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b'').decode('utf-8', 'replace') + '\nTIMEOUT', 99
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        i = re.findall(r'initial states: (?:\d+ states generated, with )?(\d+)', out)
        st = dict(steps=int(m[-1][0]) - (int(i[-1]) if i else 0), distinct=int(m[-1][1])) if m else dict(steps=0, distinct=0)
        return rc, out, st
    finally:
        shutil.rmtree(meta, ignore_errors=True)


LINE = re.compile(r'^"?RUN\|([^|]*)\|([^|]*)\|([^|]*)\|(.*?)"?$')


def validate(lines, workers=8, timeout=800, chunk=1500):
    """lines: records (JSON text).  {id: (pc, err, [clauses])}, statistics, log"""
    res, stats, log = {}, dict(steps=0, distinct=0), ''
    for k in range(0, len(lines), chunk):
        part = list(lines[k:k + chunk])
        while part:
            fd, name = tempfile.mkstemp(prefix='dldruns', suffix='.ndjson')
            with os.fdopen(fd, 'w') as f:
                f.write('\n'.join(part) + '\n')
            rc, out, st = tlc('DldTrace', env={'RUNS': name}, workers=workers, timeout=timeout)
            os.unlink(name)
            for x in st:
                stats[x] += st[x]
            for l in out.splitlines():
                m = LINE.match(l)
                if m:
                    res[m.group(1)] = (m.group(2), m.group(3), json.loads(m.group(4).replace('\\"', '"').replace('\\\\', '\\')))
            left = [l for l in part if json.loads(l[:200].split(',')[0] + '}')['id'] not in res]
            if rc == 0 and not left:
                break
            # a run that can't be evaluated: which one?
            m = re.findall(r'^/\\ w = (\d+)', out, re.M)
            log += out[-6000:]
            if rc == 99 or not m:
                return res, stats, 'TLC failed (%d)\n' % rc + log
            culprit = json.loads(part[int(m[-1]) - 1])
            step = re.findall(r'^/\\ step = "(\w+)"', out, re.M)
            why = re.findall(r'(?:Error:|attempted|Attempted).*', out)
            if not step or step[-1] == 'run' and not culprit['obs']['img']['ok']:
                return res, stats, 'the specification fails on %s\n' % culprit['id'] + log
            res[culprit['id']] = ('error', '', ['*|the recorded program has no meaning: ' + ' '.join(why)[:300]])
            part = [l for l in left if json.loads(l)['id'] != culprit['id']]
    return res, stats, log if any(v[0] == 'error' for v in res.values()) else ''
