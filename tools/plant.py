#!/usr/bin/env python3
"""plant.py SPEC [ids]   makes /verif/seeded/<id>/ from a list of changes, after confirming each in a scratch copy of /repo.
SPEC is a Python file with BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
W = '/tmp/plant'
ns = {}
exec(open(sys.argv[1]).read(), ns)
todo = [b for b in ns['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
shutil.rmtree('/tmp/plant', ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
ENV = '. /opt/vp/env.sh; cd ' + W + '; export CCC_OVERRIDE_OPTIONS="# +-no-pie"; '


def sh(c):
    p = subprocess.run(['bash', '-c', ENV + c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def demo(d):
    # as it is run in the end: somewhere else
    x = '/tmp/plantdemo'
    shutil.rmtree(x, ignore_errors=True)
    shutil.copytree(d, x, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    p = subprocess.run(['timeout', '250', 'bash', x + '/demo.sh'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(x)
    return p.returncode, p.stdout.decode('utf-8', 'replace')[-400:]


original = {}
for f in subprocess.check_output(['git', '-C', W, 'ls-files', 'src'], text=True).split():
    for l in subprocess.check_output(['git', '-C', W, 'blame', '-s', f], text=True).splitlines():
        if l.startswith('^'):
            original.setdefault(f, set()).add(l.split(')', 1)[1][1:])
rc, o = sh('cargo test --workspace --no-run --locked --offline')
assert rc == 0, o
for b in todo:
    d = os.path.join(SEEDED, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(os.path.join(HERE, 'd.py'), d)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom d import *\n' + b['demo'].lstrip('\n'))
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    why = None
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '.'])
    for f, old, new in b['edits']:
        s = open(W + '/' + f).read()
        if s.count(old) != 1:
            why = 'the text occurs %d times: %s' % (s.count(old), old[:60])
            break
        open(W + '/' + f, 'w').write(s.replace(old, new))
    if not why:
        diff = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(diff)
        cur, rem = None, 0
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
            elif l.startswith('-') and not l.startswith('---'):
                rem += 1
                if l[1:] not in original[cur]:
                    print('   %s: not an original line: %s' % (b['id'], l[1:].strip()))
        if not rem:
            print('   %s: changes no line' % b['id'])
        rc, o = sh('cargo test --workspace --no-run --locked --offline')
        if rc:
            why = 'does not compile: ' + o[-1500:]
        else:
            rc, o = sh('cargo test --workspace --locked --offline')
            if rc:
                why = 'tests fail: ' + o[-800:]
            else:
                rc, o1 = demo(d)
                if not rc:
                    why = 'the demonstration passes with the change: ' + o1
        subprocess.check_call(['git', '-C', W, 'checkout', '-q', '.'])
        if not why:
            rc, o = sh('cargo test --workspace --no-run --locked --offline')
            rc, o = demo(d)
            if rc:
                why = 'the demonstration fails without the change: ' + o
    if why:
        shutil.rmtree(d)
        print('%s: DROPPED: %s' % (b['id'], why))
    else:
        print('%s: kept (%s)' % (b['id'], o1.strip().splitlines()[-1][:150] if o1.strip() else ''))
shutil.rmtree('/tmp/plant', ignore_errors=True)
