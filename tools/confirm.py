#!/usr/bin/env python3
"""confirm.py [ids]   checks in a scratch copy of /repo's HEAD that the kept changes apply, build, pass the tests and that their
demonstrations tell them from the unchanged tree"""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
W = '/tmp/confirm'
shutil.rmtree('/tmp/confirm', ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
ENV = '. /opt/vp/env.sh; cd ' + W + '; export CCC_OVERRIDE_OPTIONS="# +-no-pie"; '


def sh(c):
    p = subprocess.run(['bash', '-c', ENV + c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def demo(d):
    x = '/tmp/confirmdemo'
    shutil.rmtree('/tmp/confirmdemo', ignore_errors=True)
    shutil.copytree(d, x, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    p = subprocess.run(['timeout', '250', 'bash', x + '/demo.sh'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree('/tmp/confirmdemo')
    return p.returncode, p.stdout.decode('utf-8', 'replace')[-300:]


ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
assert sh('cargo build --workspace --locked --offline && cargo test --workspace --no-run --locked --offline')[0] == 0
bad = []
for i in ids:
    rc, o = demo(os.path.join(SEEDED, i))
    if rc:
        bad.append(i)
        print(i, 'demo fails on the unchanged tree:', rc, o)
for i in ids:
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '.'])
    if subprocess.call(['git', '-C', W, 'apply', os.path.join(SEEDED, i, 'patch.diff')]):
        bad.append(i)
        print(i, 'does not apply')
        continue
    rc, o = sh('cargo build --workspace --locked --offline && cargo test --workspace --locked --offline')
    if rc:
        bad.append(i)
        print(i, 'build or tests:', o[-500:])
        continue
    rc, o = demo(os.path.join(SEEDED, i))
    if rc == 0:
        bad.append(i)
        print(i, 'the demo passes with the change', o)
shutil.rmtree('/tmp/confirm', ignore_errors=True)
print(len(ids), 'changes,', 'not confirmed: %s' % sorted(set(bad)) if bad else 'all confirmed')
