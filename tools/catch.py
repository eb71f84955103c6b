#!/usr/bin/env python3
"""catch.py [ids]   runs the check of each planted change's property against it, in a scratch copy of /repo"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
W = '/tmp/catchrepo'
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '.'])
    subprocess.check_call(['git', '-C', W, 'apply', '%s/seeded/%s/patch.diff' % (V, i)])
    t = time.time()
    p = subprocess.run(['python3', V + '/check.py', os.environ.get('PROP', m['property']), 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, DLD_REPO=W, DLD_TARGET='/tmp/catchtarget'))
    o = p.stdout.decode('utf-8', 'replace')
    v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
    print('%-24s %s %s %4.0f s  %s' % (i, m['property'], {0: 'MISSED', 1: 'caught'}.get(p.returncode, 'FAILED'), time.time() - t,
                                        o.splitlines()[o.splitlines().index(v[0]) + 1].strip()[:140] if v else o[-300:] if p.returncode else ''), flush=True)
shutil.rmtree(W, ignore_errors=True)
