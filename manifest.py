#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import families

NOTE = ('Every run of the real linker in the families %s is replayed on the TLA+ specification by TLC, which decides whether '
        'its exit status, diagnostic, effects on files and every part of the program it wrote are what the specification '
        'allows; the specification itself is model-checked against declarative rules on the same universes.  Bounded: the '
        'universes are small or sampled by seed.  Trusted: TLC, the projection of files by harness/elfr.py and the recording '
        'of runs by harness/run.py.')
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in families.PLAN:
        checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                           technique='TLA+ specification checked with TLC, and TLC trace validation of real runs',
                           level='model_checking', level_note=NOTE % ', '.join(families.PLAN[p])))
na = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p not in families.PLAN:
        na.append(dict(property=p, reason='its check is still being built'))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks: the linker is built unchanged and observed from outside.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
