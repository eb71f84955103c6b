#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]    decides one property on /repo's working tree
check.py --replay FILE                   judges a recorded world again
check.py --setup                         builds the linker and parses the specification

Exit status: 0 the property held, 1 it is violated (VIOLATION lines), 2 the check itself failed."""
import collections, concurrent.futures, json, random, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import families, run, tlc

REPO = os.environ.get('DLD_REPO', '/repo')
TARGET = os.environ.get('DLD_TARGET', os.path.join(HERE, '.build', 'target'))

BATCH, LIMIT = 2000, int(os.environ.get('DLD_LIMIT', '600'))     # worlds at a time; seconds after which no batch is begun


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
    p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh 2>/dev/null; export CARGO_TARGET_DIR="$1"; cd "$2" && cargo build --offline '
                        '--locked --bin dld', '-', TARGET, REPO], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        print(p.stdout.decode('utf-8', 'replace')[-3000:])
        print('the linker cannot be built')
        sys.exit(2)
    return os.path.join(TARGET, 'debug', 'dld')


def known_findings():
    """[(property, world id, clause)] of the findings that are still open"""
    r = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for l in f:
            m = re.match(r'finding: property=(\S+) world=(\S+) clause="([^"]*)"', l)
            if m:
                r.append(m.groups())
    return r


def counts(clause, prop):
    tags = clause.split('|')[0].split(',')
    return prop in tags or '*' in tags


def short(w):
    o = w['obs']
    return dict(id=w['id'], argv=w['argv'], files=[f['b'] + ' (' + f['k'] + ')' for f in w['files']],
                exit=o['code'], diagnostic=o['err'][:12], made=o['made'])


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    dld = build()
    stats = dict(states=0, transitions=0, models=[])
    per, worlds = collections.Counter(), []
    fams = families.PLAN[prop]
    own = [dict(states=0, transitions=0, models=[]) for _ in fams]
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        made = list(pool.map(lambda k: families.FAMILIES[fams[k]](seed, tier, own[k]), range(len(fams))))
    for fam, ws, st in zip(fams, made, own):
        worlds += ws
        for k in st:
            stats[k] += st[k]
    # a batch has worlds of all families
    random.Random(seed).shuffle(worlds)
    violations, findings, outcome, nruns, samples, seen = [], [], collections.Counter(), 0, [], set()
    open_ = known_findings()
    batch = BATCH
    for k in range(0, len(worlds), batch):
        if k and time.time() - t0 > LIMIT:
            print('time is up: %d of %d worlds are left out' % (len(worlds) - k, len(worlds)))
            break
        part = worlds[k:k + batch]
        recs = run.run_worlds(part, dld)
        per.update(w['fam'] for w in part)
        errors = [r for r in recs if r.startswith('ERROR')]
        if errors:
            raise families.ToolError('the harness failed:\n' + errors[0])
        recs = [r for r in recs if not r.startswith('SKIP')]
        res, st, log = tlc.validate(recs)
        stats['states'] += st['distinct']
        stats['transitions'] += st['steps']
        for r in recs:
            w = json.loads(r)
            if w['id'] not in res:
                raise families.ToolError('no verdict on ' + w['id'] + '\n' + log)
            pc, err, clauses = res[w['id']]
            nruns += 1
            outcome[pc + (':' + err if err else '')] += 1
            if len(samples) < 8 and (pc, err) not in seen:
                seen.add((pc, err))
                samples.append(dict(short(w), specification=pc + (':' + err if err else '')))
            mine = [c for c in clauses if counts(c, prop)]
            new = []
            for c in mine:
                if (prop, w['id'], c.split('|', 1)[1]) in open_:
                    findings.append((w['id'], c))
                else:
                    new.append(c)
            if new:
                violations.append((w, new))
        if len(violations) >= 20:
            break
    for i, c in findings:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, i, c.split('|', 1)[1]))
    out = os.path.join(HERE, 'evidence', 'replay')
    for w, cs in violations[:5]:
        os.makedirs(out, exist_ok=True)
        name = os.path.join(out, '%s_%s.json' % (prop, w['id']))
        with open(name, 'w') as f:
            json.dump(dict(property=prop, clauses=cs, record=w), f)
        print('VIOLATION property=%s replay=%s' % (prop, name))
        print('   ' + '; '.join(c.split('|', 1)[1] for c in cs[:4]))
        print('   ' + json.dumps(short(w))[:600])
    level = 'model_checking'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 1), violations=len(violations),
              coverage=dict(states=stats['states'], transitions=stats['transitions'], traces_validated_against_impl=nruns,
                            samples=samples, families=dict(per), models=stats['models'], outcomes=dict(outcome)),
              assumptions=['the harness projects files and runs truthfully (harness/elfr.py, harness/run.py)',
                           'TLC evaluates the specification correctly',
                           'the operating system reports exit status and file contents truthfully'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d runs of dld validated (%s), %d states, %.1f s, %d violations' % (
        prop, tier, nruns, ', '.join('%s %d' % x for x in sorted(per.items())), stats['states'], time.time() - t0,
        len(violations)))
    return 1 if violations else 0


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--setup':
            build()
            sys.exit(0)
        if sys.argv[1] == '--replay':
            rec = json.load(open(sys.argv[2]))['record']
            print(tlc.validate([json.dumps(rec)]))
            sys.exit(0)
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
    except families.ToolError as ex:
        print(ex)
        sys.exit(2)
