"""The families of worlds: where they come from and how many of them a check looks at."""
import json, os, random, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, progs, tlc


class ToolError(Exception):
    pass


def model(module, n_quick=None, n_thorough=None, env=None, **fields):
    """checks the specification on the module's universe and returns its worlds (a sample, if there are too many)"""
    def make(seed, tier, stats):
        fd, name = tempfile.mkstemp(prefix='dldworlds', suffix='.ndjson')
        os.close(fd)
        try:
            e = {'OUT': name, 'TIER': tier, 'SEED': str(seed)}
            e.update(env or {})
            rc, out, st = tlc.tlc(module, env=e)
            if rc != 0:
                raise ToolError('%s: TLC found a fault in the specification or failed:\n%s' % (module, out[-4000:]))
            with open(name) as f:
                ws = [json.loads(l) for l in f]
        finally:
            os.unlink(name)
        stats['states'] += st['distinct']
        stats['transitions'] += st['steps']
        stats['models'].append('%s: %d states, %d worlds' % (module, st['distinct'], len(ws)))
        n = n_quick if tier == 'quick' else n_thorough
        if n and len(ws) > n:
            ws = random.Random(seed).sample(ws, n)
        for w in ws:
            w.update(fields)
        return ws
    return make


def generated(name, n_quick, n_thorough, fam=None, of=gen, **opts):
    def make(seed, tier, stats):
        n = n_quick if tier == 'quick' else n_thorough
        f = fam or name
        return [getattr(of, name)(random.Random('%d/%s/%d' % (seed, f, i)), '%s%d' % (f, i), fam=f, **opts)
                for i in range(n)]
    return make


FAMILIES = {
    # universes that the specification enumerates
    'bind': model('MC_Bind'), 'members': model('MC_Members'), 'needed': model('MC_Needed'), 'search': model('MC_Search'),
    'cmd': model('MC_Cmd'), 'script': model('MC_Script'), 'reloc': model('MC_Reloc'), 'layout': model('MC_Layout'),
    'copy': model('MC_Copy'), 'hash': model('MC_Hash'), 'arrays': model('MC_Arrays'), 'clash': model('MC_Clash'),
    'fault': model('MC_Fault'), 'links': model('MC_Links'), 'bad': model('MC_Bad'), 'exports': model('MC_Exports'),
    # random worlds
    'mix': generated('mix', 600, 12000, tls=True, arrays=True, ld=True),
    'determ': generated('determ', 200, 2500),
    'big': generated('big', 40, 600),
    'imports': generated('imports', 50, 400),
    'names': generated('names', 80, 1200),
    'large': generated('mix', 40, 500, fam='large', large=True, tls=True, maxar=1, maxlib=1, nsec=5),
    # programs in C, run
    'prog': generated('program', 160, 2500, fam='prog', of=progs, callbacks=False),
    'cb': generated('program', 100, 2500, fam='cb', of=progs, callbacks=True),
    'chain': generated('chain', 250, 4000),
    'many': generated('many', 80, 1000),
    # inputs with faults
    'fields': generated('fields', 1200, 25000),
    'trunc': generated('truncated', 1000, 20000, fam='trunc'),
    'flip': generated('flipped', 1000, 30000, fam='flip'),
    'noise': generated('noise', 1500, 30000),
    'texts': generated('texts', 400, 10000),
}

# property -> families
PLAN = {
    'C01': ['bind', 'clash', 'reloc', 'mix'],
    'C02': ['bind', 'clash', 'mix'],
    'C03': ['reloc', 'mix', 'large'],
    'C04': ['layout', 'mix', 'big', 'large'],
    'C05': ['layout', 'copy', 'mix', 'large'],
    'C06': ['bind', 'members', 'clash', 'mix', 'many'],
    'C07': ['bind', 'clash', 'mix'],
    'C08': ['members', 'links', 'chain', 'mix'],
    'C09': ['reloc', 'copy', 'mix', 'big', 'imports'],
    'C10': ['copy', 'mix', 'imports'],
    'C11': ['hash', 'names', 'mix', 'imports'],
    'C12': ['needed', 'script', 'cmd', 'links'],
    'C13': ['layout', 'hash', 'arrays', 'mix', 'imports'],
    'C14': ['bind', 'clash', 'layout', 'mix'],
    'C15': ['search', 'links'],
    'C16': ['cmd', 'search', 'noise'],
    'C17': ['script', 'texts', 'noise'],
    'C18': ['determ', 'mix'],
    'C19': ['fault', 'bad', 'cmd', 'noise'],
    'C20': ['arrays', 'mix'],
    'C21': ['prog', 'cb'],
    'C22': ['bad', 'trunc', 'flip', 'fields', 'noise', 'texts', 'members', 'chain'],
    'C23': ['exports', 'bind', 'mix', 'cb'],
}
