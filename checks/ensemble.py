"""Clusters of processes that sign: C11, C13."""
import json, random
from lib import *
from store import covering
from walks import edges_of, walks

BUGS = ['silent', 'pvonly', 'shonly', 'snapless', 'noproxy', 'norefer', 'anyone', 'selfmove', 'stay', 'unannounced', 'firstonly', 'candidate', 'followini', 'wait']
WORKERS = 16


def op(name, at='L', i=0, k='', s=0):
    return {'op': name, 'at': at, 'i': i, 'k': k, 's': s}


def ops_of(seq, rnd):
    ops = []
    for name, at, i, k in seq:
        s = rnd.randrange(12)
        if name == 'bulksnap':
            ops += [op('bulk', at, i), op('snap', at, i)]
        elif name == 'req' and k in ('again', 'conflict') and at == 'F' and rnd.random() < .4:
            ops.append(op('both', at, i, k, s))
        elif name == 'transfer' and at == 'F' and rnd.random() < .2:
            ops.append(op('moved', at, i))
        else:
            ops.append(op(name, at, i, k, s))
        if name in ('req', 'start', 'cont', 'transfer') and rnd.random() < .35:
            ops.append(op('seen', 'A') if rnd.random() < .5 else op('probe', rnd.choice('FFL'), rnd.randrange(2), rnd.choice(['conflict', 'conflict', 'lower'])))
    return ops


def random_ops(rnd, n, real=False):
    ops = []
    kinds = ['req'] * 9 + ['both'] * 4 + ['crowd', 'seen', 'probe', 'probe', 'transfer', 'transfer', 'moved', 'kill', 'start', 'start', 'pause', 'cont', 'cont']
    kinds += ['reqkill'] if real else ['reqkill', 'snap', 'forget', 'half']
    for _ in range(n):
        o = rnd.choice(kinds)
        at = {'start': 'D', 'cont': 'P', 'reqkill': 'L', 'kill': rnd.choice('LFF'), 'pause': rnd.choice('LF'), 'both': 'F', 'half': 'F',
              'transfer': rnd.choice('LFFF'), 'forget': 'A'}.get(o, rnd.choice('LFF'))
        k = {'crowd': 'fresh', 'reqkill': 'fresh', 'probe': rnd.choice(['conflict', 'lower', 'ts'])}.get(o) or \
            rnd.choice(['fresh'] * 5 + ['again', 'again', 'conflict', 'ts', 'lower', 'retry'])
        ops.append(op(o, at, rnd.randrange(4), k, rnd.randrange(12)))
    return ops


def run(ctx, prop):
    exe = build_harness(ctx)
    horcrux = build_horcrux(ctx)
    model_check(ctx, 'MCEnsemble.tla', 'MCEnsemble.cfg')
    if not QUICK:
        base = open(os.path.join(VERIF, 'spec', 'MCEnsemble.cfg')).read()
        for b in BUGS:
            cfg = base.replace('Bug = ""', f'Bug = "{b}"').replace('N = 3', 'N = 2' if b in ('candidate', 'followini') else 'N = 3')
            rc, o = tlc(ctx, 'MCEnsemble.tla', 'bug.cfg', workers=CORES, heap='8g', extra={'bug.cfg': cfg})
            if 'violated' not in o:
                raise CheckError(f'the model does not notice {b}')
        ctx.cov['ensemble_model_bugs_noticed'] = BUGS
    out = model_check(ctx, 'MCEnsemble.tla', 'MCEnsembleWalk.cfg')
    lap('model')
    rnd = random.Random(SEED * 7 + (prop == 'C13'))
    es = list({(e['s'], e['d'], json.dumps(e['o'])): e for e in edges_of(out)}.values())
    ws, missed = walks(es, 24)
    if missed:
        raise CheckError(f'{missed} steps of the model are in no walk')
    seqs = sorted({tuple((o['op'], o['at'], o['i'], o['k']) for o in w if o['op'] != 'tau') for w in ws})
    rnd.shuffle(seqs)
    heavy = [s for s in seqs if any(x[0] == 'bulksnap' for x in s)]
    light = [s for s in seqs if not any(x[0] == 'bulksnap' for x in s)]
    light.sort(key=len)
    light = covering(light, 2)
    rnd.shuffle(light)
    scripts = []

    def script(ops, n=3, t=2, real=False):
        scripts.append({'n': n, 't': t, 'real': real, 'ops': ops})
    # what each mechanism is there for, in every run
    for n, t in [(3, 2), (2, 2), (5, 3)] if QUICK else [(3, 2), (2, 2), (5, 3), (3, 3), (4, 3), (1, 1), (7, 4)][:5] * 2:
        ops = [op('req', 'L', 0, 'fresh'), op('req', 'F', 0, 'fresh', 1), op('both', 'F', 0, 'again'), op('both', 'F', 0, 'ts'), op('both', 'F', 0, 'conflict'),
               op('seen', 'A')]
        for i in range(n - 1):
            ops += [op('probe', 'F', i, 'conflict'), op('probe', 'F', i, 'lower', i)]
        ops += [op('probe', 'L', 0, 'conflict'), op('req', 'F', 1, 'fresh', 2), op('seen', 'A'), op('transfer', 'F', rnd.randrange(n)), op('req', 'F', 0, 'again'),
                op('req', 'F', 0, 'fresh', 3), op('seen', 'A'), op('transfer', 'L'), op('moved', 'F'), op('req', 'L', 0, 'lower'), op('crowd', 'A', 0, 'fresh', 1)]
        script(ops, n, t)
    # missed and not kept
    for how, back in [('kill', 'start'), ('pause', 'cont')][:1 if QUICK else 2]:
        script([op('req', 'L', 0, 'fresh'), op(how, 'F'), op('req', 'L', 0, 'fresh', 1), op('bulk', 'L')] + [op('bulk', 'L')] * (how == 'pause') +
               [op('snap', 'L'), op(back, 'D' if how == 'kill' else 'P'), op('seen', 'A'), op('probe', 'F', 0, 'conflict'), op('probe', 'F', 1, 'lower')])
    # stored in one of the two places only
    for i in range(2 if QUICK else 10):
        script([op('req', 'L', 0, 'fresh', 2), op('half', 'F', i), op('half', 'F', i + 1, '', 1), op('transfer', 'F', i), op('half', 'F', i + 1), op('req', 'F', 0, 'fresh')], *[(3, 2), (4, 3)][i % 2])
    # stopped as soon as it answered
    for i in range(2 if QUICK else 8):
        script([op('req', 'L', 0, 'fresh'), op('reqkill', 'L', 0, 'fresh', 1), op('req', 'L', 0, 'again'), op('start', 'D'), op('reqkill', 'L', 0, 'fresh', 5), op('seen', 'A')], *[(3, 2), (4, 3)][i % 2])
    # not announced
    for i in range(2 if QUICK else 6):
        script([op('req', 'L', 0, 'fresh'), op('forget', 'A', i), op('req', 'F', 0, 'fresh')])
    # most are gone, and nobody leads
    for how in ['kill', 'pause'][:1 if prop == 'C11' else 2]:
        script([op('req', 'L', 0, 'fresh'), op('lone', 'A', rnd.randrange(3), how, 1), op('all'), op('lone', 'A', rnd.randrange(3), how, 2), op('req', 'A', 0, 'fresh')])
        if how == 'kill':
            # what nobody could sign then is signed later
            script([op('req', 'L', 0, 'fresh'), op('lone', 'F', 0, how, 1), op('back'), op('req', 'L', 0, 'retry'), op('lone', 'F', 1, how, 2), op('back'), op('req', 'L', 0, 'retry')])
    # a leader that does not answer
    if prop == 'C13':
        for i in range(3 if QUICK else 9):
            script([op('req', 'L', 0, 'fresh'), op('held', 'F', i), op('req', 'F', 0, 'fresh'), op('held', 'F', i + 1)], *[(4, 3), (3, 2), (5, 3)][i % 3])
    # the binary itself
    for i in range(2 if QUICK else 8):
        script([op('req', 'L', 0, 'fresh'), op('both', 'F', 0, 'again'), op('req', 'F', 1, 'fresh', 1), op('both', 'F', 1, 'conflict'), op('seen', 'A'),
                op('probe', 'F', 0, 'conflict'), op('transfer', 'F', i), op('req', 'F', 0, 'again'), op('req', 'F', 0, 'fresh', 2), op('transfer', 'L')] +
               random_ops(rnd, 12 if QUICK else 40, True), real=True)
    for s in heavy[:0 if QUICK else 60]:
        script(ops_of(s, rnd))
    # the rest of a script is not run once the time is up, so the walks are mixed well
    light = light[:60 if QUICK else len(light)]
    per = 3
    for i in range(0, len(light), per):
        ops = []
        for s in light[i:i + per]:
            ops += ops_of(s, rnd) + [op('all')]
        script(ops)
    for i in range(10 if QUICK else 150):
        n, t = rnd.choice([(2, 2), (3, 2), (3, 2), (3, 3), (5, 3)])
        script(random_ops(rnd, 25), n, t)
    ctx.cov['model_walks'] = {'all': len(seqs), 'replayed': len(light) + (0 if QUICK else min(60, len(heavy)))}

    def go(scripts, name, workers=WORKERS):
        p, t, scratch = ctx.path(name + '.scripts'), ctx.path(name + '.ndjson'), ctx.path(name + '.s')
        os.makedirs(scratch, exist_ok=True)
        with open(p, 'w') as f:
            for s in scripts:
                f.write(json.dumps(s) + '\n')
        harness(ctx, exe, 'ensemble', '--seed', SEED, '--scripts', p, '--workers', workers, '--budget', 40 if QUICK else 500, '--len', 18 if QUICK else 90, '--out', t,
                env={'VERIF_SCRATCH': scratch, 'VERIF_HORCRUX': horcrux})
        lap(name)
        return t

    t = go(scripts, 'ensemble')
    seen = {}
    for line in open(t):
        e = json.loads(line)
        k = e['e']
        if k == 'req':
            k += ':' + e['out'] + (':calm' if e['calm'] else '')
        elif k == 'probe':
            k += ':' + e['out']
        elif k in ('transfer', 'moved'):
            k += ':' + ('self' if e.get('to') == e['before'] else 'other')
        seen[k] = seen.get(k, 0) + 1
    ctx.cov['events_seen'] = seen
    rej = validate(ctx, 'EnsembleTrace.tla', 'EnsembleTrace.cfg', prop, t)
    lap('validated')
    if rej:
        # what depends on how fast the sandbox is does not happen again
        at = {g: i for i, g in enumerate(tuple(x) for x in read_groups(t))}
        again = [scripts[at[tuple(g)]] for g, _ in rej][:8]
        rej2 = validate(ctx, 'EnsembleTrace.tla', 'EnsembleTrace.cfg', prop, go(again * 4, 'again', workers=6), keep=False)
        if rej2:
            report_rejected(ctx, {'C11': 'C11: a member does not know of a signature that all were told of, or signs against it',
                                  'C13': 'C13: what a member answers depends on which one is asked, or leadership does not move as asked'}[prop], rej2)
        else:
            ctx.cov['not_reproduced'] = [json.loads(g[i - 1]) for g, i in rej]
    if not ctx.violations and (not seen.get('req:sig:calm') or not seen.get('seen') or not seen.get('probe:error') or not seen.get('transfer:other')):
        raise CheckError(f'too little happened: {seen}')
    if os.environ.get('VERIF_KEEP'):
        shutil.copy(t, os.environ['VERIF_KEEP'])
        shutil.copy(ctx.path('ensemble.scripts'), os.environ['VERIF_KEEP'] + '.scripts')
