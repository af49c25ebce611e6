"""A single signer over kills and restarts: C19."""
import json, random
from lib import *
from walks import edges_of, walks

BUGS = ['empty', 'reinit', 'nolock', 'lower', 'content', 'nosave', 'late']
INITS = ['none', 'init', 'pv', 'cos', 'set']
BLOCK = {'A': [{'block': 'A'}, {'block': 'A', 'pol': -1}, {'block': 'A', 'ptot': 2}],
         'B': [{'block': 'B'}, {'block': ''}, {'block': 'A', 'phash': 'x'}]}


def payload(p, base, k):
    d = {'h': p['h'] + base, 'r': p['r'], 's': p['s'], 't': p['t'] + 3 * k}
    d.update(BLOCK[p['c']][k % 3])
    return d


def script(ops, i):
    """A walk as requests to the real process; a kill while a request is on its way is one while it is served."""
    init = INITS[i % len(INITS)]
    base = 5 if init in ('pv', 'cos', 'set') else 0
    k = i // len(INITS)
    out, asked = [], None
    for j, o in enumerate(ops + [{'op': 'end'}]):
        if o['op'] in ('ask', 'kill', 'reinit', 'end') and asked:
            p, done = asked
            if o['op'] == 'kill' and not done:
                out.append({'op': 'crash', 'n': j % 2, 'ps': [p], 'us': (i * 37 + j * 101) % 700})
            else:
                out.append({'op': 'req', 'n': j % 2, 'p': p})
            asked = None
        if o['op'] == 'ask':
            asked = (payload(o['p'], base, k), False)
        elif o['op'] == 'reply' and asked:
            asked = (asked[0], True)
        elif o['op'] == 'kill':
            out.append({'op': 'kill' if (i + j) % 3 else 'stop'})
        elif o['op'] == 'reinit':
            out.append({'op': 'reinit'})
    s = {'init': init, 'how': ['flag', 'home'][i % 2], 'p': {'h': 4, 'r': 1, 's': 2, 't': 1, 'block': 'A'}, 'ops': out}
    if init == 'set':
        s['p'] = {'h': 5}
    return s


def run(ctx, prop):
    exe = build_harness(ctx)
    env = {'VERIF_HORCRUX': build_horcrux(ctx)}
    model_check(ctx, 'MCSingle.tla', 'MCSingle.cfg')
    if not QUICK:
        vacuity(ctx)
        big = open(os.path.join(VERIF, 'spec', 'MCSingle.cfg')).read().replace('MaxReqs = 3', 'MaxReqs = 5')
        rc, out = tlc(ctx, 'MCSingle.tla', 'big.cfg', workers=CORES, heap='12g', extra={'big.cfg': big}, timeout=1500)
        if rc != 0:
            raise CheckError('the specification fails with more requests:\n' + tail(out, 40))
        ctx.states += counts(out)[1]
        ctx.transitions += counts(out)[0]
    es = edges_of(model_check(ctx, 'MCSingle.tla', 'MCSingleWalk.cfg'))
    ws, left = walks(es, 60)
    scripts = [s for s in (script(w, i + SEED, ) for i, w in enumerate(ws)) if s['ops']]
    total = len(scripts)
    if QUICK and total > 120:
        scripts = random.Random(SEED).sample(scripts, 120)
    ctx.cov['edge_walks'] = [{'config': 'MCSingleWalk.cfg', 'edges': len(es), 'walks': len(ws), 'uncovered': left, 'replayed': len(scripts)}]
    p = ctx.path('scripts')
    with open(p, 'w') as f:
        for s in scripts:
            f.write(json.dumps(s) + '\n')
    lap('model')
    traces = []
    for name, args in (('single-walk', ['--count', 0, '--scripts', p, '--budget', 60 if QUICK else 300]),
                       ('single-random', ['--seed', SEED, '--count', 150 if QUICK else 4000, '--len', 40, '--budget', 40 if QUICK else 300])):
        t = ctx.path(name + '.ndjson')
        harness(ctx, exe, 'single', '--workers', 16, *args, '--out', t, env=env)
        lap(name)
        traces.append(t)
    seen = {}
    for t in traces:
        for line in open(t):
            e = json.loads(line)
            k = e['e'] + ('' if e.get('ok', True) else '-failed') + ('+sig' if e.get('rel') else '')
            seen[k] = seen.get(k, 0) + 1
    ctx.cov['events_seen'] = seen
    if not seen.get('sign+sig'):
        raise CheckError(f'nothing was ever signed: {seen}')
    rej = validate(ctx, 'SingleTrace.tla', 'SingleTrace.cfg', prop, traces)
    lap('validate')
    report_rejected(ctx, f'{prop}: the single signer signed backwards or two contents at one step', rej)
    ctx.assumptions.append('a kill is the process stopping at an arbitrary instant; the file system keeps what was written')


def vacuity(ctx):
    base = open(os.path.join(VERIF, 'spec', 'MCSingle.cfg')).read()
    for b in BUGS:
        rc, out = tlc(ctx, 'MCSingle.tla', 'bug.cfg', workers=CORES, extra={'bug.cfg': base.replace('Bug = ""', f'Bug = "{b}"')})
        if 'violated' not in out:
            raise CheckError(f'the model does not notice {b}')
    ctx.cov['single_model_bugs_noticed'] = BUGS
