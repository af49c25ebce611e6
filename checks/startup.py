"""Starting signers that lack something: C20."""
import json
from lib import *
from walks import edges_of, walks

BUGS = ['early', 'anykey', 'anyshare', 'create', 'nocheck', 'exit0', 'hang', 'reset']
BAD = {
    'cosigner': {
        'cfg': ['garbage', 'tabs', 'nochain', 'nocosigner', 'dup', 'zeropeer', 'highpeer', 'manypeers', 'threshold', 'timeout', 'badnode', 'otherkeys', 'list'],
        'key': ['half', 'empty', 'text', 'norsa', 'badrsa', 'badpub', 'badpubs', 'dir', 'idtype', 'trailing', 'null'],
        'share': ['half', 'empty', 'text', 'dir', 'types', 'array', 'noheight', 'binary', 'trailing']},
    'single': {'cfg': ['garbage', 'tabs', 'nochain', 'nonodes', 'badnode', 'list'], 'key': ['half', 'empty', 'text', 'dir', 'trailing']}}


def script(ops, mode, how, i):
    """A walk; what is broken in which way rotates over all the ways there are."""
    out, k = [], i * 7
    for o in ops:
        if o['op'] == 'set':
            h = o['f']
            if h == 'bad':
                b = BAD[mode][o['w']]
                h, k = b[k % len(b)], k + 1
            elif h == 'missing' and o['w'] == 'share' and k % 3 == 0:
                h = 'nostatedir'
            out.append({'op': 'set', 'what': o['w'], 'how': h})
        elif o['op'] == 'start':
            out.append({'op': 'start'})
    return {'mode': mode, 'how': how, 'ops': out}


def run(ctx, prop):
    exe = build_harness(ctx)
    env = {'VERIF_HORCRUX': build_horcrux(ctx)}
    model_check(ctx, 'MCStartup.tla', 'MCStartup.cfg')
    if not QUICK:
        vacuity(ctx)
    scripts = []
    for mode, cfg in (('cosigner', 'MCStartupCosigner.cfg'), ('single', 'MCStartupSingle.cfg')):
        es = edges_of(model_check(ctx, 'MCStartup.tla', cfg))
        ws, left = walks(es, 60)
        n = len(scripts)
        for i, w in enumerate(ws):
            for k in range((4 if mode == 'cosigner' else 3) if QUICK else 40):
                scripts.append(script(w, mode, ['flag', 'home'][(i + k) % 2], i + k * 3 + SEED))
        ctx.cov.setdefault('edge_walks', []).append({'config': cfg, 'edges': len(es), 'walks': len(ws), 'uncovered': left, 'replayed': len(scripts) - n})
        # every way in which one thing can be of no use, twice in a row, and then repaired
        for w in BAD[mode]:
            for h in BAD[mode][w] + ['missing'] + (['nostatedir'] if w == 'share' else []):
                ops = [{'op': 'set', 'what': x, 'how': 'ok'} for x in BAD[mode]] + [{'op': 'set', 'what': w, 'how': h}, {'op': 'start'}, {'op': 'start'}]
                if h == 'nostatedir':
                    ops.append({'op': 'set', 'what': 'share', 'how': 'missing'})
                    ops.append({'op': 'start'})
                ops += [{'op': 'set', 'what': w, 'how': 'ok'}, {'op': 'start'}, {'op': 'set', 'what': w, 'how': h}, {'op': 'start'}]
                scripts.append({'mode': mode, 'how': 'flag', 'ops': ops})
    p = ctx.path('scripts')
    with open(p, 'w') as f:
        for s in scripts:
            f.write(json.dumps(s) + '\n')
    lap('model')
    t = ctx.path('boot.ndjson')
    harness(ctx, exe, 'boot', '--workers', 16, '--scripts', p, '--seed', SEED, '--count', 60 if QUICK else 2000, '--len', 30,
            '--budget', 90 if QUICK else 600, '--out', t, env=env, timeout=1200)
    lap('drive')
    runs, cur, mode = {}, {}, ''
    for line in open(t):
        e = json.loads(line)
        if e['e'] == 'reset':
            mode = e['mode']
        elif e['e'] == 'home':
            cur = e
        elif e['e'] == 'run':
            lacks = cur['cfg'] != 'ok' or cur['key'] != 'ok' or mode == 'cosigner' and cur['share'] != 'ok'
            k = f"{mode} {'lacking' if lacks else 'complete'} {'exits' if e['exited'] else 'runs'}"
            runs[k] = runs.get(k, 0) + 1
    ctx.cov['starts'] = runs
    for mode in ('cosigner', 'single'):
        if not runs.get(f'{mode} complete runs'):
            raise CheckError(f'no signer ever started: {runs}')
    rej = validate(ctx, 'StartupTrace.tla', 'StartupTrace.cfg', prop, t)
    lap('validate')
    report_rejected(ctx, f'{prop}: a signer that lacks something did not just refuse', rej)
    ctx.assumptions.append('files are made unreadable by their contents, not by permissions: the checks run as root')


def vacuity(ctx):
    base = open(os.path.join(VERIF, 'spec', 'MCStartup.cfg')).read()
    for b in BUGS:
        rc, out = tlc(ctx, 'MCStartup.tla', 'bug.cfg', workers=2, extra={'bug.cfg': base.replace('Bug = ""', f'Bug = "{b}"')})
        if 'violated' not in out:
            raise CheckError(f'the model does not notice {b}')
    ctx.cov['startup_model_bugs_noticed'] = BUGS
