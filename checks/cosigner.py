"""Properties of one cosigner: C02 C03 C04 C09 C10 C21 C22 (the single-cosigner half of each)."""
import json, os
from lib import *
from walks import edges_of, walks

MUTS = ["nosig", "emptysig", "sigflip", "sigother", "sigdest", "srcunknown", "srczero", "srcneg", "srcdest",
        "pubflip", "pubevil", "pubnil", "encflip", "encnil", "encevil", "encother", "plain"]
BADS = ["empty", "trunc", "zeros", "ff", "type0", "type9", "type32", "biglen"]

# what each property's random scripts concentrate on: (focus, share of the budget)
FOCUS = {
    'C02': [('', 3), ('conc', 4)],
    'C03': [('', 2), ('store', 2), ('conc', 2)],
    'C04': [('', 3), ('conc', 3)],
    'C09': [('parts', 5), ('', 1)],
    'C10': [('nonce', 3), ('parts', 2), ('', 2), ('conc', 2)],
    'C21': [('malformed', 4), ('parts', 1)],
    'C22': [('', 4), ('conc', 1)],
}


def script_of(ops, i):
    """A walk of MCCosigner as a script for the driver: cosigner 1 is stepped, cosigner 2 gives its parts."""
    out = []
    for j, o in enumerate(ops):
        n = i * 7 + j
        if o['op'] == 'get':
            h, r, s, t = o['k']
            out.append({'op': 'get', 'c': 1, 'p': {'h': h, 'r': r, 's': s, 't': t, 'block': 'A'}})
            continue
        if o['op'] == 'restart':
            out.append({'op': 'restart', 'c': 1})
            continue
        p = o['p']
        x = {'op': o['op'], 'c': 1, 'p': {'h': p['h'], 'r': p['r'], 's': p['s'], 't': p['t'], 'block': p['c']}}
        if o['op'] in ('sign', 'breakstore'):
            h, r, s, t = o['k']
            if [h, r, s, t] != [p['h'], p['r'], p['s'], p['t']]:
                x['kt'] = {'H': h, 'R': r, 'S': s, 'T': t}
            x['parts'] = [{'src': 2, 'mut': '' if q['valid'] else MUTS[n % len(MUTS)]} for q in o['parts']]
            if not o['wf']:
                x['bad'] = BADS[n % len(BADS)]
        out.append(x)
    return {'N': 2, 'T': 2, 'Ops': out}


def design_walks(ctx, cfg, maxlen=60):
    out = model_check(ctx, 'MCCosigner.tla', cfg)
    es = edges_of(out)
    ws, left = walks(es, maxlen)
    ctx.cov.setdefault('edge_walks', []).append({'config': cfg, 'edges': len(es), 'walks': len(ws), 'uncovered': left})
    p = ctx.path('scripts.' + cfg)
    with open(p, 'w') as f:
        for i, w in enumerate(ws):
            f.write(json.dumps(script_of(w, i)) + '\n')
    return p


def run(ctx, prop):
    exe = build_harness(ctx)
    for cfg in [] if QUICK else ['MCCosignerMonA.cfg', 'MCCosignerMonB.cfg', 'MCCosignerMon.cfg']:
        model_check(ctx, 'MCCosigner.tla', cfg)
    traces = []
    for cfg in ['MCCosigner.cfg'] + ([] if QUICK else ['MCCosigner2.cfg', 'MCCosignerH.cfg']):
        sc = design_walks(ctx, cfg)
        lap(cfg)
        t = ctx.path('walk.' + cfg + '.ndjson')
        harness(ctx, exe, 'cosig', '--count', 0, '--scripts', sc, '--out', t, '--budget', 240)
        traces.append(t)
        lap(os.path.basename(t))
    unit = 20 if QUICK else 250
    for i, (focus, w) in enumerate(FOCUS[prop]):
        t = ctx.path(f'rand-{focus or "all"}.ndjson')
        harness(ctx, exe, 'cosig', '--seed', SEED * 100 + i, '--count', unit * w, '--len', 30, '--focus', focus, '--out', t,
                '--budget', 60 if QUICK else 240)
        traces.append(t)
        lap(os.path.basename(t))
    rej = validate(ctx, 'CosignerTrace.tla', 'CosignerTrace.cfg', prop, traces)
    lap('validate')
    report_rejected(ctx, f'{prop}: the cosigner did something the specification forbids', rej)
