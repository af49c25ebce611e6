"""Malformed messages between cosigners: the network side of C21."""
import json, random
from lib import *
from walks import edges_of, walks

BUGS = ['nil', 'length', 'serve', 'burn', 'early', 'stuck', 'unverified', 'wait', 'answer']


def run(ctx, prop):
    exe = build_harness(ctx)
    out = model_check(ctx, 'MCWire.tla', 'MCWire.cfg')
    if not QUICK:
        base = open(os.path.join(VERIF, 'spec', 'MCWire.cfg')).read().replace('Emit = TRUE', 'Emit = FALSE')
        for b in BUGS:
            rc, o = tlc(ctx, 'MCWire.tla', 'bug.cfg', workers=CORES, extra={'bug.cfg': base.replace('Bug = ""', f'Bug = "{b}"')})
            if 'violated' not in o:
                raise CheckError(f'the model does not notice {b}')
        ctx.cov['wire_model_bugs_noticed'] = BUGS
    es = edges_of(out)
    ws, left = walks(es, 60)
    scripts = []
    for w in ws:
        ops = []
        for o in w:
            ops.append({'op': o[0], 'what': o[1], 'how': o[2]})
        scripts.append({'ops': ops + [{'op': 'good', 'what': '', 'how': ''}]})
    ctx.cov.setdefault('edge_walks', []).append({'config': 'MCWire.cfg', 'edges': len(es), 'walks': len(ws), 'uncovered': left})
    if QUICK:
        # every message and answer followed by a good request, and some of what there is besides
        kinds = sorted({tuple(e['o']) for e in es})
        random.Random(SEED).shuffle(kinds)
        first = []
        for i in range(0, len(kinds), 8):
            first.append({'ops': [x for k in kinds[i:i + 8] for x in ({'op': k[0], 'what': k[1], 'how': k[2]}, {'op': 'good', 'what': '', 'how': ''})]})
        scripts = first + random.Random(SEED).sample(scripts, min(6, len(scripts)))
    p = ctx.path('scripts.wire')
    with open(p, 'w') as f:
        for k in range(1 if QUICK else 3):
            for s in scripts:
                f.write(json.dumps(s) + '\n')
    lap('model')
    args = ['wire', '--seed', SEED, '--scripts', p, '--workers', 24, '--budget', 60 if QUICK else 400]
    t = ctx.path('wire.ndjson')
    what = f'{prop}: a message between cosigners did something the specification forbids'

    def once(keep=True):
        died = harness_or_crash(ctx, exe, *args, '--out', t, timeout=900)
        if died:
            return died, []
        return '', validate(ctx, 'WireTrace.tla', 'WireTrace.cfg', prop, t, keep=keep)
    died, rej = once()
    lap('wire')
    if died or rej:
        died2, rej2 = once(keep=False)
        if died2:
            violation(ctx, f'{prop}: a message between cosigners crashes the process', {'run': [str(a) for a in args], 'panic': died2})
        elif rej2:
            report_rejected(ctx, what, rej2)
        else:
            ctx.cov.setdefault('not_reproduced', []).append({'run': 'wire', 'panic': died[:300], 'rejected': len(rej)})
