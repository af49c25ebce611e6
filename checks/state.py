"""Many threads that save to one sign state at once: the concurrent side of C04."""
from lib import *

BUGS = ['gap', 'equal', 'late', 'blind']


def run(ctx, prop):
    exe = build_harness(ctx)
    model_check(ctx, 'MCState.tla', 'MCState.cfg')
    lap('model')
    if not QUICK:
        vacuity(ctx)
    args = ['--seed', SEED * 1000, '--count', 100 if QUICK else 1600, '--len', 20, '--workers', 8, '--budget', 25 if QUICK else 200]
    t = ctx.path('state.ndjson')
    for k in range(2):
        died = harness_or_crash(ctx, exe, 'state', *args, '--out', t)
        if not died:
            break
    else:
        violation(ctx, f'{prop}: saves made at once crash the process', {'run': [str(a) for a in args], 'panic': died})
        return
    lap('storms')
    rej = validate(ctx, 'StateTrace.tla', 'StateTrace.cfg', prop, t)
    lap('validate')
    if rej:
        report_rejected(ctx, f'{prop}: saves made at once did something the specification forbids', rej)


def vacuity(ctx):
    base = open(os.path.join(VERIF, 'spec', 'MCState.cfg')).read()
    noticed = []
    for b in BUGS:
        cfg = base.replace('Bug = ""', f'Bug = "{b}"').replace('PROPERTY NeverDown', '').replace('NeverDown', '')
        rc, out = tlc(ctx, 'MCState.tla', 'bug.cfg', workers=CORES, extra={'bug.cfg': cfg}, timeout=600)
        if 'violated' not in out:
            raise CheckError(f'the model does not notice {b}:\n' + tail(out, 20))
        noticed.append(b)
    ctx.cov['state_model_bugs_noticed'] = noticed
