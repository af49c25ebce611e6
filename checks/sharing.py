"""Sharding a validator key: C16."""
import json, random
from lib import *
from walks import edges_of

BUGS = ['short', 'long', 'constant', 'fromzero', 'twins', 'anything']


def run(ctx, prop):
    exe = build_harness(ctx)
    env = {'VERIF_HORCRUX': build_horcrux(ctx)}
    out = model_check(ctx, 'MCSharing.tla', 'MCSharingQ.cfg' if QUICK else 'MCSharing.cfg')
    if not QUICK:
        base = open(os.path.join(VERIF, 'spec', 'MCSharingQ.cfg')).read()
        for b in BUGS:
            rc, o = tlc(ctx, 'MCSharing.tla', 'bug.cfg', workers=CORES, extra={'bug.cfg': base.replace('Bug = ""', f'Bug = "{b}"')})
            if 'violated' not in o:
                raise CheckError(f'the model does not notice {b}')
        ctx.cov['sharing_model_bugs_noticed'] = BUGS
    deals = sorted({(e['o']['t'], e['o']['n']) for e in edges_of(out)})
    r = random.Random(SEED)
    S = lambda t, n, subs=3, twice=False: {'t': str(t), 'n': str(n), 'subs': subs, 'twice': twice}
    scripts = [S(t, n, 4) for t, n in deals] + [S(2, 3, 3, True), S(6, 9), S(8, 13)]
    # numbers that are out of range, or none
    scripts += [S(t, n) for t, n in ((257, 2), (2, 258), (256, 3), (2, 256), (258, 3), (-1, 2), (2, -254), (-254, 3), (1, -1), (4, 3), (9, 5),
                                     (65538, 3), (2, 65539), (4294967298, 3), (2, 4294967299), ('', 3), (2, ''), ('2x', 3), (2, '0x3'), ('18446744073709551618', 3), (2, '18446744073709551619'))]
    if not QUICK:
        scripts += [S(t, n, 6, True) for t, n in ((3, 5), (5, 5), (4, 7), (7, 8), (2, 12), (12, 12), (11, 20), (30, 40))]
        for _ in range(30):
            n = r.randint(2, 14)
            scripts.append(S(r.randint(1, n), n, 5))
        scripts += [S(128, 255, 2), S(255, 255, 1)]
    r.shuffle(scripts)
    # the long ones first
    scripts.sort(key=lambda s: -int(s['n']) if s['n'].isdigit() and len(s['n']) < 3 else 0)
    p = ctx.path('scripts')
    with open(p, 'w') as f:
        for s in scripts:
            f.write(json.dumps(s) + '\n')
    lap('model')
    t = ctx.path('sharing.ndjson')
    harness(ctx, exe, 'sharing', '--seed', SEED, '--scripts', p, '--workers', 8, '--budget', 240 if QUICK else 1500, '--out', t, env=env)
    lap('run')
    seen = {}
    for line in open(t):
        e = json.loads(line)
        k = e['e'] + ('-refused' if e.get('ok') is False else '') + ('+sig' if e.get('signs') else '')
        seen[k] = seen.get(k, 0) + 1
    ctx.cov['events_seen'] = seen
    ctx.cov['shardings'] = len(scripts)
    rej = validate(ctx, 'SharingTrace.tla', 'SharingTrace.cfg', prop, [t])
    lap('validate')
    report_rejected(ctx, 'C16: shares of a validator key are not what they have to be', rej)
    ctx.assumptions.append('interpolation and signature verification of the harness are the oracle; randomness is judged only by repetition')
