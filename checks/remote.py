"""A cosigner reached over the network: C23."""
import json
from lib import *
from walks import edges_of

BUGS = ['losekey', 'losebytes', 'otherop', 'stale', 'noerr', 'emptyok']


def run(ctx, prop):
    exe = build_harness(ctx)
    out = model_check(ctx, 'MCRemote.tla', 'MCRemote.cfg')
    if not QUICK:
        model_check(ctx, 'MCRemote.tla', 'MCRemoteBig.cfg')
        base = open(os.path.join(VERIF, 'spec', 'MCRemote.cfg')).read().replace('Emit = TRUE', 'Emit = FALSE')
        for b in BUGS:
            rc, o = tlc(ctx, 'MCRemote.tla', 'bug.cfg', workers=CORES, extra={'bug.cfg': base.replace('Bug = ""', f'Bug = "{b}"')})
            if 'violated' not in o:
                raise CheckError(f'the model does not notice {b}')
        ctx.cov['remote_model_bugs_noticed'] = BUGS
    # what can be asked in the model: operation, fate of the request, others at the same time
    kinds = sorted({(e['o']['op'], e['o']['fate'], e['o']['with'], e['o']['k'], e['o']['x']) for e in edges_of(out)})
    scripts, cur = [], []
    for i, (op, fate, w, k, x) in enumerate(kinds):
        cur.append({'op': op, 'fate': fate, 'with': w, 'val': i + SEED})
        if len(cur) == 8 or i == len(kinds) - 1:
            scripts.append({'ops': cur})
            cur = []
    p = ctx.path('scripts')
    with open(p, 'w') as f:
        for s in scripts:
            f.write(json.dumps(s) + '\n')
    wire = ['remote', '--seed', SEED, '--scripts', p, '--count', 40 if QUICK else 2000, '--len', 40, '--workers', 48, '--budget', 60 if QUICK else 300]
    runs = [('wire', wire, 'RemoteTrace'), ('pairs', ['remote', '--focus', 'pairs', '--seed', SEED, '--count', 12 if QUICK else 200, '--len', 1,
                                                      '--workers', 8, '--budget', 60], 'RemoteTrace')]
    unit = 10 if QUICK else 200
    for i, (focus, w) in enumerate([('', 4), ('parts', 3), ('nonce', 2), ('malformed', 3), ('conc', 2)]):
        runs.append(('whole-' + (focus or 'all'), ['cosig', '--remote', '--seed', SEED * 100 + i, '--count', unit * w, '--len', 30, '--focus', focus,
                                                   '--budget', 40 if QUICK else 240], 'CosignerTrace'))
    lap('model')

    def go(name, args, spec, keep=True):
        t = ctx.path(name + ('' if keep else '-again') + '.ndjson')
        said = harness_or_crash(ctx, exe, *args, '--out', t)
        lap(name)
        if said:
            return [said]
        seen = ctx.cov.setdefault('events_seen', {})
        for line in open(t) if keep else []:
            e = json.loads(line)
            k = e['e'] + (':' + e['fate'] if 'fate' in e else '') + (':' + e['out'] if 'out' in e else '')
            seen[k] = seen.get(k, 0) + 1
        return validate(ctx, spec + '.tla', spec + '.cfg', prop, t, keep=keep)

    what = 'C23: a cosigner behaves differently over the network'
    for name, args, spec in runs:
        rej = go(name, args, spec)
        lap('validated')
        if not rej:
            continue
        # answers have to come in time: what is slow only once is not a violation
        again = go(name, args, spec, keep=False)
        if again and '--remote' in args and not isinstance(again[0], str):
            if go(name + '-direct', [a for a in args if a != '--remote'], spec, keep=False):
                ctx.cov.setdefault('also_without_network', []).append({'run': name, 'event': json.loads(rej[0][0][rej[0][1] - 1])})
                continue
        if again:
            if isinstance(rej[0], str):
                violation(ctx, what + ' (it crashed)', {'said': rej[0]})
            else:
                report_rejected(ctx, what, rej)
            break
        ctx.cov.setdefault('not_reproduced', []).append({'run': name, 'event': rej[0] if isinstance(rej[0], str) else json.loads(rej[0][0][rej[0][1] - 1])})
    if not ctx.violations and not ctx.cov['events_seen'].get('sign:share'):
        raise CheckError(f"no shares: {ctx.cov['events_seen']}")
