"""Connections to chain nodes and the guarded validator: C14 C15, the chain side of C21."""
import json, random
from lib import *
from walks import edges_of, walks

BUGS = ['nocheck', 'nolock', 'voteonly', 'twice', 'keeplock', 'shared', 'wrongkind', 'sigonerr', 'stale', 'mute']
BADV = ['nil', 'type0', 'type9', 'type32', 'hashlen', 'parthash']
BADP = ['nil', 'hashlen', 'parthash']
FOCUS = {
    'C14': [('conn', 4)],
    'C15': [('direct', 3), ('conn', 2)],
    'C21': [('real', 2), ('conn', 1)],
}


def script(ops, i, mode):
    out, t = [], 0
    for j, o in enumerate(ops):
        n = i * 5 + j
        if o['op'] == 'send':
            x = {'op': 'send', 'n': o['n'], 'k': o['k']}
            if o['k'] in ('vote', 'proposal'):
                t += 1
                x['p'] = {'h': 1 + t // 3, 'r': 0, 's': 2, 't': t, 'block': 'A'}
                if o['bad']:
                    b = BADV if o['k'] == 'vote' else BADP
                    x['bad'] = b[n % len(b)]
            out.append(x)
        elif o['op'] == 'down':
            out.append({'op': 'down', 'n': o['n']})
        elif o['op'] == 'exit':
            out.append({'op': 'exit', 'out': o['out']})
    return {'Mode': mode, 'Nodes': ['1', '2'], 'Gated': True, 'Ops': out}


def held():
    """The validator takes longer than anybody would think it does."""
    out = []
    for mode in ('direct', 'conn'):
        ops = [{'op': 'send', 'n': str(i + 1), 'k': k, 'p': {'h': 1 + i, 'r': 0, 's': 2, 't': i, 'block': 'A'}} for i, k in enumerate(['vote', 'proposal', 'pubkey', 'vote'])]
        ms = 12000 if QUICK else 70000
        out.append({'Mode': mode, 'Nodes': ['1', '2', '3', '4'], 'Gated': True,
                    'Ops': ops[:3] + [{'op': 'hold', 'ms': ms}, {'op': 'exit', 'out': 'ok'}, ops[3], {'op': 'exit', 'out': 'err'}, {'op': 'exit', 'out': 'ok'}]})
    return out


def walk_scripts(ctx, cfg, mode, limit):
    out = model_check(ctx, 'MCSession.tla', cfg, heap='6g')
    es = edges_of(out)
    ws, left = walks(es, 40)
    keys = {}
    for i, w in enumerate(ws):
        s = script(w, i, mode)
        ops = tuple(json.dumps(x, sort_keys=True) for x in s['Ops'])
        if ops:
            keys[ops] = s
    order = sorted(keys)
    keep = [k for k, nxt in zip(order, order[1:] + [()]) if nxt[:len(k)] != k]
    total = len(keep)
    if total > limit:
        keep = random.Random(SEED).sample(keep, limit)
    ctx.cov.setdefault('edge_walks', []).append(
        {'config': cfg, 'edges': len(es), 'walks': len(ws), 'scripts': total, 'replayed': len(keep), 'uncovered': left})
    p = ctx.path('scripts.' + cfg)
    with open(p, 'w') as f:
        for s in held():
            if s['Mode'] == mode:
                f.write(json.dumps(s) + '\n')
        for k in keep:
            f.write(json.dumps(keys[k]) + '\n')
    return p


def one_run(ctx, exe, prop, name, args):
    """Runs the driver; the process dying on its own is what C14, C15 and C21 all forbid."""
    t = ctx.path(name + '.ndjson')
    if os.path.exists(t):
        os.unlink(t)
    died = harness_or_crash(ctx, exe, 'session', *args, '--out', t)
    if died:
        with open(t, 'a') as f:
            f.write('\n' if os.path.getsize(t) and open(t, 'rb').read()[-1:] != b'\n' else '')
    return t, died


def run(ctx, prop):
    exe = build_harness(ctx)
    if not QUICK:
        for cfg in ('MCSession.cfg', 'MCSessionLive.cfg'):
            model_check(ctx, 'MCSession.tla', cfg)
        vacuity(ctx)
    runs = []
    if prop in ('C14', 'C15'):
        if prop == 'C15' or not QUICK:
            w = walk_scripts(ctx, 'MCGuardWalk.cfg', 'direct', 250 if QUICK else 5000)
            runs.append(('walk-guard', ['--count', 0, '--scripts', w, '--workers', 64, '--budget', 60 if QUICK else 240]))
        w = walk_scripts(ctx, 'MCSessionWalk.cfg', 'conn', 250 if QUICK else 5000)
        runs.append(('walk-conn', ['--count', 0, '--scripts', w, '--workers', 64, '--budget', 60 if QUICK else 240]))
    lap('model')
    unit = 30 if QUICK else 300
    for i, (focus, w) in enumerate(FOCUS[prop]):
        runs.append(('session-' + focus, ['--seed', SEED * 1000 + i, '--count', unit * w, '--len', 40, '--focus', focus,
                                          '--budget', 60 if QUICK else 240]))
    if prop == 'C15':
        pairs(ctx, exe)
    origin = {}
    for name, args in runs:
        t, died = one_run(ctx, exe, prop, name, args)
        lap(name)
        if died:
            t2, again = one_run(ctx, exe, prop, name, args)
            if again:
                violation(ctx, f'{prop}: the process crashed', {'run': [name] + [str(a) for a in args], 'panic': died})
                return
            ctx.cov.setdefault('not_reproduced', []).append({'run': name, 'panic': died[:300]})
            t = t2
        origin[t] = (name, args)
    rej = validate(ctx, 'SessionTrace.tla', 'SessionTrace.cfg', prop, list(origin))
    lap('validate')
    done = set()
    for g, at in rej:
        name, args = origin[g.origin]
        if name in done:
            continue
        done.add(name)
        again = False
        for k in range(2):
            t, died = one_run(ctx, exe, prop, 'again', args)
            again = died or validate(ctx, 'SessionTrace.tla', 'SessionTrace.cfg', prop, t, keep=False)
            if not again:
                break
        if again:
            report_rejected(ctx, f'{prop}: a connection or the guard did something the specification forbids', [(g, at)])
            break
        ctx.cov.setdefault('not_reproduced', []).append({'run': name, 'event': json.loads(g[at - 1])})


def pairs(ctx, exe):
    """The binary as a cosigner: what is asked over one connection waits for what is asked over the other."""
    env = {'VERIF_HORCRUX': build_horcrux(ctx), 'VERIF_SCRATCH': ctx.path('pairs.s')}
    os.makedirs(env['VERIF_SCRATCH'], exist_ok=True)
    rej = []
    for name in ('pairs', 'pairs-again'):
        t = ctx.path(name + '.ndjson')
        harness(ctx, exe, 'pairs', '--count', (1 if QUICK else 10) * (2 if rej else 1), '--out', t, env=env)
        ctx.cov['pairs_asked_of_the_binary'] = sum('"pair"' in x for x in open(t))
        lap(name)
        rej = validate(ctx, 'SessionTrace.tla', 'SessionTrace.cfg', 'C15', t, keep=not rej)
        if not rej:
            return
    report_rejected(ctx, 'C15: the validator of a running cosigner was called twice at a time', rej)


def vacuity(ctx):
    base = open(os.path.join(VERIF, 'spec', 'MCSession.cfg')).read()
    noticed = []
    for b in BUGS:
        rc, out = tlc(ctx, 'MCSession.tla', 'bug.cfg', workers=CORES, extra={'bug.cfg': base.replace('Bug = ""', f'Bug = "{b}"')}, timeout=600)
        if 'violated' not in out:
            raise CheckError(f'the model does not notice {b}:\n' + tail(out, 20))
        noticed.append(b)
    ctx.cov['session_model_bugs_noticed'] = noticed
