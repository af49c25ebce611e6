"""Coordinators and whole clusters: C01 C03 C04 C05 C06 C07 C08."""
import concurrent.futures, json, random
from lib import *
from walks import edges_of, walks

# random scripts per property: (focus, share of the budget)
FOCUS = {
    'C01': [('safety', 3), ('crash', 2), ('conc', 1), ('', 1)],
    'C03': [('crash', 2), ('', 1)],
    'C04': [('', 2), ('conc', 1)],
    'C05': [('bad', 4), ('', 1)],
    'C06': [('avail', 3), ('bad', 1), ('big', 0)],
    'C07': [('once', 3), ('conc', 3), ('stale', 1)],
    'C08': [('stale', 4), ('conc', 2)],
}
# ways of getting it wrong that the monitors must notice in the model
BUGS = ['keep2', 'voteany', 'contents', 'noini', 'oldagain', 'emptyok', 'waitsign', 'alone', 'nosave', 'resave', 'lssini']


def seq_script(ops, i):
    """A walk of the model with one request at a time."""
    out = []
    for o in ops:
        if o['op'] == 'call':
            p = o['p']
            q = {'c': 1, 'p': pay(p)}
            if o['absent']:
                q['faults'] = {'2': ['down', 'geterr'][i % 2]}
            out.append({'op': 'req', 'req': q})
        elif o['op'] == 'lss':
            out.append({'op': 'req', 'req': {'c': 1, 'p': pay(o['p']), 'lss': True}})
        elif o['op'] == 'restart':
            # a kill while a request is under way
            if o['busy'] and out and out[-1]['op'] == 'req' and not out[-1]['req'].get('lss'):
                out[-1]['req']['faults'] = {'1': ['crashget', 'crashgot', 'crashsign', 'crashsigned'][i % 4]}
            else:
                out.append({'op': 'restart', 'c': 1})
    return {'N': 2, 'T': 2, 'Ops': out}


def conc_script(ops, i):
    """A walk of the model with requests stopped on their way."""
    out, tag, tags = [], 0, {}
    went = set()
    for o in ops:
        if o['op'] == 'call':
            tag += 1
            tags[o['id']] = tag
            out.append({'op': 'open', 'tag': tag, 'req': {'c': 1, 'p': pay(o['p'])}})
        elif o['op'] in ('go', 'save') and o['id'] in tags:
            t = tags[o['id']]
            if (o['op'], t) not in went:
                went.add((o['op'], t))
                out.append({'op': o['op'], 'tag': t})
        elif o['op'] in ('lss', 'lsscall') and not o.get('conc'):
            out.append({'op': 'req', 'req': {'c': 1, 'p': pay(o['p']), 'lss': True}})
        elif o['op'] == 'restart':
            out.append({'op': 'restart', 'c': 1})
    return {'N': 2, 'T': 2, 'Ops': out}


def pay(p):
    return {'h': p['h'], 'r': p['r'], 's': p['s'], 't': p['t'], 'block': p['c']}


def walk_scripts(ctx, cfg, conv, limit, maxlen=60):
    out = model_check(ctx, 'MCCoordinator.tla', cfg, heap='6g')
    es = edges_of(out)
    ws, left = walks(es, maxlen)
    keys = {}
    for i, w in enumerate(ws):
        ops = [json.dumps(x, sort_keys=True) for x in conv(w, i)['Ops']]
        if ops:
            keys[tuple(ops)] = conv(w, i)
    # a script that begins another is covered by it
    order = sorted(keys)
    keep = [k for k, nxt in zip(order, order[1:] + [()]) if nxt[:len(k)] != k]
    total = len(keep)
    if total > limit:
        keep = random.Random(SEED).sample(keep, limit)
    ctx.cov.setdefault('edge_walks', []).append(
        {'config': cfg, 'edges': len(es), 'walks': len(ws), 'scripts': total, 'replayed': len(keep), 'uncovered': left})
    p = ctx.path('scripts.' + cfg)
    with open(p, 'w') as f:
        for k in keep:
            f.write(json.dumps(keys[k]) + '\n')
    return p


# ways in which a cluster could come to sign conflicting contents: (way, requests, restarts)
ATTACKS = [('never', 3, 2), ('perheight', 4, 2), ('content', 3, 1), ('older', 3, 1), ('fewer', 3, 1), ('hearcos', 4, 2)]


def attack_payload(k, c, i):
    """Key k with content c, in one of several ways to be the next key and another content."""
    p = {'h': 5, 'r': 1, 's': 2, 'block': 'A', 't': k}
    how = i % 5
    if how == 0:
        p['s'] = 1 + k
    elif how == 1:
        p['r'] = k
    elif how == 2:
        p['h'] = 5 + k
    elif how == 3:
        p['s'], p['r'] = 1, k
    else:
        p['s'] = k
    if c == 'B':
        other = (i // 5) % 4
        if other == 0:
            p['block'] = 'B'
        elif other == 1 and p['s'] != 1:
            p['block'] = ''
        elif other == 2:
            p['phash'] = 'x'
        else:
            p['ptot'] = 7
    if (i // 20) % 2:
        p['t'] = 3 + k + (c == 'B')
    return p


def attack_script(ops, i):
    out = []
    for o in ops:
        if o['op'] == 'restart':
            out.append({'op': 'restart', 'c': o['i']})
        elif o['op'] == 'hear':
            out.append({'op': 'hear', 'c': o['i'], 'req': {'c': o['i'], 'p': attack_payload(o['k'], o['c'], i)}})
        else:
            down = {str(j): 'down' for j in (1, 2, 3) if j != o['i'] and j not in o['q']}
            out.append({'op': 'req', 'req': {'c': o['i'], 'p': attack_payload(o['k'], o['c'], i), 'faults': down}})
    return {'N': 3, 'T': 2, 'Ops': out}


def attack_scripts(ctx, limit):
    """The ways in which wrong clusters of the model come to conflict, for the real one to be led the same way."""
    base = open(os.path.join(VERIF, 'spec', 'MCClusterAttack.cfg')).read()

    def one(a):
        bug, ops, stops = a
        cfg = base.replace('BUGNAME', bug).replace('MaxOps = 4', f'MaxOps = {ops}').replace('MaxStops = 2', f'MaxStops = {stops}')
        rc, out = tlc(ctx, 'MCCluster.tla', f'{bug}.cfg', workers=2, heap='3g', extra={f'{bug}.cfg': cfg}, timeout=600)
        if rc != 0:
            raise CheckError(f'attacks of {bug}:\n' + tail(out, 20))
        es = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in edges_of(out)})]
        if not es:
            raise CheckError(f'the model does not notice {bug}')
        return bug, es
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        found = list(pool.map(one, ATTACKS))
    p = ctx.path('scripts.attack')
    r = random.Random(SEED)
    with open(p, 'w') as f:
        for bug, es in found:
            keep = r.sample(es, min(limit, len(es)))
            ctx.cov.setdefault('attacks', []).append({'way': bug, 'found': len(es), 'replayed': len(keep)})
            for e in keep:
                f.write(json.dumps(attack_script(e, r.randrange(40))) + '\n')
    return p


def confirm(ctx, exe, prop, args, tries=2):
    """A rejection that depends on time must show again."""
    for k in range(tries):
        t = ctx.path(f'again{k}.ndjson')
        harness(ctx, exe, 'cluster', *args, '--out', t)
        if not validate(ctx, 'CoordinatorTrace.tla', 'CoordinatorTrace.cfg', prop, t, keep=False):
            return False
    return True


def run(ctx, prop):
    exe = build_harness(ctx)
    if not QUICK:
        for x in ('A', 'B', 'C', 'D', ''):
            model_check(ctx, 'MCCoordinator.tla', f'MCCoordinator{x}.cfg')
        vacuity(ctx)
    runs = []
    lap('build')
    w1 = walk_scripts(ctx, 'MCCoordinatorSeq.cfg', seq_script, 250 if QUICK else 4000)
    runs.append(('walk-seq', ['--count', 0, '--scripts', w1, '--workers', 96, '--budget', 60 if QUICK else 240]))
    if prop in ('C01', 'C05', 'C07', 'C08') or not QUICK:
        for cfg in ['MCCoordinatorConc.cfg', 'MCCoordinatorConcP.cfg'] + ([] if QUICK else ['MCCoordinatorConcBig.cfg']):
            w2 = walk_scripts(ctx, cfg, conc_script, 100 if QUICK else 3000)
            runs.append(('walk-' + cfg, ['--count', 0, '--scripts', w2, '--workers', 48, '--budget', 60 if QUICK else 240]))
    if prop == 'C01':
        if not QUICK:
            model_check(ctx, 'MCCluster.tla', 'MCCluster.cfg')
        w3 = attack_scripts(ctx, 40 if QUICK else 1500)
        runs.append(('attack', ['--count', 0, '--scripts', w3, '--workers', 96, '--budget', 60 if QUICK else 300]))
    lap('model')
    unit = 16 if QUICK else 160
    for i, (focus, w) in enumerate(FOCUS[prop]):
        if focus == 'big':
            runs.append(('rand-big', ['--seed', SEED * 1000 + i, '--count', 6 if QUICK else 60, '--len', 6 if QUICK else 20, '--focus', focus,
                                      '--workers', 6, '--budget', 60 if QUICK else 300]))
            continue
        runs.append(('rand-' + (focus or 'all'), ['--seed', SEED * 1000 + i, '--count', unit * w * (2 if focus == 'avail' else 1),
                                                  '--len', 12 if focus == 'avail' else 20, '--focus', focus, '--workers', 64,
                                                  '--budget', 60 if QUICK else 300]))
    origin = {}
    for name, args in runs:
        t = ctx.path(name + '.ndjson')
        harness(ctx, exe, 'cluster', *args, '--out', t)
        lap(name)
        origin[t] = (name, args)
    rej = validate(ctx, 'CoordinatorTrace.tla', 'CoordinatorTrace.cfg', prop, list(origin))
    lap('validate')
    done = set()
    for g, at in rej:
        name, args = origin[g.origin]
        if name in done:
            continue
        done.add(name)
        if confirm(ctx, exe, prop, args):
            report_rejected(ctx, f'{prop}: the cluster did something the specification forbids', [(g, at)])
            break
        ctx.cov.setdefault('not_reproduced', []).append({'run': name, 'event': json.loads(g[at - 1])})


def vacuity(ctx):
    """Each way of getting the coordinator wrong must be noticed in the model."""
    base = open(os.path.join(VERIF, 'spec', 'MCCoordinatorBug.cfg')).read()
    noticed = []
    for b in BUGS:
        rc, out = tlc(ctx, 'MCCoordinator.tla', 'bug.cfg', workers=CORES, extra={'bug.cfg': base.replace('BUGNAME', b)}, timeout=600)
        if 'violated' not in out:
            raise CheckError(f'the model does not notice {b}:\n' + tail(out, 20))
        noticed.append(b)
    ctx.cov['model_bugs_noticed'] = noticed
