"""The replicated store: C12."""
import json, random
from lib import *
from walks import edges_of, walks

BUGS = ['nodelete', 'retain', 'skip', 'merge', 'emptysnap', 'ahead', 'follower', 'keep']
WORKERS = 16


def covering(seqs, n):
    """Sequences that together have everything that n successive steps can be."""
    left = {s[i:i + k] for s in seqs for k in range(1, n + 1) for i in range(len(s) - k + 1)}
    res = []
    for s in seqs:
        mine = {s[i:i + k] for k in range(1, n + 1) for i in range(len(s) - k + 1)}
        if mine & left:
            left -= mine
            res.append(s)
    return res


def ops_of(seq, rnd):
    ops = []
    for op, at, i in seq:
        names = {'bulksnap': ['bulk', 'snap'], 'set': [rnd.choice(['set', 'set', 'set', 'burst', 'clear'])]}.get(op, [op])
        for x in names:
            ops.append({'op': x, 'at': at, 'i': i, 'k': rnd.randrange(5), 'v': rnd.randrange(5)})
        if op in ('set', 'del', 'setkill', 'start', 'cont') and rnd.random() < .5:
            ops.append({'op': 'get', 'at': rnd.choice('LF'), 'i': rnd.randrange(2), 'k': ops[-1]['k']})
    return ops


def random_ops(rnd, n):
    """Anything, in any order; few keys, so that operations meet."""
    ops = []
    kinds = ['set'] * 8 + ['get'] * 6 + ['del'] * 4 + ['clear', 'lss', 'burst', 'setkill', 'kill', 'kill', 'start', 'start', 'start', 'pause', 'cont', 'cont', 'snap', 'snap', 'transfer', 'settle']
    for _ in range(n):
        op = rnd.choice(kinds)
        at = {'start': 'D', 'cont': 'P', 'setkill': 'L', 'transfer': 'L', 'kill': rnd.choice('LFF'), 'get': rnd.choice('LF'),
              'pause': rnd.choice('LF'), 'snap': rnd.choice('LF')}.get(op, rnd.choice('LLLF'))
        ops.append({'op': op, 'at': at, 'i': rnd.randrange(4), 'k': rnd.randrange(rnd.choice([1, 2, 5])), 'v': rnd.choice([0, 0, 0, 1, 2, 3, 4])})
    return ops


def run(ctx, prop):
    exe = build_harness(ctx)
    # without snapshots the agreed operations are all that there is
    model_check(ctx, 'MCStore.tla', 'MCStore.cfg')
    if not QUICK:
        base = open(os.path.join(VERIF, 'spec', 'MCStore.cfg')).read()
        for b in BUGS:
            rc, o = tlc(ctx, 'MCStore.tla', 'bug.cfg', workers=CORES, heap='8g', extra={'bug.cfg': base.replace('Bug = ""', f'Bug = "{b}"')})
            if 'violated' not in o:
                raise CheckError(f'the model does not notice {b}')
        ctx.cov['store_model_bugs_noticed'] = BUGS
    out = model_check(ctx, 'MCStore.tla', 'MCStoreWalk.cfg')
    lap('model')
    rnd = random.Random(SEED)
    es = list({(e['s'], e['d'], json.dumps(e['o'])): e for e in edges_of(out)}.values())
    ws, missed = walks(es, 40)
    if missed:
        raise CheckError(f'{missed} steps of the model are in no walk')
    seqs = sorted({tuple((o['op'], o['at'], o['i']) for o in w if o['op'] != 'tau') for w in ws})
    rnd.shuffle(seqs)
    seqs.sort(key=len, reverse=True)
    light = [s for s in seqs if not any(x[0] == 'bulksnap' for x in s)]
    heavy = [s for s in seqs if any(x[0] == 'bulksnap' for x in s) and len(s) >= 4]
    light = covering(light, 2 if QUICK else 3)
    rnd.shuffle(heavy)
    scripts = []

    def script(n, t, ops):
        scripts.append({'n': n, 't': t, 'ops': ops})
    # somebody misses more than is kept, and gets a snapshot
    missing = [('del', 'kill'), ('del', 'pause'), ('clear', 'kill'), ('set', 'pause')]
    for i, (w, how) in enumerate(missing[:3] if QUICK else missing * 3):
        k = rnd.randrange(5)
        ops = [{'op': 'set', 'at': 'L', 'k': k, 'v': 0}, {'op': 'set', 'at': 'L', 'k': (k + 1) % 5, 'v': 3}, {'op': 'lss', 'at': 'L', 'v': 2},
               {'op': 'settle'}] + [{'op': 'snap', 'at': 'F', 'i': i}] * (how == 'kill') + [
               {'op': how, 'at': 'F', 'i': i}, {'op': w, 'at': 'L', 'k': k}] + [{'op': 'bulk', 'at': 'L'}] * (1 if how == 'kill' else 2) + [
               {'op': 'snap', 'at': 'L'}, {'op': 'set', 'at': 'L', 'k': (k + 2) % 5}, {'op': 'all'},
               {'op': 'kill', 'at': 'F', 'i': i}, {'op': 'del', 'at': 'L', 'k': (k + 1) % 5}, {'op': 'start', 'at': 'D'}, {'op': 'get', 'at': 'F', 'i': i, 'k': k}]
        script(3, 2, ops)
    # all stop, and then those that write are others than those that read
    for i in range(2 if QUICK else 6):
        ops = [{'op': 'set', 'at': 'L', 'k': 0}, {'op': 'settle'}]
        for j in range(6):
            ops += [{'op': 'transfer', 'at': 'L', 'i': j}, {'op': 'settle'}]
        ops += [{'op': 'set', 'at': 'L', 'k': 1}, {'op': 'settle'}, {'op': 'kill', 'at': 'F'}, {'op': 'kill', 'at': 'F'}, {'op': 'kill', 'at': 'L'}] + [{'op': 'kill', 'at': 'F'}] * 2
        if i % 2 == 0:      # the one that stays down has the end of the former log, and nothing of the new one
            ops += [{'op': 'start', 'at': 'D', 'i': i}] * 2 + [{'op': 'settle'}]
        else:
            ops += [{'op': 'start', 'at': 'D'}] * 3 + [{'op': 'settle'}, {'op': 'kill', 'at': 'F', 'i': i}]
        ops += [{'op': 'set', 'at': 'L', 'k': 0}, {'op': 'del', 'at': 'L', 'k': 1}, {'op': 'settle'}, {'op': 'kill', 'at': 'L'}, {'op': 'start', 'at': 'O'}, {'op': 'settle'},
                {'op': 'get', 'at': 'L', 'k': 0}, {'op': 'get', 'at': 'L', 'k': 1}, {'op': 'all'}]
        script(3, 2, ops)
    # written when most others are gone, by one that then goes, too: what it said was done is there
    for i in range(2 if QUICK else 6):
        ops = [{'op': 'set', 'at': 'L', 'k': 0}, {'op': 'settle'}] + [{'op': 'kill', 'at': 'F', 'i': i}] * 2 + [{'op': ['set', 'del'][i % 2], 'at': 'L', 'k': 0},
               {'op': 'kill', 'at': 'L'}, {'op': 'kill', 'at': 'F'}] + [{'op': 'start', 'at': 'O'}] * 2 + [{'op': 'settle'}, {'op': 'get', 'at': 'L', 'k': 0}, {'op': 'set', 'at': 'L', 'k': 1}, {'op': 'all'}]
        script(3, 2, ops)
    # deleted as soon as there is a leader again
    for i in range(2 if QUICK else 6):
        script(3, 2, ([{'op': 'set', 'at': 'L', 'k': 0}, {'op': 'set', 'at': 'L', 'k': 1}, {'op': 'settle'}, {'op': 'hasty', 'at': 'L', 'k': 0}, {'op': 'settle'}] * 4))
    # a snapshot of nothing
    for i in range(1 if QUICK else 3):
        script(3, 2, [{'op': 'set', 'at': 'L', 'k': 0}, {'op': 'set', 'at': 'L', 'k': 2, 'v': 3}, {'op': 'settle'}, {'op': 'pause', 'at': 'F', 'i': i}, {'op': 'bulkdel', 'at': 'L'},
                      {'op': 'del', 'at': 'L', 'k': 0}, {'op': 'del', 'at': 'L', 'k': 2}, {'op': 'bulkdel', 'at': 'L'}, {'op': 'snap', 'at': 'L'}, {'op': 'all'},
                      {'op': 'get', 'at': 'F', 'i': 0, 'k': 0}, {'op': 'get', 'at': 'F', 'i': 1, 'k': 2}, {'op': 'kill', 'at': 'F', 'i': i}, {'op': 'start', 'at': 'D'}])
    for s in heavy[:4 if QUICK else 120]:
        script(3, 2, ops_of(s, rnd))
    per = 10
    for i in range(0, len(light), per):
        ops = []
        for s in light[i:i + per]:
            ops += ops_of(s, rnd) + [{'op': 'all'}]
        script(3, 2, ops)
    for i in range(10 if QUICK else 200):
        n, t = rnd.choice([(2, 2), (3, 2), (3, 2), (3, 3), (5, 3)])
        script(n, t, random_ops(rnd, 40))
    ctx.cov['model_walks'] = {'all': len(seqs), 'replayed': len(light) + min(len(heavy), 4 if QUICK else 120)}

    def go(scripts, name, workers=WORKERS):
        p, t = ctx.path(name + '.scripts'), ctx.path(name + '.ndjson')
        with open(p, 'w') as f:
            for s in scripts:
                f.write(json.dumps(s) + '\n')
        harness(ctx, exe, 'store', '--seed', SEED, '--scripts', p, '--workers', workers, '--budget', 65 if QUICK else 500, '--out', t)
        lap(name)
        return t

    t = go(scripts, 'store')
    seen = {}
    for line in open(t):
        e = json.loads(line)
        k = ':'.join([e['e']] + [str(e[x]) for x in ('op', 'role', 'out') if x in e])
        seen[k] = seen.get(k, 0) + 1
    ctx.cov['events_seen'] = seen
    rej = validate(ctx, 'StoreTrace.tla', 'StoreTrace.cfg', prop, t)
    lap('validated')
    if rej:
        # what depends on how fast the sandbox is does not happen again
        at = {tuple(g): i for i, g in enumerate(tuple(x) for x in read_groups(t))}
        again = [scripts[at[tuple(g)]] for g, _ in rej]
        t2 = go(again * 4, 'again', workers=6)
        rej2 = validate(ctx, 'StoreTrace.tla', 'StoreTrace.cfg', prop, t2, keep=False)
        if rej2:
            report_rejected(ctx, 'C12: a member of the store holds what it should not, or does not answer as it should', rej2)
        else:
            ctx.cov['not_reproduced'] = [json.loads(g[i - 1]) for g, i in rej]
    if not ctx.violations and (not seen.get('write:set:leader:ok') or not any(k.startswith('settled') for k in seen)):
        raise CheckError(f'nothing was written: {seen}')
    if os.environ.get('VERIF_KEEP'):
        shutil.copy(t, os.environ['VERIF_KEEP'])
        shutil.copy(ctx.path('store.scripts'), os.environ['VERIF_KEEP'] + '.scripts')
