"""The operator's commands: C17 C18."""
import base64, hashlib, json, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import *
from walks import edges_of, walks

BUGS = ['overwrite', 'initzero', 'badnode', 'replace', 'emptied', 'errwrites', 'anyshares', 'clobber', 'half', 'pvonly', 'lower', 'quiet', 'setone', 'movefirst', 'moveafter', 'tear', 'errleaves']

GOOD = ['tcp://10.168.0.1:1234', 'tcp://10.168.0.2:1234', 'tcp://node-b:26659', 'tcp://localhost:1', 'tcp://[::1]:1234', 'unix:///run/x.sock']
BAD = ['://10.168.0.1:1234', 'tcp://host:port', 'tcp://a b:1', 'tcp://%zz:1', 'tcp://[::1:12', ':foo', 'tcp://x\x7f:1']
LISTEN = ['tcp://10.168.1.1:2222', 'tcp://me:2222']
BADLISTEN = ['', 'tcp://0.0.0.0:2222', 'tcp://me', '://me:2222']
TIMEOUT = ['1500ms', '1s', '1.5m']
BADTIMEOUT = ['soon', '', '15']
# names in the model
MODEL = {'A': GOOD[0], 'B': GOOD[1], 'C': GOOD[2], 'X': BAD[0]}
MADDR = {'p': 'tcp://p:2222', 'q': 'tcp://q:2222'}


def node(a):
    return {'a': a, 'wf': a in GOOD}


class Home:
    """A scratch home directory and the commands on it."""

    def __init__(self, exe, base, how, running=False):
        self.exe, self.base, self.how, self.running = exe, base, how, running
        os.makedirs(base)
        self.home = os.path.join(base, 'h') if how == 'flag' else os.path.join(base, '.horcrux')
        self.events = [{'e': 'reset'}]
        self.conf = os.path.join(self.home, 'config.yaml')

    def raw(self):
        try:
            return open(self.conf, 'rb').read()
        except OSError:
            return None

    def cfg(self):
        b = self.raw()
        if b is None:
            return {'has': False}
        bad = {'has': True, 'ok': False, 'chain': '', 'home': '', 'key': '', 'cos': False, 'thr': 0, 'shares': 0, 'listen': '', 'timeout': '',
               'peers': [], 'nodes': []}
        try:
            y = parse_yaml(b.decode())
            c = y.get('cosigner') or {}
            return {'has': True, 'ok': True, 'chain': y.get('chain-id', ''), 'home': 'h' if y.get('home-dir') == self.home else str(y.get('home-dir')),
                    'key': y.get('key-file', '') or '', 'cos': 'cosigner' in y, 'thr': int(c.get('threshold', 0)), 'shares': int(c.get('shares', 0)),
                    'listen': c.get('p2p-listen', ''), 'timeout': c.get('rpc-timeout', ''),
                    'peers': [{'id': int(p['share-id']), 'addr': p['p2p-addr']} for p in c.get('peers') or []],
                    'nodes': [node(n['priv-val-addr']) for n in y.get('chain-nodes') or []]}
        except Exception:
            return bad

    def states(self):
        out, d = [], os.path.join(self.home, 'state')
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            for suffix, kind in (('_priv_validator_state.json', 'pv'), ('_share_sign_state.json', 'share')):
                if f.endswith(suffix):
                    out.append(dict(read_state(os.path.join(d, f)), chain=f[:-len(suffix)], kind=kind))
        return out

    def others(self):
        out = {}
        for r, _, fs in os.walk(self.home):
            for f in fs:
                p = os.path.join(r, f)
                if p != self.conf and not f.endswith(('_priv_validator_state.json', '_share_sign_state.json')):
                    out[p] = open(p, 'rb').read()
        return out

    def cmd(self, name, args, argv, cut=None):
        before, others = self.raw(), self.others()
        env = {'PATH': os.environ.get('PATH', ''), 'HOME': self.base if self.how != 'flag' else os.path.join(self.base, 'nowhere')}
        full = [self.exe] + (['--home', self.home] if self.how == 'flag' else []) + argv
        if cut:     # the n-th such call of the system kills the command, or fails
            calls, n, how = cut
            what = 'signal=KILL' if how == 'kill' else 'error=ENOSPC'
            full = ['strace', '-f', '-qq', '-o', os.path.join(self.base, 'strace.out'), '-e', 'trace=' + calls, '-e', f'inject={calls}:{what}:when={n}'] + full
        r = subprocess.run(full, env=env, cwd=self.base, capture_output=True, timeout=120)
        fault = ''
        if cut and ('+++ killed' if how == 'kill' else '(INJECTED)') in open(os.path.join(self.base, 'strace.out'), errors='replace').read():
            fault = how
        self.events.append({'e': 'cmd', 'cmd': name, 'args': args, 'ok': r.returncode == 0, 'same': self.raw() == before, 'other': self.others() == others,
                            'running': self.running, 'fault': fault, 'cfg': self.cfg(), 'st': self.states(), 'argv': argv})

    def seed(self, chain, kind, form, hrs, rnd):
        d = os.path.join(self.home, 'state')
        if not os.path.isdir(d):
            return
        p = os.path.join(d, chain + {'pv': '_priv_validator_state.json', 'share': '_share_sign_state.json'}[kind])
        write_state(p, form, hrs, rnd)
        self.events.append({'e': 'seed', 'st': self.states()})

    def do(self, op, rnd):
        a, o = op.get('args', {}), op['op']
        if o == 'seed':
            for x in op['st']:
                self.seed(x['chain'], x['kind'], x['f'], (x['h'], x['r'], x['s']), rnd)
            return
        if o == 'mark':
            if os.path.isdir(self.home):
                open(os.path.join(self.home, 'share.json'), 'w').write('{"x":1}')
            return
        argv = {
            'nodes-add': lambda: ['config', 'nodes', 'add', ','.join(n['a'] for n in a['nodes'])],
            'nodes-remove': lambda: ['config', 'nodes', 'remove', ','.join(n['a'] for n in a['nodes'])],
            'peers-add': lambda: ['config', 'peers', 'add', a.get('raw') or ','.join(f"{p['addr']}|{p['id']}" for p in a['peers'])],
            'peers-remove': lambda: ['config', 'peers', 'remove', a.get('raw') or ','.join(str(i) for i in a['ids'])],
            'set-shares': lambda: ['config', 'peers', 'set-shares', '--', a.get('raw') or str(a['n'])],
            'chain-set': lambda: ['config', 'chain-id', 'set', '--', a['chain']],
            'state-set': lambda: ['state', 'set', '--', a.get('raw') or str(a['h'])],
            'state-show': lambda: ['state', 'show'],
            'init': lambda: init_argv(a),
        }[o]()
        self.cmd(o, a, argv, op.get('cut'))


def init_argv(a):
    v = ['config', 'init']
    if a['cos']:
        v += ['-c', '-t', str(a['thr']), '-l', a['listen'], '--timeout', a['timeout']]
        v += ['-p', a.get('raw') or ','.join(f"{p['addr']}|{p['id']}" for p in a['peers'])]
    if a['key']:
        v += ['-k', a['key']]
    if a['over']:
        v += ['-o']
    v += ['--', a['chain']]
    if a['nodes']:
        v += [','.join(n['a'] for n in a['nodes'])]
    return v


def parse_yaml(s):
    import yaml
    return yaml.safe_load(s)


def read_state(p):
    b = open(p, 'rb').read()
    try:
        j = json.loads(b)
        h = int(j['height'])
        form = 'pv' if isinstance(j['round'], int) else 'cos'
        c = '|'.join(str(j.get(k) or '') for k in ('signature', 'signbytes', 'ephemeral_public'))
        return {'f': form, 'h': h, 'r': int(j['round']), 's': int(j['step']), 'c': '' if c == '||' else hashlib.sha256(c.encode()).hexdigest()[:12]}
    except Exception:
        return {'f': 'bad', 'h': -1, 'r': 0, 's': 0, 'c': hashlib.sha256(b).hexdigest()[:12]}


def write_state(p, form, hrs, rnd):
    h, r, s = hrs
    if form == 'bad':
        open(p, 'w').write(rnd.choice(['', '{"height": "5", "ro', 'garbage', '[1,2]', '{"height": {}}']))
        return
    j = {'height': str(h), 'round': str(r) if form == 'cos' else r, 'step': s}
    if form == 'cos':
        j['ephemeral_public'] = base64.b64encode(rnd.randbytes(32)).decode()
    j['signature'] = base64.b64encode(rnd.randbytes(64)).decode()
    j['signbytes'] = rnd.randbytes(40).hex().upper()
    open(p, 'w').write(json.dumps(j, indent=2))


def ranked(events):
    """Heights as ranks."""
    hs = set()
    for e in events:
        for x in e.get('st', []):
            hs.add(x['h'])
        if 'h' in e.get('args', {}):
            hs.add(e['args']['h'])
    pos = sorted(h for h in hs if h > 0)
    m = {h: i + 1 for i, h in enumerate(pos)}
    f = lambda h: m.get(h, 0 if h == 0 else -2 if h < -1 else -1)
    for e in events:
        for x in e.get('st', []):
            x['h'] = f(x['h'])
        if 'h' in e.get('args', {}):
            e['args'] = dict(e['args'], h=f(e['args']['h']))  # scripts share them
    return events


# ---------------------------------------------------------------- scripts

def of_model(w):
    out = []
    for i, o in enumerate(w):
        if o['op'] == 'seed':
            out.append({'op': 'seed', 'st': [dict(x) for x in o['st'] if x['c'] != '']})
            continue
        a = json.loads(json.dumps(o['args']))
        if 'nodes' in a:
            a['nodes'] = [node(MODEL[n['a']]) for n in a['nodes']]
        if 'peers' in a:
            a['peers'] = [{'id': p['id'], 'addr': MADDR[p['addr']]} for p in a['peers']]
        if o['op'] == 'init':
            a['listen'], a['timeout'] = LISTEN[0], TIMEOUT[0]
        out.append({'op': o['op'], 'args': a})
        if o['op'] == 'init' and i == 0:
            out.append({'op': 'mark'})
    return out


def walk_scripts(ctx, cfg, limit):
    out = model_check(ctx, 'MCOperator.tla', cfg, heap='6g')
    es = edges_of(out)
    ws, left = walks(es, 60)
    ws = [of_model(w) for w in ws]
    total = sum(map(len, ws))
    random.Random(SEED).shuffle(ws)
    keep, n = [], 0
    for w in ws:
        if n and n + len(w) > limit:
            continue
        keep.append(w)
        n += len(w)
    ctx.cov.setdefault('edge_walks', []).append({'config': cfg, 'edges': len(es), 'walks': len(ws), 'commands': total, 'replayed_commands': n, 'uncovered': left})
    return keep


def gen(r, focus, length):
    out = []
    chains = ['c1', 'c2', 'cosmoshub-4']

    def nodes():
        k = r.choice([1, 1, 1, 2, 2, 3])
        ns = [r.choice(GOOD) for _ in range(k)]
        if r.random() < 0.2:
            ns[r.randrange(k)] = r.choice(BAD)
        return [node(a) for a in ns]

    def peers(k, top=5):
        return [{'id': r.choice(range(1, top + 1)), 'addr': r.choice(['tcp://p%d:2222' % i for i in range(1, 4)])} for _ in range(k)]

    def twice(ps):
        # one of them once more
        return ps + [dict(r.choice(ps))] if ps and r.random() < .12 else ps

    def init():
        n = r.choice([1, 2, 2, 3, 3, 4])
        ids = list(range(1, n + 2))
        r.shuffle(ids)
        ps = [{'id': i, 'addr': f'tcp://p{i}:2222'} for i in ids[:n]]
        if r.random() < 0.15:
            ps = peers(n)
        ps = twice(ps)
        a = {'over': r.random() < 0.5, 'cos': r.random() < 0.75, 'chain': r.choice(chains), 'nodes': nodes(), 'peers': ps, 'pwf': True,
             'lwf': True, 'twf': True, 'thr': r.choice([2, 2, 2, 1, 3, 5]), 'listen': r.choice(LISTEN), 'timeout': r.choice(TIMEOUT), 'home': 'h',
             'key': r.choice(['', '', '/keys/share.json'])}
        if a['cos']:
            x = r.random()
            if x < 0.06:
                a['pwf'], a['raw'] = False, r.choice(['tcp://p2:2222', 'a|b|3', 'tcp://p2:2222|x', '|'])
            elif x < 0.1:
                a['lwf'], a['listen'] = False, r.choice(BADLISTEN)
            elif x < 0.14:
                a['twf'], a['timeout'] = False, r.choice(BADTIMEOUT)
            if r.random() < 0.1:
                a['nodes'] = []
        else:
            a['peers'], a['thr'], a['listen'], a['timeout'] = [], 0, '', ''
        return {'op': 'init', 'args': a}

    heights = [1, 2, 5, 17, 1000, 2**31, 2**53, 2**62]

    def seed():
        kind = r.choice(['pv', 'share'])
        form = r.choice(['cos', 'cos', 'cos', 'cos', 'bad'] + (['pv', 'pv'] if kind == 'pv' else []))
        return {'op': 'seed', 'st': [{'chain': r.choice(chains), 'kind': kind, 'f': form, 'h': r.choice(heights), 'r': r.choice([0, 0, 1, 7]), 's': r.choice([1, 2, 3])}]}

    out.append(init())
    out.append({'op': 'mark'})
    while len(out) < length:
        x = r.random()
        if x < 0.08:
            out.append(init())
        elif focus == 'state':
            y = r.random()
            if y < 0.3:
                out.append(seed())
            elif y < 0.6:
                h = r.choice(heights) + r.choice([0, 0, 1, -1])
                a = {'h': h}
                if r.random() < 0.1:
                    a = {'h': -1, 'raw': r.choice(['x', '', '1.5', '9223372036854775808', '0x10', '-'])} if r.random() < 0.7 else {'h': r.choice([0, -5])}
                out.append({'op': 'state-set', 'args': a})
            elif y < 0.8:
                out.append({'op': 'chain-set', 'args': {'chain': r.choice(chains + [''])}})
            elif y < 0.9:
                out.append({'op': 'state-show', 'args': {}})
            else:
                out.append({'op': 'nodes-add', 'args': {'nodes': nodes()}})
        else:
            y = r.random()
            if y < 0.25:
                out.append({'op': 'nodes-add', 'args': {'nodes': nodes()}})
            elif y < 0.45:
                out.append({'op': 'nodes-remove', 'args': {'nodes': nodes()}})
            elif y < 0.65:
                a = {'peers': twice(peers(r.choice([1, 1, 2, 3]))), 'pwf': True}
                if r.random() < 0.1:
                    a = {'peers': [], 'pwf': False, 'raw': r.choice(['tcp://p2:2222', 'a|b|3', 'tcp://p2:2222|x', 'p|99999999999999999999', '|'])}
                elif r.random() < 0.1:
                    a['peers'][-1]['id'] = r.choice([0, -1, 9, 100])
                out.append({'op': 'peers-add', 'args': a})
            elif y < 0.8:
                a = {'ids': [r.choice([1, 2, 3, 4, 5, 9]) for _ in range(r.choice([1, 1, 2, 3]))], 'wf': True}
                if r.random() < 0.1:
                    a = {'ids': [], 'wf': False, 'raw': r.choice(['x', 'a,2', '2,', '1.5'])}
                out.append({'op': 'peers-remove', 'args': a})
            elif y < 0.92:
                a = {'n': r.choice([0, 1, 2, 3, 4, 5, 6, 9]), 'wf': True}
                if r.random() < 0.1:
                    a = {'n': 0, 'wf': False, 'raw': r.choice(['x', '', '3.5', '99999999999999999999'])}
                elif r.random() < 0.1:
                    a['n'] = -3
                out.append({'op': 'set-shares', 'args': a})
            elif y < 0.96:
                out.append({'op': 'chain-set', 'args': {'chain': r.choice(chains + [''])}})
            else:
                out.append({'op': 'state-show', 'args': {}})
    return out


# calls that change files
CALLS = '?rename,?renameat,?renameat2', 'write', '?unlink,?unlinkat,?link,?linkat', '?mkdir,?mkdirat,fsync,fdatasync,fchmod,ftruncate,?truncate'


def cut_scripts(r, prop):
    """Every command, killed or failed by the system at each of its steps, then made again."""
    chain, peers = 'c1', [{'id': 2, 'addr': 'tcp://p2:2222'}, {'id': 3, 'addr': 'tcp://p3:2222'}]

    def init(cos, over=False, chain=chain, nodes=1):
        a = {'over': over, 'cos': cos, 'chain': chain, 'nodes': [node(x) for x in GOOD[:nodes]], 'peers': peers if cos else [], 'pwf': True, 'lwf': True, 'twf': True,
             'thr': 2 if cos else 0, 'listen': LISTEN[0] if cos else '', 'timeout': TIMEOUT[0] if cos else '', 'home': 'h', 'key': ''}
        return {'op': 'init', 'args': a}

    def marks(cos):
        return {'op': 'seed', 'st': [{'chain': chain, 'kind': k, 'f': 'cos' if cos or r.random() < .5 else 'pv', 'h': 17, 'r': 1, 's': 2}
                                     for k in (['pv', 'share'] if cos else ['pv'])]}
    cases = []      # what is there before, the command, what follows
    for cos in (True, False):
        ready = [init(cos), marks(cos)]
        show = [{'op': 'state-show', 'args': {}}]
        cases.append((ready, {'op': 'chain-set', 'args': {'chain': 'c2'}}, [{'op': 'chain-set', 'args': {'chain': 'c3'}}] + show))
        cases.append((ready, {'op': 'chain-set', 'args': {'chain': chain}}, show))
        cases.append((ready, init(cos, True, nodes=2), []))
        if prop == 'C18':
            cases.append((ready, init(cos, True, chain='c2'), []))
            cases.append(([], init(cos), []))
            if cos:
                cases.append((ready, {'op': 'state-set', 'args': {'h': 18}}, [{'op': 'state-set', 'args': {'h': 19}}] + show))
        else:
            cases.append(([], init(cos), []))
            cases.append((ready, {'op': 'nodes-add', 'args': {'nodes': [node(GOOD[2])]}}, []))
            if cos:
                cases.append((ready, {'op': 'peers-remove', 'args': {'ids': [3], 'wf': True}}, []))
                cases.append((ready, {'op': 'set-shares', 'args': {'n': 5, 'wf': True}}, [{'op': 'peers-add', 'args': {'peers': [{'id': 5, 'addr': 'tcp://p5:2222'}], 'pwf': True}}]))
            else:
                cases.append((ready + [{'op': 'nodes-add', 'args': {'nodes': [node(GOOD[3])]}}], {'op': 'nodes-remove', 'args': {'nodes': [node(GOOD[0])]}}, []))
    out = []
    for before, op, after in cases:
        for calls in CALLS:
            for how in ('kill', 'error'):
                for n in range(1, 4 if QUICK else 9):
                    again = [] if op['op'] == 'init' else [op]
                    out.append(before + [dict(op, cut=[calls, n, how])] + again + after)
    return out


def can_cut(ctx):
    p = ctx.path('probe')
    try:
        r = subprocess.run(['strace', '-f', '-qq', '-o', p, '-e', 'trace=write', '-e', 'inject=write:signal=KILL:when=1', 'echo', 'x'], capture_output=True, timeout=60)
        return r.returncode != 0 and b'x' not in r.stdout
    except Exception:
        return False


CHAINS = ['Osmo-1', 'C1', 'c1', 'cosmoshub-4', 'test_net.9', 'evmos_9001-2', 'Localnet-A', 'localnet-a', '9001', 'a' * 60 + '-1']


def named(script, r):
    """The chains of a script have names of all kinds."""
    names, pool = {'': ''}, r.sample(CHAINS, len(CHAINS))

    def name(c):
        if c not in names:
            names[c] = pool.pop() if pool else c
        return names[c]
    out = []
    for o in script:
        o = dict(o)
        if 'chain' in o.get('args', {}):
            o['args'] = dict(o['args'], chain=name(o['args']['chain']))
        if 'st' in o:
            o['st'] = [dict(x, chain=name(x['chain'])) for x in o['st']]
        out.append(o)
    return out


def perform(ctx, exe, scripts, name, running=False, workers=CORES):
    t = ctx.path(name + '.ndjson')

    def one(i):
        r = random.Random(SEED * 100000 + i)
        base = ctx.path(f'{name}-{i}')
        h = Home(exe, base, ['flag', 'env'][i % 2], running)
        for op in named(scripts[i], r):
            h.do(op, r)
        shutil.rmtree(base, ignore_errors=True)
        return ''.join(json.dumps(e, separators=(',', ':')) + '\n' for e in ranked(h.events))

    with ThreadPoolExecutor(workers) as ex, open(t, 'w') as f:
        for s in ex.map(one, range(len(scripts))):
            f.write(s)
    return t


def horcrux_runs():
    """Is some process called horcrux running that is none of ours? state set refuses then."""
    return subprocess.run(['pgrep', 'horcrux'], capture_output=True).returncode == 0


def run(ctx, prop):
    real = build_horcrux(ctx)
    exe = ctx.path('hcx')  # state set looks for processes called horcrux: ours must not see each other
    shutil.copy(real, exe)
    if not QUICK:
        for cfg in ('MCOperatorCfg.cfg', 'MCOperator.cfg', 'MCOperatorCut.cfg'):
            model_check(ctx, 'MCOperator.tla', cfg)
        vacuity(ctx)
    scripts = []
    lap('build')
    for cfg in {'C17': ['MCOperatorNodes.cfg', 'MCOperatorPeers.cfg'], 'C18': ['MCOperatorState.cfg']}[prop]:
        scripts += walk_scripts(ctx, cfg, 1500 if QUICK else 40000)
    lap('model')
    n = 60 if QUICK else 1500
    focus = {'C17': 'cfg', 'C18': 'state'}[prop]
    busy = horcrux_runs()
    scripts += [gen(random.Random(SEED * 7919 + i), focus, 30) for i in range(n)]
    traces = [perform(ctx, exe, scripts, 'commands', busy)]
    lap('commands')
    if can_cut(ctx):
        cuts = cut_scripts(random.Random(SEED), prop)
        traces.append(perform(ctx, exe, cuts, 'cut', busy))
        hit = {}
        for e in map(json.loads, open(traces[-1])):
            if e.get('fault'):
                hit[e['fault']] = hit.get(e['fault'], 0) + 1
        ctx.cov['commands_cut'] = {'scripts': len(cuts), 'cut': hit}
        lap('cut')
    else:
        ctx.cov['commands_cut'] = 'strace cannot be used here'
    if prop == 'C18' and not busy:
        # with the binary under its own name, one command at a time, and while a signer runs
        few = [gen(random.Random(SEED * 7919 + n + i), focus, 25) for i in range(4 if QUICK else 40)]
        traces.append(perform(ctx, real, few, 'named', workers=1))
        fake = ctx.path('fake', 'horcrux')
        os.makedirs(os.path.dirname(fake))
        shutil.copy(shutil.which('sleep'), fake)
        p = subprocess.Popen([fake, '600'])
        try:
            traces.append(perform(ctx, real, [gen(random.Random(SEED * 31 + i), focus, 25) for i in range(2 if QUICK else 10)], 'running', True, workers=1))
        finally:
            p.kill()
            p.wait()
        lap('named')
    rej = validate(ctx, 'OperatorTrace.tla', 'OperatorTrace.cfg', prop, traces)
    lap('validate')
    report_rejected(ctx, f'{prop}: a command did something the specification forbids', rej)


def vacuity(ctx):
    noticed = []
    for b in BUGS:
        for c in ('MCOperatorNodes', 'MCOperatorPeers', 'MCOperatorState', 'MCOperatorCut'):
            base = open(os.path.join(VERIF, 'spec', c + '.cfg')).read()
            base = base.replace('Bug = ""', f'Bug = "{b}"').replace('Emit = TRUE', 'Emit = FALSE').replace('ACTION_CONSTRAINT PrintEdge', '')
            rc, out = tlc(ctx, 'MCOperator.tla', 'bug.cfg', workers=CORES, extra={'bug.cfg': base}, timeout=600)
            if 'violated' in out:
                noticed.append(b)
                break
        else:
            raise CheckError(f'the model does not notice {b}')
    ctx.cov['operator_model_bugs_noticed'] = noticed
