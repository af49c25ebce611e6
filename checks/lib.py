"""Shared machinery of the checks: building the harness, running TLC, verdicts, evidence."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
QUICK = TIER != 'thorough'
CORES = min(8, os.cpu_count() or 8)
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'

START = time.time()


def lap(what):
    if os.environ.get('VERIF_LAPS'):
        print(f'  {time.time() - START:6.1f} {what}', file=sys.stderr, flush=True)


class CheckError(Exception):
    """The check itself could not do its work: neither pass nor violation."""


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        if base and shutil.disk_usage(base).free < 2 << 30:
            base = None
        self.dir = tempfile.mkdtemp(prefix=f'verif-{prop}-', dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.findings = []

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        if self.dir.startswith(('/dev/shm/verif-', '/tmp/verif-')) or '/verif-' in self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


def go_env():
    env = dict(os.environ)
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.decode().split('=', 1)
                env[k] = v
    except OSError:
        pass
    env.setdefault('GOFLAGS', '-mod=mod -buildvcs=false')
    env['GOPROXY'] = 'off'
    return env


def go_build(ctx, pkg, out, overlay=None, race=False):
    cmd = ['go', 'build', '-mod=readonly', '-buildvcs=false', '-o', out]
    if race:
        cmd.append('-race')
    if overlay:
        cmd += ['-overlay', overlay]
    cmd.append(pkg)
    r = subprocess.run(cmd, cwd=REPO, env=go_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError('build failed: ' + ' '.join(cmd) + '\n' + r.stdout + r.stderr)


def build_harness(ctx, race=False):
    """The harness is compiled as a package of the module under test, through an overlay."""
    ov = ctx.path('overlay.json')
    files = glob.glob(os.path.join(VERIF, 'harness', '*.go'))
    json.dump({'Replace': {f'{REPO}/zzverif/' + os.path.basename(f): f for f in files}}, open(ov, 'w'))
    out = ctx.path('harness')
    go_build(ctx, './zzverif', out, ov, race)
    return out


def build_horcrux(ctx):
    out = ctx.path('horcrux')
    go_build(ctx, './cmd/horcrux', out)
    return out


def harness(ctx, exe, *args, timeout=600, env=None, ok=(0,)):
    e = dict(os.environ)
    e['VERIF_SCRATCH'] = ctx.dir
    e['HOME'] = ctx.dir
    e['TMPDIR'] = ctx.dir
    e.update(env or {})
    cmd = [exe] + [str(a) for a in args]
    try:
        r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=ctx.dir)
    except subprocess.TimeoutExpired as x:
        raise CheckError(f'harness timed out: {cmd}\n{(x.stdout or b"")[-2000:]}\n{(x.stderr or b"")[-4000:]}')
    if r.returncode not in ok:
        raise CheckError(f'harness failed ({r.returncode}): {cmd}\n{r.stdout[-2000:]}\n{r.stderr[-6000:]}')
    return r


def harness_or_crash(ctx, exe, *args, timeout=600):
    """Runs the harness. If code under test brings the process down, returns what it said; a fault of the harness is an error."""
    try:
        harness(ctx, exe, *args, timeout=timeout)
        return ''
    except CheckError as x:
        said = str(x)
        m = re.search(r'^(panic: |fatal error: |unexpected fault)(?!HARNESS)(?!.*HARNESS:)[^\n]*', said, re.M)
        if m and 'HARNESS:' not in said:
            return said[m.start():][:6000]
        raise


def jvm(heap):
    return ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', f'-Xmx{heap}', '-Xss64m', '-cp', CP]


def tlc(ctx, module, cfg, workers=1, env=None, timeout=800, heap='3g', args=(), dfs=False, extra=None):
    """Runs TLC in a private copy of the specifications. Returns (returncode, output)."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=ctx.dir)
    for f in glob.glob(os.path.join(VERIF, 'spec', '*')):
        shutil.copy(f, d)
    for k, v in (extra or {}).items():
        open(os.path.join(d, k), 'w').write(v)
    e = dict(os.environ)
    e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = '-Djava.io.tmpdir=' + d
    cmd = jvm(heap)
    if dfs:
        cmd.insert(1, '-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noTE',
            '-config', cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        raise CheckError(f'TLC timed out after {timeout}s on {module} {cfg}')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def counts(out):
    m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct', out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(',', '')), int(d.replace(',', ''))


def model_check(ctx, module, cfg, workers=CORES, timeout=800, heap='8g', quiet=False):
    """The specification must satisfy its properties; anything else is an error of the check."""
    rc, out = tlc(ctx, module, cfg, workers=workers, timeout=timeout, heap=heap)
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError(f'the specification {module}/{cfg} fails its own check:\n' + tail(out, 60))
    g, d = counts(out)
    ctx.states += d
    ctx.transitions += g
    ctx.cov.setdefault('model_runs', []).append({'module': module, 'config': cfg, 'distinct_states': d, 'transitions': g})
    return out


def tail(s, n):
    return '\n'.join(s.splitlines()[-n:])


def read_groups(path, reset='"e":"reset"'):
    """Cuts a trace at reset lines."""
    groups, cur = [], []
    with open(path) as f:
        for line in f:
            if reset in line and cur:
                groups.append(cur)
                cur = []
            cur.append(line)
    if cur:
        groups.append(cur)
    return groups


class Behaviour(list):
    origin = None


def validate(ctx, module, cfg, prop, traces, parts=CORES, dfs=False, timeout=800, env=None, heap='3g', keep=True, chunk=6000):
    """Checks traces against a trace specification. Returns the rejected behaviours as (lines, index of the rejected one)."""
    groups = []
    for t in [traces] if isinstance(traces, str) else traces:
        gs = read_groups(t)
        if not gs:
            raise CheckError('empty trace ' + t)
        for g in gs:
            b = Behaviour(g)
            b.origin = t
            groups.append(b)
    first = groups[0]
    total = sum(len(g) for g in groups)
    k = max(1, min(len(groups), max(min(parts, 1 + total // 300), -(-total // chunk))))
    bins, size = [[] for _ in range(k)], [0] * k
    for g in sorted(groups, key=len, reverse=True):
        i = size.index(min(size))
        bins[i].append(g)
        size[i] += len(g)
    bins = [b for b in bins if b]
    n = len(groups)

    def one(i):
        rejected = []
        gs = bins[i]
        while gs:
            fd, p = tempfile.mkstemp(prefix='part-', suffix='.ndjson', dir=ctx.dir)
            with os.fdopen(fd, 'w') as f:
                for g in gs:
                    f.writelines(g)
            e = {'PROP': prop, 'TRACE': p}
            e.update(env or {})
            rc, out = tlc(ctx, module, cfg, workers=1, env=e, timeout=timeout, dfs=dfs, heap=heap)
            m = re.findall(r'"PROGRESS", (\d+), (\d+)', out)
            if not m:
                raise CheckError(f'TLC gave no verdict on a trace ({module}, {prop}):\n' + tail(out, 40))
            at, ln = int(m[-1][0]), int(m[-1][1])
            os.unlink(p)
            if at == ln + 1:
                break
            # a runtime error of TLC on a trace is an error of the check
            if re.search(r'TLC threw an unexpected|evaluating the|Attempted to|java\.lang', out):
                raise CheckError(f'TLC failed on a trace ({module}, {prop}) at line {at}:\n' + tail(out, 60))
            # find the behaviour that was rejected, go on after it
            pos = 0
            for j, g in enumerate(gs):
                if pos + len(g) >= at:
                    rejected.append((g, at - pos))
                    gs = gs[j + 1:]
                    break
                pos += len(g)
            else:
                raise CheckError('cannot locate the rejected line')
            if len(rejected) >= 3:
                break
        return rejected

    with ThreadPoolExecutor(min(CORES, len(bins))) as ex:
        res = [r for rs in ex.map(one, range(len(bins))) for r in rs]
    if keep:
        ctx.traces += n
        ctx.events += total
        if len(ctx.samples) < 3:
            ctx.samples.append({'trace': os.path.basename(first.origin), 'module': module, 'first_events': [json.loads(x) for x in first[:4]]})
    return res


def report_rejected(ctx, what, rejected, note=None):
    """Rejected behaviours of the real code are violations."""
    for g, at in rejected:
        lines = g[:at]
        try:
            last = json.loads(lines[-1])
        except Exception:
            last = lines[-1]
        violation(ctx, what, {'rejected_event': last, 'behaviour': [json.loads(x) for x in lines], 'note': note})


def violation(ctx, what, detail):
    ctx.violations.append((what, detail))


def load_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def finish(ctx, level, extra=None, assumptions=()):
    """Writes the evidence file, prints the verdict, returns the exit code."""
    known = [f for f in load_findings().get('findings', []) if f['property'] == ctx.prop]
    left, hit = [], set()
    for what, d in ctx.violations:
        k = next((f for f in known if f['match'] in what), None)
        if k:
            hit.add(k['id'])
        else:
            left.append((what, d))
    for f in known:
        print(f"KNOWN-FINDING: property={ctx.prop} {f['what']}")
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces,
           'events_validated': ctx.events, 'samples': ctx.samples[:6]}
    cov.update(ctx.cov)
    cov.update(extra or {})
    ev = {'property': ctx.prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': list(assumptions) + ctx.assumptions, 'wall_s': round(time.time() - START, 2),
          'violations': len(left)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w'), indent=1)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    if not left:
        print(f'OK property={ctx.prop} states={ctx.states} transitions={ctx.transitions} traces={ctx.traces} events={ctx.events} '
              f'wall={time.time() - START:.1f}s')
        return 0
    os.makedirs(rdir, exist_ok=True)
    for i, (what, d) in enumerate(left[:5]):
        p = os.path.join(rdir, f'{ctx.prop}-{i}.json')
        json.dump({'property': ctx.prop, 'what': what, 'seed': SEED, 'tier': TIER, 'detail': d}, open(p, 'w'), indent=1)
        print(f'VIOLATION property={ctx.prop} replay={p} {what}')
    return 1
