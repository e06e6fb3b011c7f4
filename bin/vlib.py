"""Shared machinery of the checks: building drivers, running TLC, judging traces, evidence, findings."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build', 'h' if REPO == '/repo' else 'h' + hashlib.sha1(REPO.encode()).hexdigest()[:8])
OUT = os.environ.get('VERIF_OUT', VERIF)   # where evidence and replays go
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(*targets):
    """(Re)builds drivers from /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
    t0 = time.time()
    # An exclusive lock: checks normally run one after another, but two may share a tree.
    import fcntl
    with open(os.path.join(VERIF, 'build', 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for cmd in (['cmake', '-S', os.path.join(VERIF, 'harness'), '-B', BUILD, '-G', 'Ninja', '-DREPO=' + REPO],
                    ['ninja', '-C', BUILD] + list(targets)):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode != 0:
                log(r.stdout[-6000:])
                raise CheckError('build failed: ' + ' '.join(cmd))
    log('built %s in %.1fs' % (' '.join(targets), time.time() - t0))
    return [os.path.join(BUILD, t) for t in targets]


def scratch(name):
    d = os.path.join(VERIF, 'build', 'run', '%s.%d' % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


class Tlc:
    """Result of one TLC run."""
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = 'Model checking completed. No error has been found.' in out
        self.invariant = re.findall(r'Error: Invariant (\S+) is violated', out)
        self.action_prop = re.findall(r'Error: Action property (\S+)', out)
        self.violated = bool(self.invariant or self.action_prop) or 'Temporal properties were violated' in out \
            or 'Deadlock reached' in out or re.search(r'Property \S+ is violated', out) is not None
        self.accepted = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))


def tlc(module, cfg, env=None, workers=8, timeout=600, extra=(), consts=None, heap='6g', dfs=False, subst=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; consts overrides constants of the configuration."""
    meta = tempfile.mkdtemp(prefix='tlc.', dir=_rundir())
    text = open(os.path.join(SPEC, cfg)).read()
    for k, v in (consts or {}).items():
        text, n = re.subn(r'(?m)\b%s\s*=\s*(\{[^}]*\}|\S+)' % re.escape(k), lambda _: '%s = %s' % (k, v), text, count=1)
        if n != 1:
            raise CheckError('constant %s not in %s' % (k, cfg))
    for k, v in (subst or {}).items():
        text = re.sub(k, v, text)
    cfgp = os.path.join(meta, 'run.cfg')
    open(cfgp, 'w').write(text)
    jopts = ['-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + meta]
    if dfs:
        jopts.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd = ['java'] + jopts + ['-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-config', cfgp,
           '-metadir', os.path.join(meta, 'm'), '-noGenerateSpecTE'] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           env=dict(os.environ, **(env or {})), cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out after %ds on %s/%s' % (timeout, module, cfg))
    finally:
        shutil.rmtree(os.path.join(meta, 'm'), ignore_errors=True)
    res = Tlc(r.stdout, r.returncode, time.time() - t0)
    shutil.rmtree(meta, ignore_errors=True)
    if not res.ok and not res.violated:
        log('\n'.join(x for x in r.stdout.splitlines() if not x.startswith(('Parsing', 'Semantic processing', 'Running')))[-3000:])
        raise CheckError('TLC error on %s/%s (exit %d)' % (module, cfg, r.returncode))
    return res


_RUNDIR = None
def _rundir():
    global _RUNDIR
    if _RUNDIR is None:
        _RUNDIR = scratch('tlc')
    return _RUNDIR


def model(ctx, module, cfg, consts=None, **kw):
    """Exhaustive check of the design; an error here is an error of the check, not of the code."""
    r = tlc(module, cfg, consts=consts, **kw)
    if not r.ok:
        log(r.out[-6000:])
        raise CheckError('specification %s/%s %s violates its own properties' % (module, cfg, consts or ''))
    ctx.models.append({'module': module, 'config': cfg, 'constants': consts or {}, 'states_generated': r.generated,
                       'distinct_states': r.distinct, 'wall_s': round(r.wall, 1)})
    log('model %s %s: %d distinct states, %.1fs' % (module, consts or '', r.distinct, r.wall))
    return r


def judge(module, cfg, traces, consts=None, workers=8, timeout=600, chunk=4000):
    """Indices of `traces` (lists of dicts with key 'ev') that are not behaviours of the specification,
    and the number of distinct states TLC visited."""
    rejected, states, gen = [], 0, 0
    for base in range(0, len(traces), chunk):
        part = traces[base:base + chunk]
        f = os.path.join(_rundir(), 'traces.%d.ndjson' % os.getpid())
        with open(f, 'w') as o:
            for t in part:
                o.write(json.dumps(t) + '\n')
        r = tlc(module, cfg, env={'TRACES': f}, consts=consts, workers=workers, timeout=timeout)
        states += r.distinct
        gen += r.generated
        if r.violated:
            # an invariant of the specification failed on a recorded behaviour: find which, one at a time
            if len(part) == 1:
                rejected.append(base)
                continue
            half = max(1, len(part) // 2)
            for lo, hi in ((0, half), (half, len(part))):
                rej, s, g = judge(module, cfg, part[lo:hi], consts, workers, timeout, chunk)
                rejected += [base + lo + x for x in rej]
                states += s
                gen += g
        else:
            rejected += [base + i for i in range(len(part)) if (i + 1) not in r.accepted]
    return rejected, states, gen


def stuck_at(module, cfg, trace, consts=None):
    """Length of the longest prefix of the trace that the specification allows."""
    f = os.path.join(_rundir(), 'one.%d.ndjson' % os.getpid())
    open(f, 'w').write(json.dumps(trace) + '\n')
    r = tlc(module, cfg, env={'TRACES': f}, consts=consts, workers=1, subst={r'\bAccepted\b': 'Reached'})
    at = [int(x) for x in re.findall(r'<<"AT", \d+, (\d+)>>', r.out)]
    return (max(at) - 1) if at else 0


class Ctx:
    """State of one check run."""
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.tier, self.seed = TIER, SEED
        self.quick = TIER != 'thorough'
        self.t0 = time.time()
        self.models, self.suites, self.samples, self.violations, self.known = [], [], [], [], []
        self.traces = 0
        self.states = self.transitions = 0
        self.assumptions = []
        self.findings = load_findings(prop)

    def add_suite(self, **kw):
        self.suites.append(kw)

    def violation(self, signature, detail, replay):
        """Records a violation unless a committed known finding names exactly this signature."""
        for f in self.findings:
            if f.get('kind') == 'known' and re.fullmatch(f['signature'], signature):
                if f['text'] not in self.known:
                    self.known.append(f['text'])
                return
        d = os.path.join(OUT, 'replays', self.prop)
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1((signature + json.dumps(replay, sort_keys=True)).encode()).hexdigest()[:12]
        path = os.path.join(d, h + '.json')
        json.dump({'property': self.prop, 'signature': signature, 'detail': detail, 'replay': replay},
                  open(path, 'w'), indent=1)
        self.violations.append((signature, detail, path))

    def finish(self):
        cov = {
            'states': self.states + sum(m['distinct_states'] for m in self.models),
            'transitions': self.transitions + sum(m['states_generated'] for m in self.models),
            'traces_validated_against_impl': self.traces,
            'models': self.models, 'suites': self.suites, 'samples': self.samples[:6],
        }
        ev = {'property': self.prop, 'tier': 'thorough' if not self.quick else 'quick', 'seed': self.seed,
              'level': self.level, 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2),
              'assumptions': self.assumptions, 'violations': len(self.violations)}
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for text in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        seen = set()
        for sig, detail, path in self.violations:
            if sig in seen:
                continue
            seen.add(sig)
            log('violation [%s]: %s' % (sig, detail))
            if len(seen) <= 5:
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_findings(prop):
    p = os.path.join(VERIF, 'known', 'findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f['property'] == prop]


def read_parts(d):
    """Reads part.* files written by a driver: (traces, stats)."""
    traces, stats = [], []
    for f in sorted(os.listdir(d), key=lambda x: (len(x), x)):
        if not f.startswith('part.'):
            continue
        for line in open(os.path.join(d, f), errors='replace'):
            line = line.strip()
            if not line:
                continue
            try:
                j = json.loads(line)
            except ValueError:
                raise CheckError('unreadable driver output in %s: %s' % (f, line[:300]))
            (stats if 'stats' in j else traces).append(j)
    return traces, stats


def explore(driver, programs, scale=None, seed=None, name='x', timeout=800, args=()):
    """Runs a driver over client programs (a scheduler driver if a scale is given); returns (executions, stats)."""
    d = scratch('ex.' + name)
    pf = os.path.join(d, 'programs')
    open(pf, 'w').write('\n'.join(programs) + '\n')
    out = os.path.join(d, 'out')
    os.makedirs(out)
    try:
        sched = [str(SEED if seed is None else seed), str(scale)] if scale is not None else []
        r = subprocess.run([driver, out, pf] + sched + list(args),
                           stdout=subprocess.PIPE, stderr=None if os.environ.get('VERIF_DEBUG') else subprocess.DEVNULL,
                           text=True, timeout=timeout,
                           # what the code logs goes nowhere: refused operations would fill the disk
                           env=dict(os.environ, GLOG_logtostderr='1', GLOG_minloglevel='3', GLIBC_TUNABLES='glibc.malloc.perturb=165:glibc.malloc.tcache_count=0',
                                    ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000'))
    except subprocess.TimeoutExpired:
        raise CheckError('driver timed out')
    if r.returncode != 0:
        log(r.stdout[-3000:])
        raise CheckError('driver %s failed (%d)' % (driver, r.returncode))
    traces, stats = read_parts(out)
    shutil.rmtree(d, ignore_errors=True)
    return traces, stats


def judge_suite(ctx, name, module, cfg, traces, stats, own=None, full=None, other=None, workers=8, driver=None, cls=None,
                timeout=700, unless=None):
    """Judges recorded executions.

    full: constants of the complete trace specification; own: constants under which only the constraints of
    ctx.prop are enforced.  A trace that the complete specification rejects is a violation of ctx.prop if it
    is also rejected under `own`; or, given `other` instead, if it is accepted under `other` (the same
    specification without the constraints of ctx.prop), i.e. nothing but ctx.prop's constraints reject it.
    With `unless` as well, one that `other` rejects too still counts, unless unless(trace, position, event)
    says that the event where `other` stops concerns another property."""
    if not traces:
        raise CheckError('suite %s recorded no executions' % name)
    t0 = time.time()
    slim = [{'ev': t['ev'], **{k: t[k] for k in t.get('_keep', [])}} for t in traces]
    rej, s, g = judge(module, cfg, slim, consts=full, workers=workers, timeout=timeout)
    n_full = len(rej)
    if rej and own is not None:
        sub, s2, g2 = judge(module, cfg, [slim[i] for i in rej], consts=own, workers=workers, timeout=timeout)
        rej = [rej[i] for i in sub]
        s += s2
        g += g2
    if rej and other is not None:
        sub, s2, g2 = judge(module, cfg, [slim[i] for i in rej], consts=other, workers=workers, timeout=timeout)
        both = [rej[k] for k in sub]
        rej = [x for k, x in enumerate(rej) if k not in set(sub)]
        if unless:
            for i in both[:12]:
                at = stuck_at(module, cfg, slim[i], consts=other)
                if not unless(traces[i], at, traces[i]['ev'][at] if at < len(traces[i]['ev']) else None):
                    rej.append(i)
        s += s2
        g += g2
    ctx.traces += len(traces)
    ctx.states += s
    ctx.transitions += g
    counts = {}
    for t in traces:
        for e in t['ev']:
            k = e['e'] + (':' + str(e['o']) if 'o' in e else '')
            counts[k] = counts.get(k, 0) + 1
    ctx.add_suite(name=name, executions=sum(x['stats'].get('execs', 0) for x in stats) or len(traces),
                  distinct_executions=len(traces), programs=len(stats) or None,
                  scheduling_steps=sum(x['stats'].get('steps', 0) for x in stats) or None,
                  programs_exhausted=sum(1 for x in stats if x['stats'].get('dfs_complete')) or None,
                  events=counts, trace_states=s, rejected_by_full_spec=n_full, rejected_for_property=len(rej),
                  wall_s=round(time.time() - t0, 1))
    if len(ctx.samples) < 6:
        t = traces[(SEED * 7919) % len(traces)]
        ctx.samples.append({'suite': name, 'desc': t.get('desc'), 'how': t.get('how'), 'ev': t['ev'][:60]})
    log('suite %s: %d distinct executions, %d rejected (%d for %s), %.1fs' %
        (name, len(traces), n_full, len(rej), ctx.prop, time.time() - t0))
    # confirm and report
    for i in rej[:10]:
        t = traces[i]
        again, _, _ = judge(module, cfg, [slim[i]], consts=own if own is not None else full, workers=1)
        if not again:
            raise CheckError('rejection of a trace of suite %s did not repeat' % name)
        at = stuck_at(module, cfg, slim[i], consts=own if own is not None else full)
        bad = t['ev'][at] if at < len(t['ev']) else None
        sig = cls(t, at, bad) if cls else '%s|%s' % (name, (bad or {}).get('e', 'end') + ':' + str((bad or {}).get('o', '')))
        ctx.violation(sig, 'execution of "%s" (%s) leaves the specification at event %d: %s' %
                      (t.get('desc'), t.get('how'), at, json.dumps(bad)),
                      {'suite': name, 'driver': os.path.basename(driver or ''), 'desc': t.get('desc'), 'how': t.get('how'),
                       'module': module, 'cfg': cfg, 'consts': own if own is not None else full, 'stuck_at': at, 'ev': t['ev']})


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        log('usage: check <property>')
        return 2
    prop = sys.argv[1]
    ctx = Ctx(prop)
    try:
        checks[prop](ctx)
        rc = ctx.finish()
    except CheckError as e:
        log('CHECK ERROR: %s' % e)
        rc = 2
        if ctx.violations:   # violations found before the error stand
            rc = ctx.finish()
    finally:
        if _RUNDIR:
            shutil.rmtree(_RUNDIR, ignore_errors=True)
    return rc
