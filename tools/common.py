"""Shared machinery: build the driver from /repo, run scenarios, run TLC, report."""
import json, os, random, re, shutil, subprocess, sys, tempfile, traceback, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(HARNESS, 'target')
DRIVER = os.path.join(TARGET, 'debug', 'osmdrv')
REPO = '/repo'
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


class Enough(Exception):
    """The verdict is known: a violation has been found and there is no time for more."""


# ---------------------------------------------------------------- numbers
B = 1 << 15


def W(v):
    """A 64 bit integer as five limbs, most significant (signed) first: see Wide.tla."""
    r = []
    for _ in range(4):
        r.append(v % B)
        v //= B
    r.append(v)
    return r[::-1]


def hx(s):
    return s.encode('utf-8', 'surrogatepass').hex()


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED') or 1)
        self.rng = random.Random(f'{prop}/{self.seed}')
        base = os.path.join(VERIF, 'work')
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + '-', dir=base)
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.models = []
        self.nvalidated = 0
        self.families = {}
        self.samples = []
        self.violations = []
        self.known_hits = []
        self.mutants = [0, 0]
        self.known = load_known(prop)
        self.notes = []
        self.assumptions = []
        self.n = 0
        self.only = None          # families to run (None: all)
        self.skip_models = False

    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def budget(self):
        """Seconds a run may take."""
        return 20000 if self.thorough else 840

    def left(self):
        return self.budget - (time.time() - self.t0)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, suffix):
        self.n += 1
        return os.path.join(self.work, f'f{self.n}{suffix}')

    def dir(self):
        self.n += 1
        d = os.path.join(self.work, f'd{self.n}')
        os.makedirs(d)
        return d

    def log(self, *a):
        print(f'[{time.time() - self.t0:6.1f}s]', *a, flush=True)

    # ------------------------------------------------------------ models
    def model(self, module, cfg=None, workers=None, timeout=800, expect=None, simulate=None, env=None, keep=False):
        """Exhaustively check a design specification. A violation here is an error of the specification."""
        if (self.skip_models or self.only) and not keep:
            return None
        r = tlc(self, module, cfg or module + '.cfg', workers=workers or NCPU, timeout=timeout, simulate=simulate, env=env)
        if r['code'] != 0:
            raise ToolError(f'design model {module} ({cfg}): TLC ended with {r["code"]}\n' + r['out'][-3000:])
        self.states += r['distinct']
        self.transitions += r['generated']
        self.models.append(dict(module=module, cfg=cfg or module + '.cfg', distinct_states=r['distinct'],
                                states_generated=r['generated'], depth=r['depth'], exhaustive=simulate is None, seconds=round(r['secs'], 1)))
        self.log(f'model {cfg or module}: {r["distinct"]} distinct states, {r["generated"]} generated, depth {r["depth"]}')
        return r if keep else None

    # ------------------------------------------------------------ families
    def observe(self, scenarios, fams, jobs=None, pin=None, **kw):
        """Run scenarios once for several families."""
        if self.only and not any(f.name in self.only for f in fams):
            return None
        return drive(self, scenarios, jobs=jobs, pin=pin, **kw)

    def check(self, fam, scenarios, jobs=None, obs=None, pin=None, together=None, over=None):
        """Run scenarios on the real code and let TLC decide whether each observation is a behaviour
        of the specification."""
        if not scenarios or (self.only and fam.name not in self.only):
            return []
        if self.violations and time.time() - self.t0 > self.budget / 4:
            self.log(f'{fam.name}: not run, violations have been found')
            return []
        try:
            if obs is None and (together or over):
                obs = drive(self, scenarios, jobs=jobs, pin=pin, together=together, over=over)
            return self.check1(fam, scenarios, jobs, obs, pin)
        except ToolError as e:
            if self.violations:
                self.log(f'{fam.name}: no verdict: {str(e)[:300]}')
                raise Enough
            raise

    def check1(self, fam, scenarios, jobs, obs, pin):
        obs = obs if obs is not None else drive(self, scenarios, jobs=jobs, pin=pin)
        traces, owner, strange = [], [], []
        keep = [i for i, o in enumerate(obs) if not skipped(o)]
        if len(keep) < len(scenarios):
            self.log(f'{fam.name}: {len(scenarios) - len(keep)} scenarios not run, others blocked')
            scenarios, obs = [scenarios[i] for i in keep], [obs[i] for i in keep]
        for i, (sc, ob) in enumerate(zip(scenarios, obs)):
            try:
                t = fam.trace(sc, ob)
            except (ToolError, OSError, MemoryError):
                raise
            except Exception as e:                        # nothing the specification could say, like bytes that are no file
                strange.append((sc, ob, f'{type(e).__name__}: {e}'))
                traceback.print_exc()
                continue
            for x in (t if isinstance(t, list) else [t]):
                traces.append(x)
                owner.append(i)
        rej = validate(self, fam.spec, traces, fam.cfg, env=fam.env)
        self.nvalidated += len(traces)
        f = self.families.setdefault(fam.name, dict(spec=fam.spec, scenarios=0, traces=0, rejected=0))
        f['scenarios'] += len(scenarios)
        f['traces'] += len(traces)
        f['rejected'] += len(rej)
        if len(self.samples) < 6:
            self.samples.append(dict(family=fam.name, scenario=clip(scenarios[-1])))
        self.log(f'{fam.name}: {len(scenarios)} scenarios, {len(traces)} traces validated, {len(rej)} rejected')
        for sc, ob, e in strange[:5]:
            self.violation(fam, sc, ob, None, e)
        for ti, pos in rej[:20]:
            i = owner[ti]
            self.violation(fam, scenarios[i], obs[i], traces[ti], pos)
        if not rej and traces and fam.mutate:
            self.selftest(fam, traces)
        return rej

    def selftest(self, fam, traces):
        """Demonstrate the binding: corrupted observations must be rejected."""
        rng = random.Random(f'mut/{self.seed}')
        muts = []
        for t in rng.sample(traces, min(len(traces), 12)):
            m = fam.mutate(json.loads(json.dumps(t)), rng)
            if m is not None:
                muts.append(m)
        if not muts:
            return
        rej = validate(self, fam.spec, muts, fam.cfg, env=fam.env, jobs=1)
        self.mutants[0] += len(muts)
        self.mutants[1] += len(rej)
        if len(rej) < len(muts):
            acc = sorted(set(range(len(muts))) - {i for i, _ in rej})
            p = os.path.join(VERIF, 'work', f'accepted-mutant-{fam.name}.json')
            with open(p, 'w') as f:
                json.dump([muts[i] for i in acc], f)
            self.notes.append(f'{fam.name}: {len(acc)} corrupted observations accepted')
            self.log(f'WARNING {fam.name}: {len(acc)} of {len(muts)} corrupted observations accepted, see {p}')

    def violation(self, fam, sc, ob, trace, pos):
        where = fam.explain(trace, pos) if trace is not None else f'the observation is not of the form the specification speaks about ({pos})'
        for k in self.known:
            if fam.known(k, sc, ob, where):
                if k['id'] not in self.known_hits:
                    self.known_hits.append(k['id'])
                    print(f'KNOWN-FINDING: property={self.prop} {k["what"]}', flush=True)
                return
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, f'{self.prop}-{fam.name}-{len(self.violations)}.json')
        files = {}
        for k, v in list(sc.items()):
            if k in ('path',) and isinstance(v, str) and os.path.isfile(v) and sc.get('_keepfile') and os.path.getsize(v) < 4 << 20:
                files[k] = open(v, 'rb').read().hex()
        with open(p, 'w') as f:
            json.dump(dict(property=self.prop, family=fam.name, scenario=sc, observation=ob, position=pos, explain=where,
                           files=files, seed=self.seed, tier=self.tier), f)
        self.violations.append(p)
        if len(self.violations) <= 8:
            print(f'  {fam.name}: {where}', flush=True)
            print(f'VIOLATION property={self.prop} replay={p}', flush=True)

    # ------------------------------------------------------------ finish
    def finish(self, level='model_checking'):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.nvalidated,
                   samples=self.samples, models=self.models, families=self.families,
                   corrupted_observations_tried=self.mutants[0], corrupted_observations_rejected=self.mutants[1])
        if self.notes:
            cov['notes'] = self.notes
        if self.known_hits:
            cov['known_findings_seen'] = self.known_hits
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions or DEFAULT_ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.log(f'done: {len(self.violations)} violations')
        return 1 if self.violations else 0

    def cleanup(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.work, ignore_errors=True)


DEFAULT_ASSUMPTIONS = [
    'the translation of the observed bytes and values into TLA+ values (tools/*.py, harness/) is faithful',
    'behaviours outside the generated scenarios and the bounds of the design models are not covered',
]


def clip(x, n=40):
    """A short version of a scenario for the evidence file."""
    if isinstance(x, dict):
        return {k: clip(v, 6) for k, v in list(x.items())[:n]}
    if isinstance(x, list):
        return [clip(v, 4) for v in x[:n]] + ([f'... {len(x)} in all'] if len(x) > n else [])
    if isinstance(x, str) and len(x) > 120:
        return x[:120] + '...'
    return x


def named(fam, name):
    """The same family under another name."""
    fam.name = name
    return fam


class Family:
    """How one kind of scenario is bound to a trace specification."""
    name = ''
    spec = ''
    cfg = None
    env = None
    mutate = None

    def trace(self, sc, ob):
        raise NotImplementedError

    def explain(self, trace, pos):
        return f'{trace.get("what", "")} not explained by the specification from step {pos + 1}; end of observation: {json.dumps(clip(trace.get("end", trace.get("ops", ""))))[:300]}'

    def known(self, k, sc, ob, where):
        return k.get('family') == self.name and k.get('match') and k['match'] in json.dumps(sc)


def load_known(prop):
    """Entries of KNOWN_FINDINGS.jsonl that suppress (kind known) for this property."""
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                k = json.loads(l)
                if k.get('kind') == 'known' and k.get('property') == prop:
                    r.append(k)
    return r


# ---------------------------------------------------------------- build and drive
def build_env():
    env = dict(os.environ)
    env.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
               CARGO_TARGET_DIR=TARGET, PROTOC='/usr/bin/protoc', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='false', RUSTC_WRAPPER='')
    env['PATH'] = env.get('PATH', '') + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin'
    env.pop('RUSTFLAGS', None)
    return env


def build(ctx=None):
    t = time.time()
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=HARNESS, env=build_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError('the driver does not build against /repo:\n' + r.stdout[-4000:])
    if ctx:
        ctx.log(f'driver built in {time.time() - t:.1f}s')


def drive(ctx, scenarios, jobs=None, timeout=700, pin=None, together=None, over=None):
    """together: run that many scenarios at a time, in threads of one process.
    over: these paths of every scenario are the same for all scenarios of a process (the driver copies),
    so that files are replaced by others again and again."""
    if over:
        scenarios = [dict(s, over=[k for k in over if k in s]) for s in scenarios]
    if together:
        groups = [scenarios[i:i + together] for i in range(0, len(scenarios), together)]
        res = drive(ctx, [dict(kind='both', scs=g, timeout_ms=max(s.get('timeout_ms', 60000) for s in g)) for g in groups], jobs, timeout, pin)
        return [(o['obs'][i] if 'obs' in o else o) for g, o in zip(groups, res) for i in range(len(g))]
    if ctx.violations:
        timeout = min(timeout, 120)
    timeout = max(20, min(timeout, ctx.left() - 60))
    return drive1(ctx, scenarios, jobs, timeout, pin)


def drive1(ctx, scenarios, jobs, timeout, pin):
    """Run scenarios on the real library; returns one observation each. A scenario that blocks is
    reported as {"hang": true}, one that kills the process as {"crash": ...}: both are observations.
    pin: give each process that many processors of its own. The thread pools of the library spin
    while they wait, so that processes that share processors become very slow."""
    cpus = sorted(os.sched_getaffinity(0))
    if pin:
        pin = min(pin, len(cpus))
        jobs = len(cpus) // pin
    jobs = max(1, min(jobs or NCPU, len(scenarios)))
    out = [None] * len(scenarios)
    env = dict(os.environ)
    env['RUST_BACKTRACE'] = '0'
    env['TMPDIR'] = ctx.work

    end = time.time() + timeout
    bad = [0]                                          # scenarios that blocked or killed the process

    def run(j):
        idx = list(range(j, len(scenarios), jobs))
        ctx.n += 1
        f = os.path.join(ctx.work, f'sc{ctx.n}-{j}.ndjson')
        with open(f, 'w') as h:
            for i in idx:
                h.write(json.dumps(scenarios[i]) + '\n')
        skip = 0
        while skip < len(idx):
            if bad[0] >= (8 if not ctx.thorough else 100) or time.time() > end:
                for i in idx[skip:]:
                    out[i] = dict(skipped=True)
                break
            pre = ['taskset', '-c', ','.join(map(str, cpus[j * pin:(j + 1) * pin]))] if pin else []
            p = subprocess.Popen(pre + [DRIVER, f, str(skip)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=ctx.work)
            late = []
            killer = threading.Timer(max(1, end - time.time()), lambda: (late.append(1), p.kill()))
            killer.start()
            last = skip - 1
            for line in p.stdout:
                try:
                    o = json.loads(line)
                except ValueError:
                    break
                last = o['line']
                out[idx[last]] = o
            p.wait()
            killer.cancel()
            skip = last + 1
            if p.returncode == 3:
                bad[0] += 1
            elif skip < len(idx) and p.returncode != 0:
                if not late:
                    bad[0] += 1
                out[idx[skip]] = dict(skipped=True) if late else dict(crash=f'process ended with {p.returncode}')
                skip += 1
        os.unlink(f)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(run, range(jobs)))
    n = sum(o is None or 'skipped' in o for o in out)
    if n and not bad[0]:
        raise ToolError(f'{n} of {len(out)} scenarios did not fit in the time')
    return [dict(skipped=True) if o is None else o for o in out]


def skipped(ob):
    if isinstance(ob, (list, tuple)):
        return any(skipped(o) for o in ob)
    return isinstance(ob, dict) and 'skipped' in ob


# ---------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, workers=1, timeout=800, env=None, simulate=None, heap='3g'):
    e = dict(os.environ)
    e.update(env or {})
    ctx.n += 1
    meta = tempfile.mkdtemp(prefix='tlc-', dir=ctx.work)
    args = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss32m', '-cp', TLA_CP, 'tlc2.TLC',
            '-workers', str(workers), '-metadir', meta, '-noTE', '-cleanup', '-config', os.path.join(SPEC, cfg)]
    if simulate:
        args += ['-simulate', f'num={simulate[0]}', '-depth', str(simulate[1]), '-seed', str(ctx.seed)]
    args.append(os.path.join(SPEC, module + '.tla'))
    if ctx.violations:
        timeout = min(timeout, 120)
    timeout = max(20, min(timeout if not ctx.thorough else 10 * timeout, ctx.left()))
    t = time.time()
    try:
        r = subprocess.run(args, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f'TLC on {module} with {cfg} took longer than {timeout}s')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    d = re.findall(r'depth of the complete state graph search is (\d+)', out)
    if not m and simulate:
        m = [(x.replace(',', ''), x.replace(',', '')) for x in re.findall(r'The number of states generated: ([\d,]+)', out)]
    return dict(code=r.returncode, out=out, secs=time.time() - t, generated=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0,
                depth=int(d[-1]) if d else 0)


def errors(out):
    """The readable part of a TLC error."""
    ls = [l[:300] for l in out.split('\n')]
    i = next((k for k, l in enumerate(ls) if l.startswith('Error')), max(0, len(ls) - 20))
    return '\n'.join(ls[i:i + 12])


def validate(ctx, spec, traces, cfg=None, env=None, jobs=None):
    """Trace validation: returns [(index, longest explained prefix)] of the traces TLC rejects. An observation of a form
    that the specification cannot even be evaluated on is not explained by it: it is found by halving, and rejected."""
    if not traces:
        return []
    jobs = jobs or max(1, min(NCPU, (len(traces) + 19) // 20))
    # balance by size
    sizes = [len(json.dumps(t)) for t in traces]
    chunks = [[] for _ in range(jobs)]
    load = [0] * jobs
    for i in sorted(range(len(traces)), key=lambda i: -sizes[i]):
        k = load.index(min(load))
        chunks[k].append(i)
        load[k] += sizes[i] + 200
    rejected = []

    def run(k):
        return some(sorted(chunks[k]), k)

    def some(idx, k):
        if not idx:
            return []
        f = os.path.join(ctx.work, f'tr{time.time_ns()}-{k}.ndjson')
        with open(f, 'w') as h:
            for i in idx:
                h.write(json.dumps(traces[i]) + '\n')
        r = tlc(ctx, spec, cfg or spec + '.cfg', workers=1, env=dict(env or {}, TRACE_FILE=f))
        os.unlink(f)
        rej = [(int(a), int(b)) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', r['out'])]
        n = re.findall(r'<<"VALIDATED", (\d+)>>', r['out'])
        if r['code'] in (75, 76, 77) and not n:         # evaluation failed
            if len(idx) == 1:
                ctx.log(f'{spec} cannot be evaluated on trace {idx[0]}: {errors(r["out"])[:400]}')
                return [(idx[0], 0)]
            half = len(idx) // 2
            return some(idx[:half], k) or some(idx[half:], k)
        if not n or int(n[-1]) != len(idx) or r['code'] not in (0, ):
            keep = os.path.join(VERIF, 'work', f'failed-{spec}.ndjson')
            with open(keep, 'w') as h:
                for i in idx:
                    h.write(json.dumps(traces[i]) + '\n')
            raise ToolError(f'trace validation with {spec} failed (TLC {r["code"]}), traces in {keep}\n' + errors(r['out']))
        return [(idx[a - 1], b) for a, b in rej]

    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(run, range(jobs)):
            rejected += r
    return sorted(rejected)
