"""Monitoring runtime shared by all checks.

A check is a list of tasks. A task drives the real ctbayes code of /repo and reports to a Ctx: events it observed, cases
it tried, deterministic checks of observed values (check), and statistical checks of observed samples (stat). Verdicts
are three-valued: 0 held, 1 violated (VIOLATION line plus replay file), 2 inconclusive.
"""
import os
import sys

sys.dont_write_bytecode = True
for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for _p in (REPO, os.path.join(VERIF, 'lib')):
    if _p not in sys.path:
        sys.path.insert(0, _p)

import contextlib
import hashlib
import json
import multiprocessing as mp
import resource
import shutil
import signal
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

np.seterr(all='ignore')
warnings.simplefilter('ignore')

P1 = 1e-3        # first stage: suspicious
P2 = 1e-6        # second stage, on fresh and more data: violated
PHARD = 1e-13    # first stage alone: violated
MON_TOOL = 3
STEP_TOOL = 4


class StepBudgetExceeded(BaseException):
    """A single library call executed more loop iterations and calls than it may need."""


class TooExpensive(Exception):
    """A call was given up on."""


class MonitorViolation(BaseException):
    """Raised by a monitor inside a callback, when going on makes no sense."""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist() if x.size <= 200 else x.ravel()[:200].tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    return repr(x)[:300]


class Ctx:
    def __init__(self, prop, task, seed, tier):
        self.prop, self.task, self.seed, self.tier = prop, task, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(f'{prop}/{task}'.encode())])
        self.events = {}
        self.n_eval = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.findings = []
        self.notes = []
        self.stats = []
        self.min_events = {}

    quick = property(lambda self: self.tier == 'quick')

    def n(self, quick, thorough=None):
        """Pick a workload size by tier."""
        return quick if self.tier == 'quick' else (thorough if thorough is not None else 6 * quick)

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def expect(self, kind, n=1):
        """The verdict needs at least n such events, else the run is inconclusive."""
        self.min_events[kind] = max(n, self.min_events.get(kind, 0))

    def case(self, *key, n=1):
        """Count a generated case, distinct by key."""
        self.n_eval += n
        h = hashlib.blake2b(repr(jsonable(key)).encode(), digest_size=8).digest()
        if h not in self.distinct:
            self.distinct.add(h)
            if len(self.samples) < 2:
                self.samples.append({'task': self.task, 'case': jsonable(key)})

    def violate(self, what, **witness):
        if len(self.violations) < 20:
            self.violations.append({'what': what, 'witness': jsonable(witness)})
        else:
            self.violations[-1]['more'] = self.violations[-1].get('more', 0) + 1

    def check(self, ok, what, **witness):
        """Deterministic oracle over one observation."""
        self.event('checks')
        if not bool(ok):
            self.violate(what, **witness)
            return False
        return True

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, **witness):
        got_, want_ = np.asarray(got, float), np.asarray(want, float)
        try:
            ok = got_.shape == want_.shape and np.allclose(got_, want_, rtol=rtol, atol=atol, equal_nan=True)
        except Exception:
            ok = False
        return self.check(ok, what, got=got, want=want, **witness)

    def finding(self, key, observed, what):
        """A genuine defect, identified by its mechanism. Only listed ones are tolerated."""
        self.event('finding_probes')
        if observed:
            self.findings.append({'key': key, 'what': what})

    def stat(self, name, run, n, scale=4):
        """Statistical oracle. run(n, rng) draws a sample from the real code and returns {test: p-value}.

        Suspicious results are only believed when they repeat, stronger, on a fresh and larger sample.
        """
        p1 = run(int(n), self.rng)
        self.event('stat_tests', len(p1))
        self.event('stat_draws', int(n))
        bad = {}
        for k, p in p1.items():
            p = 0. if p is None or np.isnan(p) else float(p)
            if p < PHARD:
                self.violate(f'{name}: {k} rejected', p=p, n=int(n), confirmed='first stage')
            elif p < P1:
                bad[k] = p
            self.stats.append(p)
        if bad:
            self.event('stat_escalations')
            p2 = run(int(n * scale), self.rng)
            self.event('stat_draws', int(n * scale))
            for k, p in bad.items():
                q = p2.get(k, 1.)
                q = 0. if q is None or np.isnan(q) else float(q)
                if q < P2:
                    self.violate(f'{name}: {k} rejected', p_first=p, p_second=q, n=int(n), n_second=int(n * scale))
        return p1

    @contextlib.contextmanager
    def affordable(self, budget=3_000_000, after=1.5, limit=8):
        """Bound a rejection sampler whose cost is finite but heavy-tailed: a few calls over budget are given up on
        (mon.TooExpensive), more than that are taken for a loop that does not end."""
        self.event('guarded_calls')
        try:
            with step_guard(budget, after):
                yield
        except (StepBudgetExceeded, MemoryError) as e:
            self.event('calls_over_budget')
            if self.events['calls_over_budget'] > limit + .03 * self.events['guarded_calls']:
                raise StepBudgetExceeded(f'too many calls over budget; the last one: {e!r}') from e
            raise TooExpensive from e

    def dump(self):
        return dict(task=self.task, events=self.events, n_eval=self.n_eval, distinct=self.distinct,
                    samples=self.samples, violations=self.violations, findings=self.findings, notes=self.notes,
                    stats=self.stats, min_events=self.min_events)


@contextlib.contextmanager
def step_guard(budget=20_000_000, after=4.0):
    """Bound one library call by logical steps (jumps, branches and function starts).

    Counting starts only after the call has used some processor time, so that normal calls pay nothing; what is decided
    on is the number of steps counted, never the time.
    """
    m = sys.monitoring
    ev = m.events.JUMP | m.events.PY_START | m.events.BRANCH
    state = {'n': 0, 'on': False}

    def tick(*_):
        state['n'] += 1
        if state['n'] > budget:
            stop()
            raise StepBudgetExceeded(f'more than {budget} steps')

    def start(*_):
        if not state['on']:
            try:
                m.use_tool_id(STEP_TOOL, 'verif-steps')
            except ValueError:  # an outer guard is counting already
                return
            state['on'] = True
            for e in (m.events.JUMP, m.events.PY_START, m.events.BRANCH):
                m.register_callback(STEP_TOOL, e, tick)
            m.set_events(STEP_TOOL, ev)

    def stop():
        if state['on']:
            state['on'] = False
            m.set_events(STEP_TOOL, 0)
            for e in (m.events.JUMP, m.events.PY_START, m.events.BRANCH):
                m.register_callback(STEP_TOOL, e, None)
            m.free_tool_id(STEP_TOOL)

    old = signal.signal(signal.SIGPROF, start)
    left, _ = signal.setitimer(signal.ITIMER_PROF, after)
    try:
        yield state
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        stop()
        if left:  # an outer guard was pending
            signal.setitimer(signal.ITIMER_PROF, max(left, 1.))


class LineCoverage:
    """Which lines and functions of ctbayes this process executed. Costs one callback per line."""

    def __init__(self):
        self.lines, self.funcs = set(), set()
        m = sys.monitoring
        base = os.path.join(os.path.realpath(REPO), 'ctbayes') + os.sep

        def line(code, ln):
            f = code.co_filename
            if f.startswith(base):
                self.lines.add((f[len(base):], ln))
                self.funcs.add((f[len(base):], code.co_qualname))
            return m.DISABLE
        try:
            m.use_tool_id(MON_TOOL, 'verif-lines')
        except ValueError:
            return
        m.register_callback(MON_TOOL, m.events.LINE, line)
        m.set_events(MON_TOOL, m.events.LINE)


INCONCLUSIVE = (MemoryError, OSError, KeyboardInterrupt, ImportError, TimeoutError)


def run_task(prop, task, seed, tier):
    name, fn, kw = task
    ctx = Ctx(prop, name, seed, tier)
    np.random.seed(zlib.crc32(f'{seed}/{name}'.encode()) % (2 ** 32))
    t0 = time.time()
    status, err = 'done', None
    try:
        with step_guard(100_000_000, 400. if tier == 'quick' else 3600.):
            fn(ctx, **kw)
    except StepBudgetExceeded as e:
        ctx.violate('call does not terminate within its step budget', error=str(e), trace=traceback.format_exc()[-3000:])
    except MonitorViolation as e:
        ctx.violate(str(e), trace=traceback.format_exc()[-2000:])
    except INCONCLUSIVE as e:
        status, err = 'inconclusive', traceback.format_exc()[-3000:]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in tb)
        ctx.violate(('library raised ' if inside else 'unusable library result: ') + f'{type(e).__name__}: {e}',
                    trace=traceback.format_exc()[-3000:])
    loky = sys.modules.get('joblib.externals.loky.reusable_executor')
    if loky is not None and getattr(loky, '_executor', None) is not None:  # otherwise its idle workers keep this process alive
        try:
            loky._executor.shutdown(wait=True, kill_workers=True)
        except Exception:
            pass
    out = ctx.dump()
    out.update(status=status, error=err, wall=time.time() - t0)
    return out


def _worker(prop, tasks, seed, tier, inq, outq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    cov = LineCoverage()
    while True:
        i = inq.get()
        if i is None:
            break
        outq.put(('start', i, os.getpid()))
        outq.put(('done', i, run_task(prop, tasks[i], seed, tier)))
    outq.put(('cov', cov.lines, cov.funcs))


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def run_check(prop, tasks, rule, assumptions=(), level='exploration', only=None, n_proc=None, limit=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = zlib.crc32(os.environ['VERIF_SEED'].encode())
    limit = limit or (780 if tier == 'quick' else 6 * 3600)
    n_proc = n_proc or min(8, os.cpu_count() or 1)
    if only:
        tasks = [t for t in tasks if t[0] in only]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.environ['JOBLIB_TEMP_FOLDER'] = scratch
    mpc = mp.get_context('fork')
    inq, outq = mpc.Queue(), mpc.Queue()
    for i in range(len(tasks)):
        inq.put(i)
    procs = [mpc.Process(target=_worker, args=(prop, tasks, seed, tier, inq, outq), daemon=False) for _ in range(min(n_proc, len(tasks)))]
    for _ in procs:
        inq.put(None)
    for p in procs:
        p.start()
    results, lines, funcs, n_cov, running, lost = {}, set(), set(), 0, {}, []
    while n_cov < len(procs):
        try:
            msg = outq.get(timeout=1.0)
        except Exception:
            if time.time() - t0 > limit:
                lost.append('watchdog: run exceeded its wall clock limit')
                break
            if not any(p.is_alive() for p in procs):
                try:
                    msg = outq.get(timeout=1.0)
                except Exception:
                    break
            else:
                dead = [p for p in procs if not p.is_alive() and p.exitcode != 0]
                if dead and len(dead) + n_cov >= len(procs):
                    break
                continue
        if msg[0] == 'start':
            running[msg[1]] = msg[2]
        elif msg[0] == 'done':
            results[msg[1]] = msg[2]
            running.pop(msg[1], None)
        else:
            n_cov += 1
            lines |= msg[1]
            funcs |= msg[2]
    for p in procs:
        if p.is_alive():
            p.join(0.5)
        if p.is_alive():
            p.kill()
    shutil.rmtree(scratch, ignore_errors=True)
    for i in range(len(tasks)):
        if i not in results:
            lost.append(f'no result from task {tasks[i][0]}')

    # merge
    events, min_events, distinct, samples, viol, incon, stats, finds = {}, {}, set(), [], [], list(lost), [], {}
    n_eval = 0
    for i in sorted(results):
        r = results[i]
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['min_events'].items():
            if r['events'].get(k, 0) < v and not r['violations']:
                incon.append(f"task {r['task']}: observed {r['events'].get(k, 0)} < {v} {k} events")
        n_eval += r['n_eval']
        distinct |= {(r['task'], h) for h in r['distinct']}
        samples += r['samples']
        stats += r['stats']
        for v in r['violations']:
            viol.append(dict(v, task=r['task']))
        for f in r['findings']:
            finds.setdefault(f['key'], f['what'])
        if r['status'] != 'done':
            incon.append(f"task {r['task']}: {r['error']}")
    known = {f['key']: f for f in load_known() if f['property'] == prop and f.get('status', 'finding') == 'finding'}
    for k, what in finds.items():
        if k in known:
            print(f'KNOWN-FINDING: property={prop} [{k}] {known[k]["what"]}')
        else:
            viol.append({'what': f'unlisted finding {k}: {what}', 'witness': {}, 'task': 'finding'})
    if not viol and not n_eval:
        incon.append('no cases were observed')

    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    wall = time.time() - t0
    n_lines = {}
    for f, _ in lines:
        n_lines[f] = n_lines.get(f, 0) + 1
    if not only:
        evidence = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': {
                'evaluations': n_eval, 'distinct_nontrivial': len(distinct), 'rule': rule,
                'samples': samples[:12], 'tasks': len(results), 'events': dict(sorted(events.items())),
                'stat_p_values': len(stats), 'stat_min_p': float(min(stats)) if stats else None,
                'stat_median_p': float(np.median(stats)) if stats else None,
                'ctbayes_functions_reached': len(funcs), 'ctbayes_lines_reached': n_lines,
                'slowest_tasks': [[r['task'], round(r['wall'], 2)] for r in sorted(results.values(), key=lambda r: -r['wall'])[:5]],
                'inconclusive': incon[:10], 'known_findings_seen': sorted(k for k in finds if k in known)},
            'assumptions': list(assumptions), 'wall_s': round(wall, 2), 'violations': len(viol)}
        with open(os.path.join(ev_dir, f'{prop}.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
    if viol:
        path = os.path.join(ev_dir, 'replay', f'{prop}-{tier}-{seed}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'violations': viol[:60],
                       'replay': [f'cd {VERIF} && VERIF_SEED={seed} VERIF_TIER={tier} ./run {prop} --task {t!r}'
                                  for t in sorted({v["task"] for v in viol})]}, f, indent=1)
            f.write('\n')
        for v in viol[:8]:
            print(f"  {v['task']}: {v['what']}  {json.dumps(v['witness'])[:400]}")
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if incon:
        for m in incon[:10]:
            print('INCONCLUSIVE:', m)
        return 2
    print(f'{prop} held: {n_eval} cases, {len(distinct)} distinct, {events.get("checks", 0)} checks, {len(stats)} statistical tests, '
          f'{len(funcs)} functions reached, {wall:.1f} s')
    return 0
