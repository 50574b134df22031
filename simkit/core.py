"""Driver shared by all checks: seeds -> scenarios -> simulated runs -> verdict.

A *scenario* is a JSON-able dict that fixes one execution completely: the
workload, the stimulus, the schedule choices and the fault plan.  It is derived
from one integer (VERIF_SEED, the property id and the scenario number).  A check
module provides

    PROPERTY, LEVEL, RULE, ASSUMPTIONS, COMPONENTS
    budget(tier)            -> (number of scenarios, wall cap in seconds)
    make(rng, i, tier)      -> scenario
    run(scenario)           -> Outcome
    shrink(scenario)        -> iterable of simpler scenarios (optional)
    prepare(tier)           -> run once before the workers start (optional)

`run` must be a pure function of the scenario and of the code in /repo.
"""
import concurrent.futures as cf
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SCENARIO_WALL = 120          # seconds; typical scenarios take milliseconds


class HarnessError(Exception):
    """The simulator itself misbehaved: never reported as a violation."""


class Violation(Exception):
    """Raised inside a run when the property does not hold."""

    def __init__(self, kind, detail, key=None):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind            # class used while minimising
        self.detail = detail
        self.key = key or kind      # identity used by the known-findings file


class Outcome(object):
    """What one simulated run did."""

    def __init__(self):
        self.violations = []        # [{'kind','detail','key'}]
        self.events = []            # event log (strings); digested, not stored
        self.nontrivial = None      # hashable identity of the run if non-trivial
        self.faults = {}            # fault kind -> times actually injected
        self.probes = {}            # rare condition -> times reached
        self.steps = 0              # simulated steps
        self.simtime = 0            # simulated time units
        self.nruns = 1              # executions performed for this scenario
        self.sample = None          # short human-readable description
        self.states = []            # hashed states/interleavings reached

    def log(self, *words):
        self.events.append(' '.join(str(w) for w in words))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def fail(self, kind, detail, key=None):
        self.violations.append({'kind': kind, 'detail': str(detail)[:4000],
                                'key': key or kind})

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(e.encode('utf-8', 'replace'))
            h.update(b'\n')
        for v in self.violations:
            h.update(repr(sorted(v.items())).encode())
        return h.hexdigest()[:16]


def derive(seed, *words):
    """A child seed: the only way randomness enters the system."""
    h = hashlib.sha256(repr((int(seed),) + words).encode())
    return int.from_bytes(h.digest()[:8], 'big')


def rng_for(seed, *words):
    return random.Random(derive(seed, *words))


class ScenarioTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise ScenarioTimeout()


@contextlib.contextmanager
def wall_limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    """The code under test prints progress; keep stdout for verdict lines."""
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


class Scratch(object):
    """A private scratch directory, always below one root and always removed."""

    def __init__(self, tag='run'):
        self.path = tempfile.mkdtemp(prefix='vsim_%s_' % tag, dir=scratch_root())

    def __enter__(self):
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)
        return False


def scratch_root():
    root = os.environ.get('VSIM_SCRATCH')
    if not root:
        raise HarnessError('no scratch root')
    return root


def evaluate(mod, scenario):
    """Run one scenario; classify what escapes."""
    try:
        with wall_limit(getattr(mod, 'SCENARIO_WALL', SCENARIO_WALL)):
            with quiet():
                out = mod.run(scenario)
    except ScenarioTimeout:
        out = Outcome()
        out.fail('no-progress', 'the run did not finish within %d s of real time'
                 % getattr(mod, 'SCENARIO_WALL', SCENARIO_WALL))
    except Violation as v:
        out = Outcome()
        out.fail(v.kind, v.detail, v.key)
    except Exception as e:
        # raised by the code under test on a workload it has to accept?
        where = repo_frame(e)
        if where is None:
            raise
        out = Outcome()
        out.fail('exception', '%s at %s: %s' % (type(e).__name__, where, str(e)[:500]),
                 'exception:%s:%s' % (type(e).__name__, where))
    return out


def repo_frame(e):
    """file:function of the innermost frame in the code under test, if the
    exception came from there (or from a library it called)."""
    ret, tb = None, e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code
        if f.co_filename.startswith(os.path.join(REPO, 'pyverilog')):
            ret = '%s:%s' % (os.path.relpath(f.co_filename, REPO), f.co_name)
        elif f.co_filename.startswith(VERIF):
            ret = None
        tb = tb.tb_next
    return ret


def load(prop):
    return importlib.import_module('checks.%s' % prop.lower())


# ---------------------------------------------------------------- workers
_MOD = None
_CTX = None


def _init(prop, seed, tier):
    global _MOD, _CTX
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _MOD = load(prop)
    _CTX = (seed, tier)
    sys.setrecursionlimit(16 * 1024)


def _job(i):
    seed, tier = _CTX
    try:
        sc = _MOD.make(rng_for(seed, _MOD.PROPERTY, i), i, tier)
        t0 = time.time()
        out = evaluate(_MOD, sc)
        return (i, None, {
            'violations': out.violations, 'digest': out.digest(),
            'nontrivial': out.nontrivial, 'faults': out.faults,
            'probes': out.probes, 'steps': out.steps, 'simtime': out.simtime,
            'nruns': out.nruns, 'sample': out.sample, 'states': out.states,
            'wall': time.time() - t0,
            'scenario': sc if out.violations else None})
    except BaseException:
        return (i, traceback.format_exc(), None)


# ------------------------------------------------------------- minimising
def minimise(mod, scenario, kind, seconds=60):
    """Greedy shrink: keep a simpler scenario while the same class persists."""
    if not hasattr(mod, 'shrink'):
        return scenario, 0
    deadline = time.time() + seconds
    tried = 0
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for cand in mod.shrink(scenario):
            if time.time() > deadline:
                break
            tried += 1
            try:
                out = evaluate(mod, cand)
            except Exception:
                continue
            if any(v['kind'] == kind for v in out.violations):
                scenario = cand
                progress = True
                break
    return scenario, tried


def known_findings(prop):
    """[(key, text)] of the findings recorded for this property."""
    ret = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            d = json.loads(line)
            if d.get('property') == prop and d.get('status') == 'finding':
                ret.append((d['key'], d['what']))
    return ret


# ------------------------------------------------------------------ driver
def replay_file(prop, scenario, outcome_violation, seed):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': prop, 'seed': seed, 'scenario': scenario,
            'violation': outcome_violation}
    text = json.dumps(body, indent=1, sort_keys=True)
    name = '%s-%s.json' % (prop, hashlib.sha256(text.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        f.write(text)
    return path


def do_replay(path):
    body = json.load(open(path))
    mod = load(body['property'])
    if hasattr(mod, 'prepare'):
        mod.prepare('quick')
    out = evaluate(mod, body['scenario'])
    want = body['violation']
    for v in out.violations:
        if v['kind'] == want['kind']:
            print('VIOLATION property=%s replay=%s' % (body['property'], path))
            print('  ' + v['kind'] + ': ' + v['detail'])
            print('  log digest ' + out.digest())
            return 1
    for v in out.violations:
        print('different violation on replay: %s: %s' % (v['kind'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (body['property'], path))
        return 1
    print('replay: the property held (log digest %s)' % out.digest())
    return 0


def main(prop, tier, seed, workers=None, nscen=None, only=None, digests=None):
    t0 = time.time()
    mod = load(prop)
    n, cap = mod.budget(tier)
    if nscen:
        n = nscen
    workers = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    print('property=%s tier=%s seed=%d scenarios<=%d workers=%d' % (prop, tier, seed, n, workers))
    sys.stdout.flush()
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    indices = list(range(n)) if only is None else list(only)
    results, errors, found = {}, [], []
    known = dict(known_findings(prop))
    stopped = None
    ctx = mp.get_context('fork')
    ex = cf.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init,
                                initargs=(prop, seed, tier))
    try:
        pending = set()
        it = iter(indices)
        done_feeding = False
        while True:
            while not done_feeding and len(pending) < workers * 3:
                try:
                    pending.add(ex.submit(_job, next(it)))
                except StopIteration:
                    done_feeding = True
            if not pending:
                break
            done, pending = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in done:
                i, err, res = f.result()
                if err:
                    errors.append((i, err))
                    continue
                results[i] = res
                for v in res['violations']:
                    if v['key'] not in known:
                        found.append((i, v, res['scenario']))
            if found and not stopped:
                stopped = 'violation'
            if time.time() - t0 > cap and not stopped:
                stopped = 'wall cap %d s reached' % cap
            if len(errors) > 20 and not stopped:
                stopped = 'harness errors'
            if stopped:
                for f in pending:
                    f.cancel()
                if stopped == 'violation':
                    rest = [f for f in pending if not f.cancelled()]
                    d2, _ = cf.wait(rest, timeout=30)
                    for f in d2:
                        i, err, res = f.result()
                        if res:
                            results[i] = res
                            for v in res['violations']:
                                if v['key'] not in known:
                                    found.append((i, v, res['scenario']))
                break
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.terminate()
            except Exception:
                pass
    wall = time.time() - t0

    # ---- aggregate evidence
    agg = {'faults': {}, 'probes': {}}
    distinct, states = set(), set()
    runs = steps = simtime = 0
    known_hit = {}
    samples = []
    for i in sorted(results):
        r = results[i]
        runs += r['nruns']
        steps += r['steps']
        simtime += r['simtime']
        if r['nontrivial'] is not None:
            distinct.add(json.dumps(r['nontrivial'], sort_keys=True, default=str))
        states.update(map(str, r['states']))
        for k in ('faults', 'probes'):
            for a, b in r[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        for v in r['violations']:
            if v['key'] in known:
                known_hit[v['key']] = known_hit.get(v['key'], 0) + 1
        if r['sample'] is not None and len(samples) < 3:
            samples.append({'scenario': i, 'case': r['sample']})
    if digests is not None:
        for i in sorted(results):
            digests[i] = results[i]['digest']

    status = 0
    for key, what in known.items():
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)'
              % (prop, what, known_hit.get(key, 0)))
    new = []
    if found:
        found.sort(key=lambda x: x[0])
        by_kind = {}
        for i, v, sc in found:
            by_kind.setdefault(v['kind'], (i, v, sc))
        for kind, (i, v, sc) in list(by_kind.items())[:2]:
            small, tried = minimise(mod, sc, kind, getattr(mod, 'SHRINK_SECONDS', 45))
            out = evaluate(mod, small)
            vv = [x for x in out.violations if x['kind'] == kind]
            if not vv:
                small, vv = sc, [v]
            path = replay_file(prop, small, vv[0], seed)
            # confirm in a fresh interpreter
            rc = confirm(path)
            if rc != 1:
                path = replay_file(prop, sc, v, seed)
                rc = confirm(path)
            if rc == 1:
                status = 1
                new.append(v)
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print('  scenario %d (seed %d), %d shrink attempts' % (i, seed, tried))
                print('  %s: %s' % (vv[0]['kind'], vv[0]['detail'][:1500]))
            else:
                errors.append((i, 'violation did not replay: %s (replay exit %s)' % (v, rc)))
    cov = {
        'evaluations': runs, 'scenarios': len(results),
        'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
        'samples': samples,
        'simulated_steps': steps, 'simulated_time_units': simtime,
        'runs_per_hour': int(runs * 3600 / max(wall, 0.001)),
        'seeds_per_hour': int(len(results) * 3600 / max(wall, 0.001)),
        'faults_injected': agg['faults'], 'probes': agg['probes'],
        'distinct_states_or_interleavings': len(states),
        'state_measure': getattr(mod, 'STATE_MEASURE', ''),
        'components': mod.COMPONENTS,
        'known_findings_seen': known_hit,
        'stopped': stopped or 'all scenarios run',
        'workers': workers,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': cov, 'assumptions': mod.ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    evd = os.environ.get('VSIM_EVIDENCE_DIR', os.path.join(VERIF, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d scenarios, %d runs, %d distinct non-trivial, %.1f s; faults %s; probes %s'
          % (prop, len(results), runs, len(distinct), wall, agg['faults'], agg['probes']))
    if status == 0:
        if errors:
            for i, e in errors[:3]:
                print('HARNESS ERROR in scenario %s:\n%s' % (i, e))
            status = 2
        elif len(results) < min(n, getattr(mod, 'MIN_SCENARIOS', 20)) and only is None:
            print('HARNESS ERROR: only %d scenarios were completed' % len(results))
            status = 2
        else:
            for k in getattr(mod, 'REQUIRED_PROBES', ()):
                if not agg['probes'].get(k) and not agg['faults'].get(k):
                    print('note: probe %s was not reached in this run' % k)
    return status


def confirm(path):
    env = dict(os.environ)
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(VERIF, 'run.py'),
                        '--replay', path], env=env, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=400)
    return p.returncode
