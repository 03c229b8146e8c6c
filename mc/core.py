"""Shared machinery: scratch space, parallel exploration, verdicts, evidence.

Nothing in here knows about toron.  A check is a module ``mc.checks.<id>``
that defines

* ``PROPERTY`` (the id), ``LEVEL``, ``ASSUMPTIONS``;
* ``explore(ctx)``: enumerate a bounded space of executions, calling
  ``ctx.run(cases)`` (or ``ctx.map``) and ``ctx.coverage(...)``;
* ``run_case(case)``: execute ONE case (a JSON-able description) against the
  real code and return a ``Result``.  Everything ``explore`` decides is
  decided by ``run_case`` so that any counterexample can be replayed alone
  with ``python -m mc.replay FILE``.
"""
import sys
sys.dont_write_bytecode = True

import atexit
import gc
import hashlib
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import shutil
import signal
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TORON_MC_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')

WORKERS = int(os.environ.get('TORON_MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)

# One call into the code under test takes milliseconds; a case that runs this
# long is reported as "does not terminate".
CASE_LIMIT_S = 240


# --------------------------------------------------------------------------
# Environment
# --------------------------------------------------------------------------
_main_pid = os.getpid()
SCRATCH = None


def setup_environment():
    """Put every temporary file of this run in one scratch directory."""
    global SCRATCH
    if SCRATCH:
        return SCRATCH
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    SCRATCH = tempfile.mkdtemp(prefix='toronmc-', dir=base)
    os.environ['TMPDIR'] = SCRATCH
    tempfile.tempdir = SCRATCH
    os.environ.setdefault('TZ', 'UTC')
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)

    def cleanup(pid=_main_pid, path=SCRATCH):
        if os.getpid() == pid:
            shutil.rmtree(path, ignore_errors=True)
    atexit.register(cleanup)
    return SCRATCH


_counter = [0]


def scratch_path(suffix=''):
    """A fresh path (not created) inside the scratch directory."""
    _counter[0] += 1
    return os.path.join(SCRATCH, f'p{os.getpid()}-{_counter[0]}{suffix}')


def scratch_dir():
    path = scratch_path()
    os.mkdir(path)
    return path


# --------------------------------------------------------------------------
# Results
# --------------------------------------------------------------------------
class Result:
    """Outcome of one case."""
    __slots__ = ('violations', 'counts', 'outcomes', 'data')

    def __init__(self):
        self.violations = []   # list of (key, message, case)
        self.counts = {}       # name -> int, summed over cases
        self.outcomes = set()  # hashes of distinct observed outcomes
        self.data = None       # optional payload for the explorer

    def fail(self, key, message, case=None):
        self.violations.append((key, message, case))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def outcome(self, obj):
        self.outcomes.add(digest(obj))


def digest(obj):
    return hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'),
                           digest_size=8).hexdigest()


class HangError(BaseException):
    pass


def _on_alarm(signum, frame):
    raise HangError()


def guarded(func, case):
    """Run func(case); turn any unexpected exception into a violation."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        return func(case)
    except HangError:
        r = Result()
        r.fail(f'hang:{digest(case)}',
               f'no termination within {CASE_LIMIT_S}s:\n' + traceback.format_exc(limit=-6),
               case)
        return r
    except KeyboardInterrupt:
        if os.getpid() == _main_pid:
            raise
        r = Result()
        r.fail(f'exc:KeyboardInterrupt:{digest(case)}',
               'stray interrupt:\n' + traceback.format_exc(limit=-8), case)
        return r
    except BaseException as err:  # noqa - includes SystemExit from the code under test
        r = Result()
        r.fail(f'exc:{type(err).__name__}:{digest(case)}',
               'unexpected exception:\n' + traceback.format_exc(limit=-8), case)
        return r
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


_FUNC = None


def _work(batch):
    out = []
    for case in batch:
        res = guarded(_FUNC, case)
        out.append((res.violations, res.counts, res.outcomes, res.data))
    return out


class Workers:
    """Forked workers that run the batches (inherited by fork) and send results.

    multiprocessing.Pool is not used: its terminate() can deadlock.
    """
    def __init__(self, batches):
        self.batches = batches
        self.conns = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for _ in range(min(WORKERS, len(batches))):
            ours, theirs = multiprocessing.Pipe()
            pid = os.fork()
            if not pid:
                status = 1
                try:
                    os.setpgid(0, 0)
                    ours.close()
                    for c in self.conns:
                        c.close()
                    while True:
                        n = theirs.recv()
                        theirs.send((n, _work(batches[n])))
                except EOFError:
                    status = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(status)
            theirs.close()
            self.conns[ours] = pid

    def results(self):
        """Yield the results in the order of the batches."""
        todo = iter(range(len(self.batches)))
        for c in self.conns:
            n = next(todo, None)
            if n is not None:
                c.send(n)
        ready = {}
        for want in range(len(self.batches)):
            while want not in ready:
                for c in multiprocessing.connection.wait(list(self.conns)):
                    try:
                        n, out = c.recv()
                        ready[n] = out
                        n = next(todo, None)
                        if n is not None:
                            c.send(n)
                    except (EOFError, OSError):
                        _, status = os.waitpid(self.conns.pop(c), 0)
                        raise RuntimeError(f'a worker process died (status {status})') from None
            yield ready.pop(want)

    def stop(self):
        for c, pid in self.conns.items():
            for kill in (os.killpg, os.kill):
                try:
                    kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(pid, 0)
            c.close()


# --------------------------------------------------------------------------
# Context handed to explore()
# --------------------------------------------------------------------------
class Context:
    def __init__(self, prop, level, tier, seed):
        self.prop, self.level, self.tier, self.seed = prop, level, tier, seed
        self.t0 = time.time()
        self.counts = {}
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.cov = {}
        self.capped = []
        self.known = load_known(prop)
        self.max_violations = int(os.environ.get('TORON_MC_VIOLATIONS', '5'))
        self.soft_limit = 420.0 if tier == 'quick' else float(
            os.environ.get('TORON_MC_THOROUGH_S', '840'))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def elapsed(self):
        return time.time() - self.t0

    def out_of_time(self):
        return self.elapsed() > self.soft_limit

    def stopped(self):
        return len(self.violations) >= self.max_violations

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def absorb(self, violations, counts, outcomes):
        for name, n in counts.items():
            self.counts[name] = self.counts.get(name, 0) + n
        self.outcomes |= outcomes
        for key, message, case in violations:
            if key in self.known:
                self.known_hits[key] = self.known[key]
                self.counts['known_finding_hits'] = self.counts.get('known_finding_hits', 0) + 1
            elif not self.stopped():
                self.violations.append((key, message, case))

    def map(self, func, cases, batch=None, label='cases'):
        """Run func on each case in parallel; yield (case, data) pairs.

        Stops early once enough violations were collected.  Reaching the time
        limit is recorded as a cap (the run is then not exhaustive).
        """
        global _FUNC
        cases = list(cases)
        if not cases:
            return
        if batch is None:
            batch = max(1, min(64, len(cases) // (WORKERS * 4) or 1))
        batches = [cases[i:i + batch] for i in range(0, len(cases), batch)]
        _FUNC = func
        done = 0
        if WORKERS == 1 or len(cases) == 1:
            it = ((b, _work(b)) for b in batches)
            pool = None
        else:
            gc.collect()
            gc.freeze()
            pool = Workers(batches)
            it = zip(batches, pool.results())
        try:
            for b, results in it:
                for case, (viol, counts, outcomes, data) in zip(b, results):
                    done += 1
                    self.absorb(viol, counts, outcomes)
                    yield case, data
                if self.stopped():
                    break
                if self.out_of_time() and done < len(cases):
                    self.capped.append(f'{label}: time limit after {done} of {len(cases)}')
                    break
        finally:
            if pool:
                pool.stop()

    def run(self, func, cases, batch=None, label='cases'):
        n = 0
        for case, _ in self.map(func, cases, batch=batch, label=label):
            n += 1
            if n in (1, 7, 97):
                self.sample(case)
        return n


# --------------------------------------------------------------------------
# Known findings
# --------------------------------------------------------------------------
def load_known(prop):
    """{key: what} of the findings listed for *prop* (never the fixed ones)."""
    try:
        with open(KNOWN) as f:
            doc = json.load(f)
    except FileNotFoundError:
        return {}
    return {k: e['what'] for e in doc.get('findings', []) if e['property'] == prop
            for k in e['keys']}


# --------------------------------------------------------------------------
# Entry point
# --------------------------------------------------------------------------
def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=repr)
        f.write('\n')
    os.replace(tmp, path)


def finish(ctx, assumptions):
    level = ctx.level
    cov = dict(ctx.counts)
    cov.update(ctx.cov)
    if level == 'model_checking':
        cov.setdefault('states', 0)
        cov.setdefault('transitions', 0)
        cov.setdefault('traces_validated_against_impl', cov['transitions'])
    else:
        cov.setdefault('evaluations', 0)
        cov.setdefault('distinct_nontrivial', len(ctx.outcomes))
        cov.setdefault('rule', '')
    cov['distinct_outcomes'] = len(ctx.outcomes)
    cov['samples'] = ctx.samples or ['(none)']
    cov['exhaustive'] = not ctx.capped and not ctx.violations
    if ctx.capped:
        cov['caps'] = ctx.capped
    evidence = {
        'property': ctx.prop,
        'tier': ctx.tier,
        'seed': ctx.seed,
        'level': level,
        'coverage': cov,
        'assumptions': assumptions,
        'wall_s': round(ctx.elapsed(), 3),
        'violations': len(ctx.violations),
    }
    write_json(os.path.join(EVIDENCE, f'{ctx.prop}.json'), evidence)
    for text in sorted(set(ctx.known_hits.values())):
        print(f'KNOWN-FINDING: property={ctx.prop} {text}')
    for i, (key, message, case) in enumerate(ctx.violations, 1):
        replay = os.path.join(EVIDENCE, f'replay-{ctx.prop}-{i}.json')
        write_json(replay, {'property': ctx.prop, 'key': key,
                            'message': message, 'case': case})
        print(f'VIOLATION property={ctx.prop} replay={replay}')
        print(f'  key: {key}')
        print('  ' + message.replace('\n', '\n  ')[:3000])
    brief = {k: v for k, v in cov.items() if isinstance(v, (int, bool))}
    print(f'{ctx.prop} {ctx.tier}: {brief} wall={evidence["wall_s"]}s')
    for c in ctx.capped:
        print(f'  cap: {c}')
    sys.stdout.flush()
    return 1 if ctx.violations else 0


def main(prop, tier=None):
    import importlib
    tier = tier or os.environ.get('VERIF_TIER') or 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    for name in os.listdir(EVIDENCE) if os.path.isdir(EVIDENCE) else []:
        if name.startswith(f'replay-{prop}-'):
            os.unlink(os.path.join(EVIDENCE, name))
    setup_environment()
    ctx = None
    assumptions = []
    try:
        try:
            mod = importlib.import_module(f'mc.checks.{prop.lower()}')
            ctx = Context(prop, mod.LEVEL, tier, seed)
            assumptions = list(mod.ASSUMPTIONS)
            mod.explore(ctx)
        except Exception:
            if ctx is None:
                ctx = Context(prop, 'other', tier, seed)
                ctx.cov['explanation'] = 'the check could not start'
            ctx.violations.insert(0, (
                'exc:explore', 'unexpected exception while exploring:\n'
                + traceback.format_exc(limit=-10), None))
        return finish(ctx, assumptions)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
