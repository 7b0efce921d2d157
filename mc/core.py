"""Shared machinery of the checks: tiers, counters, violations, evidence.

A check is a script `checks/cNN.py` that does

    from mc.core import Check
    chk = Check('C01')
    ...
    chk.finish()

Everything explored is counted through `chk.state(...)`, `chk.transition()`
and `chk.trace()`; a failed comparison is reported with `chk.fail(...)`.  The
first new violation of each `key` is kept; at `finish()` the replay files are
written and the VIOLATION lines printed.
"""
import contextlib
import hashlib
import io
import itertools
import json
import multiprocessing
import os
import pickle
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'hookeai')
for _p in (REPO, SRC):
    if _p not in sys.path:
        sys.path.insert(0, _p)
sys.dont_write_bytecode = True

try:
    import functools
    import tqdm as _tqdm
    _tqdm.tqdm.__init__ = functools.partialmethod(_tqdm.tqdm.__init__,
                                                  disable=True)
except ImportError:
    pass

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
# Checks cheap enough to explore their full bounds on every change
FULL = {f'c{k:02d}.py' for k in (8, 10, 11, 14, 19, 20, 22, 25, 27, 28, 29,
                                 33, 35, 40)}
THOROUGH = TIER == 'thorough' or os.path.basename(sys.argv[0]) in FULL
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
NPROC = max(1, min(8, os.cpu_count() or 1))
MAX_REPORT = 8


def scratch_root():
    root = os.environ.get('VERIF_SCRATCH')
    if not root:
        root = tempfile.mkdtemp(prefix='verif_mc.')
        os.environ['VERIF_SCRATCH'] = root
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid
                        and shutil.rmtree(root, ignore_errors=True))
    return root


class Scratch:
    """Fresh directory below the check's scratch directory."""
    _n = itertools.count()

    def __init__(self):
        self.path = os.path.join(scratch_root(),
                                 f'd{os.getpid()}_{next(self._n)}')
        os.makedirs(self.path)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def jsonable(x):
    try:
        import torch
        if isinstance(x, torch.Tensor):
            return {'tensor': x.detach().tolist(), 'dtype': str(x.dtype)}
    except Exception:
        pass
    try:
        import numpy
        if isinstance(x, numpy.ndarray):
            return {'array': x.tolist(), 'dtype': str(x.dtype)}
        if isinstance(x, numpy.generic):
            return x.item()
    except Exception:
        pass
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Tally:
    """Counts and failures; picklable, so that workers can return one."""

    def __init__(self):
        self.states = set()
        self.n_states_extra = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = {}
        self.counts = {}

    def state(self, key):
        """Record a distinct explored state; True if new."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(jsonable(x))

    def fail(self, key, message, replay):
        """Record a violation (the first, shortest one for each key)."""
        if key not in self.fails:
            self.fails[key] = {'message': message, 'replay': jsonable(replay)}

    def check(self, ok, key, message, replay):
        """One comparison: record a violation unless `ok`."""
        self.transitions += 1
        if not ok:
            self.fail(key, message, replay)
        return bool(ok)

    def merge(self, other):
        self.states |= other.states
        self.transitions += other.transitions
        self.traces += other.traces
        for s in other.samples:
            self.sample(s)
        for k, v in other.fails.items():
            self.fails.setdefault(k, v)
        for k, v in other.counts.items():
            self.count(k, v)


def where_raised(exc):
    """(in code under test?, short description) of an exception."""
    tb = traceback.extract_tb(exc.__traceback__)
    repo_frames = [f for f in tb if f.filename.startswith(REPO + os.sep)]
    last = repo_frames[-1] if repo_frames else (tb[-1] if tb else None)
    loc = (f'{os.path.relpath(last.filename, REPO)}:{last.name}'
           if last else '?')
    return bool(repo_frames), f'{type(exc).__name__}: {exc} [{loc}]'


def unusable(exc):
    """Exception of the harness that evaluating a malformed result of the
    code under test can cause (never seen on a tree where the property
    holds).  VERIF_DEBUG=1 lets it through."""
    return not os.environ.get('VERIF_DEBUG') and isinstance(
        exc, (ArithmeticError, AssertionError, AttributeError, EOFError,
              FileNotFoundError, FileExistsError, LookupError,
              NotADirectoryError, IsADirectoryError, TypeError, ValueError,
              RuntimeError, pickle.UnpicklingError))


class Check(Tally):

    def __init__(self, pid):
        super().__init__()
        self.pid = pid
        self.t0 = time.time()
        self.assumptions = []
        self.extra = {}
        self.level = None
        self.budget = float(os.environ.get(
            'VERIF_BUDGET', '3000' if TIER == 'thorough' else '420'))
        from mc.registry import PROPS
        for p in PROPS:
            if p['id'] == pid:
                self.level = p['level']
        import torch
        torch.set_num_threads(1)

    def pmap(self, func, items, chunk=1, procs=None):
        """Run `func(item, tally)` over all items in worker processes."""
        items = list(items)
        procs = min(procs or NPROC, max(1, len(items)))
        args = [(func, it) for it in items]
        if procs == 1:
            for a in args:
                self.merge(_worker(a))
            return
        ctx = multiprocessing.get_context('fork')
        scratch_root()
        with ctx.Pool(procs) as pool:
            for t in pool.imap(_worker, args, chunksize=chunk):
                self.merge(t)

    def run(self, name, func, *args):
        """Run one part of the check; an exception raised inside the code
        under test is a violation, one raised in the harness is an error."""
        try:
            func(self, *args)
        except Exception as exc:
            in_repo, desc = where_raised(exc)
            if not in_repo and not unusable(exc):
                raise
            self.fail(f'{name}:exception:{desc}',
                      ('unexpected exception ' if in_repo else
                       'result of unusable form: ') + desc,
                      {'part': name, 'args': args,
                       'traceback': traceback.format_exc()})

    # ------------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        new = []
        for key, f in self.fails.items():
            hit = next((k for k in known if k['match'] in
                        (key + ' ' + f['message'])), None)
            if hit is None:
                new.append((key, f))
            else:
                hit['seen'] = True
        for k in known:
            if k.get('seen'):
                print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for i, (key, f) in enumerate(new[:MAX_REPORT]):
            path = os.path.join(rdir, f'{self.pid}-{i}.json')
            with open(path, 'w') as fh:
                json.dump({'property': self.pid, 'key': key,
                           'message': f['message'], 'tier': TIER,
                           'seed': SEED, 'replay': f['replay'],
                           'rerun': f'bash run.sh {self.pid} {TIER}'}, fh,
                          indent=1)
            print(f'  {self.pid}: {key}: {f["message"]}'[:600])
            print(f'VIOLATION property={self.pid} replay={path}')
        cov = {'states': len(self.states), 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['(none)'], 'exhaustive': True}
        if self.level in ('exploration', 'fault_enumeration'):
            cov.update(evaluations=self.transitions,
                       distinct_nontrivial=len(self.states),
                       rule=self.extra.pop('rule', ''))
        cov.update(self.counts)
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'violations': len(new),
              'wall_s': round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'),
                  'w') as fh:
            json.dump(ev, fh, indent=1)
        print(f'{self.pid} {TIER}: states={len(self.states)} '
              f'transitions={self.transitions} traces={self.traces} '
              f'counts={self.counts} wall={ev["wall_s"]}s '
              f'violations={len(new)}')
        sys.stdout.flush()
        code = 1 if new else 0
        shutil.rmtree(scratch_root(), ignore_errors=True)
        os._exit(code)


def _worker(arg):
    func, item = arg
    t = Tally()
    import torch
    torch.set_num_threads(1)
    try:
        func(item, t)
    except Exception as exc:
        in_repo, desc = where_raised(exc)
        if not in_repo and not unusable(exc):
            raise
        t.fail(f'{func.__name__}:exception:{desc}',
               ('unexpected exception ' if in_repo else
                'result of unusable form: ') + desc,
               {'item': item, 'traceback': traceback.format_exc()})
    return t


def load_known(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    with open(path) as fh:
        data = json.load(fh)
    return [dict(k) for k in data['findings'] if k['property'] == pid]


def words(alphabet, depth):
    """All non-empty words up to a length, shortest first."""
    for n in range(1, depth + 1):
        yield from itertools.product(alphabet, repeat=n)
