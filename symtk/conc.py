"""Runs harnesses concretely on the untouched tenkit (under /opt/venv/bin/python): replays of solver models,
validation of the encoding.   usage: conc.py JOBS.json OUT.json"""
import contextlib
import importlib
import io
import json
import os
import re
import random
import shutil
import signal
import sys
import tempfile
import traceback
import warnings
import zlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
SRC = os.environ.get('TENKIT_SRC', '/repo/src')
sys.path.insert(0, SRC)

import numpy as np          # noqa: E402
from symtk import givens    # noqa: E402

OPS = {'<': lambda x, m: x < -m, '<=': lambda x, m: x <= 0, '>': lambda x, m: x > m, '>=': lambda x, m: x >= 0,
       '==': lambda x, m: abs(x) < 1e-9, '!=': lambda x, m: abs(x) > m}


class Discard(BaseException):
    pass


class Violation(BaseException):
    pass


class TK:
    NAMES = dict(base='tenkit.base', utils='tenkit.utils', metrics='tenkit.metrics', log='tenkit.log',
                 decs='tenkit.decomposition.decompositions', cp='tenkit.decomposition.cp',
                 parafac2='tenkit.decomposition.parafac2', cmtf='tenkit.decomposition.cmtf',
                 loggers='tenkit.decomposition.logging.logger', basedec='tenkit.decomposition.base_decomposer')

    def __getattr__(self, n):
        m = importlib.import_module(self.NAMES[n])
        setattr(self, n, m)
        return m


def _bad(v):
    return v is None or not np.isfinite(v) or abs(v) > 1e5


class ConcCtx:
    sym = False

    def __init__(self, inputs, seed, float_mode=False):
        import h5py
        self.inputs = inputs or {}
        self.rng = random.Random(seed)
        self.h5py = h5py
        self.tk = TK()
        self.float_mode = float_mode
        self.used = {}
        self.failures = []
        self.observed = []
        self._lab = {}
        self.scale = 1.0
        self._dir = None
        self.nrand = 0
        self.rs = np.random.RandomState(seed)

    layout = None

    def lay(self, a):
        if self.layout not in ('F', 'S') or not a.ndim:
            return a
        if self.layout == 'S':
            big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
            big[..., ::2] = a
            return big[..., ::2]
        return np.array(a, order=self.layout)

    # ---- inputs
    def real(self, name, shape=(), draw=None, lo=None, hi=None, unit=False, pos=False, nonneg=False, integral=False):
        shape = tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        vals = list(self.inputs.get(name) or [])
        out = []
        ints = self.layout in ('I', 'M', 'N') and shape and not unit
        if ints:
            self._nreal = getattr(self, '_nreal', -1) + 1
            ints = self.layout != ('N' if self._nreal % 2 == 0 else 'M')
        integral = integral or bool(ints)
        spec = dict(unit=unit, pos=pos, nonneg=nonneg or (lo is not None and lo >= 0), integral=integral)
        for i in range(n):
            v = vals[i] if i < len(vals) else None
            if _bad(v):
                v = _draw(self.rng, spec)
                if hi is not None and v > hi:
                    v = hi * self.rng.random()
            elif 0 < abs(v) < 1e-4 and not self.float_mode:
                v = 0.0 if not pos else 1e-4
            if ints:
                v = float(round(v))
                if pos or spec['nonneg']:
                    v = abs(v) or float(pos)
            if spec['nonneg'] and v < 0:
                raise Discard('negative')
            out.append(float(v))
        self.used[name] = out
        a = np.array(out, dtype=int if ints else float).reshape(shape)
        return self.lay(a) if shape else float(a)

    def loose_svd(self):
        pass

    def int(self, name, lo, hi):
        v = self.inputs.get(name)
        if v is None or not lo <= v <= hi:
            v = self.rng.randint(lo, hi)
        self.used[name] = v
        return int(v)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def orthonormal(self, name, n, k):
        vals = list(self.inputs.get(name) or [])
        m = 2 * givens.pairs(n, k) + (1 if n == k else 0)
        if len(vals) != m or any(v is None for v in vals):
            vals = []
            for _ in range(givens.pairs(n, k)):
                t = self.rng.uniform(-3, 3)
                vals += [float(np.cos(t)), float(np.sin(t))]
            if n == k:
                vals.append(self.rng.choice([-1.0, 1.0]))
        self.used[name] = vals
        return self.lay(givens.build(n, k, vals))

    def data(self, name, shape, lo=0.2, hi=1.2):
        rs = np.random.RandomState(zlib.crc32(name.encode()) % 2**31)
        return rs.uniform(lo, hi, shape)

    def const(self, a):
        return self.lay(np.array(a, dtype=float))

    def zeros(self, shape):
        return self.lay(np.zeros(shape))

    def path(self, name):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='tkconc_')
        return os.path.join(self._dir, name)

    def cleanup(self):
        if self._dir is not None and self._dir.startswith(tempfile.gettempdir()):
            shutil.rmtree(self._dir, ignore_errors=True)

    # ---- assumptions
    def assume(self, s, op, margin=1e-3):
        if margin is None:
            margin = 1e-3
        if not OPS[op](float(np.asarray(s).reshape(-1)[0]), margin):
            raise Discard('assumption %s' % op)

    def assume_int(self, c):
        if not c:
            raise Discard('assumption')

    assume_that = assume_int

    def fullrank(self, M):
        M = np.asarray(M, dtype=float)
        if M.shape[0] < M.shape[1] or not np.all(np.isfinite(M)):
            raise Discard('rank')
        s = np.linalg.svd(M, compute_uv=False)
        if s[-1] < 1e-3 * s[0] or s[-1] < 1e-3:
            raise Discard('rank')

    # ---- values
    def single(self, x):
        return float(np.float32(x))

    def sqrt(self, x):
        return np.sqrt(x)

    def named(self, A):
        return A

    def svd_known(self, *a):
        pass

    def copy(self, x):
        if isinstance(x, np.ndarray):
            return self.lay(x.copy())
        if isinstance(x, (list, tuple)):
            return type(x)(self.copy(y) for y in x)
        return x

    # ---- obligations
    def _label(self, label):
        n = self._lab.get(label, 0)
        self._lab[label] = n + 1
        return label if n == 0 else '%s#%d' % (label, n)

    def _fail(self, label, why):
        self.failures.append((label, why))
        if len(self.failures) >= 5:
            raise Violation()

    def eq(self, a, b, label, observe=True, tol=None):
        label = self._label(label)
        A, B = np.asarray(a), np.asarray(b)
        if A.shape != B.shape:
            self._fail(label, 'shape %s instead of %s' % (A.shape, B.shape))
            return
        try:
            A, B = A.astype(float), B.astype(float)
        except (TypeError, ValueError):
            self._fail(label, 'not numbers')
            return
        if observe:
            for i, x in enumerate(A.reshape(-1)[:12]):
                self.observed.append(('%s[%d]' % (label, i), float(x)))
        if A.size == 0:
            return
        if not np.all(np.isfinite(A)) or not np.all(np.isfinite(B)):
            if not np.all(np.isfinite(B)) and np.all(np.isfinite(A)):
                raise Discard('reference value is not finite')
            self._fail(label, 'not finite: %s' % A.reshape(-1)[:6])
            return
        t = (tol or 1e-6) * (self.scale + np.max(np.abs(B)))
        d = np.abs(A - B)
        if np.max(d) > t:
            i = int(np.argmax(d))
            self._fail('%s[%d]' % (label, i), '%.12g instead of %.12g' % (A.reshape(-1)[i], B.reshape(-1)[i]))

    def same(self, a, b, label, observe=True, tol=None):
        label = self._label(label)
        A, B = np.asarray(a), np.asarray(b)
        if A.shape != B.shape:
            self._fail(label, 'shape %s instead of %s' % (A.shape, B.shape))
            return
        if observe and A.dtype.kind in 'fiub':
            for i, x in enumerate(A.reshape(-1)[:12]):
                self.observed.append(('%s[%d]' % (label, i), float(x)))
        if not np.array_equal(A, B, equal_nan=A.dtype.kind in 'fc' and B.dtype.kind in 'fc'):
            self._fail(label, '%s instead of %s' % (A.reshape(-1)[:6], B.reshape(-1)[:6]))

    def le(self, a, b, label):
        self.ge(b, a, label)

    def ge(self, a, b, label):
        label = self._label(label)
        A, B = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        if A.size == 0:
            return
        if not np.all(np.isfinite(A)) or not np.all(np.isfinite(B)):
            self._fail(label, 'not finite')
            return
        t = 1e-6 * (self.scale + np.max(np.abs(A)) + np.max(np.abs(B)))
        d = A - B
        if np.min(d) < -t:
            i = int(np.argmin(d))
            self._fail('%s[%d]' % (label, i), '%.12g is not at least %.12g' % (A.reshape(-1)[i], B.reshape(-1)[i]))

    def check(self, cond, label):
        label = self._label(label)
        if not cond:
            self._fail(label, 'does not hold')

    def ieq(self, a, b, label):
        label = self._label(label)
        ok = isinstance(a, (int, np.integer)) and int(a) == int(b)
        if not ok:
            self._fail(label, '%r instead of %r' % (a, b))

    def raises(self, excs, f, label):
        label = self._label(label)
        try:
            f()
        except excs as ex:
            return ex
        self._fail(label, 'no error raised')

    def unchanged(self, a, snap, label):
        if isinstance(a, (list, tuple)):
            if len(a) != len(snap):
                self.check(False, label)
                return
            for i, (x, y) in enumerate(zip(a, snap)):
                self.unchanged(x, y, '%s.%d' % (label, i))
            return
        if isinstance(a, (np.ndarray, float)):
            self.same(a, snap, label, observe=False)
            return
        self.check(a is snap or a == snap, label)

    @contextlib.contextmanager
    def quiet(self):
        yield

    def note(self, s):
        pass

    def rand_state(self):
        return self.nrand

    def reseed(self, state):
        self.nrand = state

    # ---- random draws of the code under test come from the inputs
    def _randdraw(self, kind, size):
        sh = () if size is None else ((int(size),) if isinstance(size, (int, np.integer)) else tuple(int(x) for x in size))
        name = 'rand%d' % self.nrand
        self.nrand += 1
        if self.float_mode:
            return self.rs.standard_normal(sh or None) if kind == 'normal' else self.rs.uniform(0, 1, sh or None)
        n = int(np.prod(sh)) if sh else 1
        vals = list(self.used.get(name) or self.inputs.get(name) or [])
        out = []
        for i in range(n):
            v = vals[i] if i < len(vals) else None
            if _bad(v):
                v = self.rng.uniform(0.05, 0.95) if kind == 'uniform' else self.rng.uniform(-2, 2)
            if abs(v) < 1e-6:
                raise Discard('draw of probability zero')
            out.append(v)
        self.used[name] = out
        a = np.array(out, dtype=float).reshape(sh)
        return a if sh else float(a)

    @contextlib.contextmanager
    def patched_random(self):
        old = {}

        def setp(n, f):
            old[n] = getattr(np.random, n)
            setattr(np.random, n, f)
        setp('randn', lambda *s: self._randdraw('normal', s))
        setp('rand', lambda *s: self._randdraw('uniform', s))
        setp('standard_normal', lambda size=None: self._randdraw('normal', size))
        setp('normal', lambda loc=0., scale=1., size=None: self._randdraw('normal', size) * scale + loc)
        setp('uniform', lambda low=0., high=1., size=None: self._randdraw('uniform', size) * (high - low) + low)
        for n in ('random', 'random_sample', 'ranf', 'sample'):
            setp(n, lambda size=None: self._randdraw('uniform', size))
        try:
            yield
        finally:
            for n, f in old.items():
                setattr(np.random, n, f)


def _draw(rng, spec):
    if spec.get('unit'):
        return round(rng.uniform(0.05, 0.95), 3)
    if spec.get('integral'):
        return float(rng.randint(0, 3) if spec.get('nonneg') else rng.randint(-3, 3))
    x = round(rng.uniform(-2, 2), 2)
    if spec.get('pos') or spec.get('nonneg'):
        x = abs(x)
    if abs(x) < 0.05:
        x = 0.3
    return x


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def internal(e):
    if isinstance(e, AttributeError):
        return re.search(r"has no attribute '_[A-Za-z]", str(e)) is not None
    return isinstance(e, TypeError) and re.search(r"\b_\w+\(\) (missing|takes|got) ", str(e)) is not None and '__init__()' not in str(e)


def run_job(mod, job):
    c = ConcCtx(job.get('inputs'), job.get('seed', 1), job['config'].get('float_mode', False))
    kw = {k: v for k, v in job['config'].items() if k not in ('name', 'float_mode', 'limits', 'layout')}
    c.layout = job['config'].get('layout')
    res = dict(id=job['id'])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(job.get('timeout', 40)))
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), c.patched_random(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            try:
                mod.harness(c, **kw)
            except Violation:
                pass
        res['status'] = 'fail' if c.failures else 'ok'
    except Discard as e:
        res['status'] = 'fail' if c.failures else 'discard'
        res['why'] = str(e)
    except Timeout:
        res['status'] = 'timeout'
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        if '/props/' in tb[-1].filename and internal(e):
            # the harness itself uses a part of the implementation which is not there any more
            c.cleanup()
            return dict(id=job['id'], status='discard', why=str(e), failures=[], observed=[], used=c.used)
        where = [f for f in tb if '/tenkit/' in f.filename] or tb
        c.failures.append(('exception', '%s: %s at %s:%d' % (type(e).__name__, str(e)[:160],
                                                             where[-1].filename.split('/')[-1], where[-1].lineno)))
        res['status'] = 'fail'
        res['trace'] = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        c.cleanup()
    res['failures'] = c.failures[:5]
    res['observed'] = c.observed[:200]
    res['used'] = c.used
    return res


def main():
    spec = json.load(open(sys.argv[1]))
    import tenkit
    if not tenkit.__file__.startswith(SRC + os.sep):
        raise SystemExit('wrong tenkit: %s' % tenkit.__file__)
    mod = importlib.import_module('symtk.props.%s' % spec['module'])
    out = [run_job(mod, j) for j in spec['jobs']]
    json.dump(out, open(sys.argv[2], 'w'))


if __name__ == '__main__':
    # harness modules import symtk.conc for Discard etc.
    sys.modules['symtk.conc'] = sys.modules['__main__']
    main()
