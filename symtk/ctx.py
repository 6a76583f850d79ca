"""What a harness sees when it is executed symbolically."""
from fractions import Fraction
import contextlib
import warnings
import numpy as np
import z3
from . import poly, sym, npshim, givens
from .sym import Sym, SymInt, Poison, Unsupported, lift, ZERO, ONE
from .engine import OPS, NEG, Infeasible, PathLimit
from .npshim import SymArray


class TK:
    """lazy access to the tenkit modules"""
    NAMES = dict(base='tenkit.base', utils='tenkit.utils', metrics='tenkit.metrics', log='tenkit.log',
                 decs='tenkit.decomposition.decompositions', cp='tenkit.decomposition.cp',
                 parafac2='tenkit.decomposition.parafac2', cmtf='tenkit.decomposition.cmtf',
                 loggers='tenkit.decomposition.logging.logger', basedec='tenkit.decomposition.base_decomposer')

    def __init__(self, get):
        self._get = get
        get('tenkit')

    def __getattr__(self, n):
        m = self._get(self.NAMES[n])
        setattr(self, n, m)
        return m


class SymCtx:
    sym = True

    def __init__(self, eng, world, float_mode=False):
        self.e = eng
        eng.float_mode = False
        self.world = world
        self.tk = TK(world.get)
        eng.float_mode = float_mode
        self.float_mode = float_mode
        self.h5py = world.h5py
        self.scale = 1.0
        self._lab = {}

    # ---- inputs
    layout = None

    def lay(self, a):
        return npshim.relayout(a, self.layout) if self.layout in ('F', 'S') and isinstance(a, np.ndarray) and a.ndim else a

    def real(self, name, shape=(), **k):
        if self.layout in ('I', 'M', 'N') and shape != () and not k.get('unit'):
            self._nreal = getattr(self, '_nreal', -1) + 1
            if self.layout == ('N' if self._nreal % 2 == 0 else 'M'):
                return self.e.real(name, shape, **k)
            # integers, in an array of integer type
            a = self.e.real(name, shape, **dict(k, integral=True))
            for v in self.e.inputs[name]['vars']:
                self.e.reg.integral[v] = True
            return npshim.mark_int(a)
        return self.lay(self.e.real(name, shape, **k))

    def loose_svd(self):
        """from here on singular vectors are arbitrary (no meaning when replaying)"""
        self.e.loose_svd = True

    def int(self, name, lo, hi):
        return self.e.int(name, lo, hi)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def orthonormal(self, name, n, k):
        rec = []
        Q = npshim.givens_orthonormal(n, k, name, rec)
        self.e.inputs[name] = dict(kind='givens', shape=(n, k), vars=rec, pairs=givens.pairs(n, k), square=n == k)
        for v in rec:
            self.e.input_vars.add(v)
        return self.lay(Q)

    def data(self, name, shape, lo=0.2, hi=1.2):
        """fixed numbers (float mode)"""
        import zlib
        rs = np.random.RandomState(zlib.crc32(name.encode()) % 2**31)
        return rs.uniform(lo, hi, shape)

    def const(self, a):
        return self.lay(npshim.objarr(a)) if not self.float_mode else np.asarray(a, dtype=float)

    def zeros(self, shape):
        return self.lay(npshim.zeros(shape))

    def rand_state(self):
        return self.e.counters.get('rand', 0)

    def reseed(self, state):
        """put the random generator back to an earlier state"""
        self.e.counters['rand'] = state

    def path(self, name):
        return '/fake/' + name

    # ---- assumptions
    def assume(self, s, op, margin=None):
        self.e.assumed.append('%s 0' % op) if False else None
        s = _scalar(s)
        self.e.assume_fact(s, op)

    def assume_int(self, z):
        """z: z3 condition"""
        self.e.add_hyp(z, (), _names(z), 'assume')

    def assume_that(self, cond):
        if not cond:
            raise Infeasible('assumption')

    def fullrank(self, M):
        """assume full column rank"""
        M = npshim.asarray(M)
        if M.dtype != object:
            return
        G = M.T @ M if M.shape[0] > M.shape[1] else M
        if M.shape[0] < M.shape[1]:
            raise Infeasible('cannot have full column rank')
        self.e.assume_fact(npshim.det(G), '!=')

    # ---- values
    def sqrt(self, x):
        return npshim.sqrt(x)

    def single(self, x):
        """x in single precision"""
        return sym.narrow(x, np.float32)

    def named(self, A):
        return npshim.named(A)

    def svd_known(self, A, U, S, Vh):
        self.e.svd_known.append((A, U, S, Vh))

    def copy(self, x):
        if isinstance(x, np.ndarray):
            return self.lay(x.copy())
        if isinstance(x, (list, tuple)):
            return type(x)(self.copy(y) for y in x)
        return x

    # ---- obligations
    def _label(self, label):
        n = self._lab.get(label, 0)
        self._lab[label] = n + 1
        return label if n == 0 else '%s#%d' % (label, n)

    def eq(self, a, b, label, observe=True, tol=None):
        label = self._label(label)
        A, B = _arr(a), _arr(b)
        if A.shape != B.shape:
            self.e.fail(label, 'shape %s instead of %s' % (A.shape, B.shape))
            return
        n = 0
        for i, (x, y) in enumerate(zip(A.reshape(-1), B.reshape(-1))):
            x, y = lift(x), lift(y)
            if observe and n < 12 and isinstance(x, Sym):
                self.e.observed.append(('%s[%d]' % (label, i), x))
                n += 1
            self._zero(x, y, '%s[%d]' % (label, i))

    def _zero(self, x, y, label):
        if isinstance(x, Poison) or isinstance(y, Poison):
            self.e.fail(label, 'not a number: %r / %r' % (x, y))
            return
        d = x - y
        if d.is_const():
            c = d.cval()
            self.e.n_obl += 1
            if not c:
                if x.d == y.d:
                    self.e.identities.append((x.n, y.n))
                else:
                    # cross-multiplied
                    p, q = x.n, y.n
                    for f, k in y.d:
                        for _ in range(k):
                            p = poly.pmul(p, self.e.reg.factors[f])
                    for f, k in x.d:
                        for _ in range(k):
                            q = poly.pmul(q, self.e.reg.factors[f])
                    self.e.identities.append((p, q))
            lim = self.e.approx * (1 + abs(x.cval() if x.is_const() else 0)) if self.float_mode else 0
            if abs(c) > lim:
                self.e.fail(label, 'off by %s' % float(c))
            return
        self.e.oblige('eq', d.n, '==', label)

    same = eq

    def le(self, a, b, label):
        self.ge(b, a, label)

    def ge(self, a, b, label):
        label = self._label(label)
        A, B = np.broadcast_arrays(_arr(a), _arr(b))
        for i, (x, y) in enumerate(zip(A.reshape(-1), B.reshape(-1))):
            x, y = lift(x), lift(y)
            if isinstance(x, Poison) or isinstance(y, Poison):
                self.e.fail('%s[%d]' % (label, i), 'not a number')
                continue
            d = x - y
            self.e.n_obl += 1
            if d.is_const():
                if d.cval() < (-self.e.approx if self.float_mode else 0):
                    self.e.fail(label, 'is %s' % float(d.cval()))
                continue
            q = self.e.quick_sign(d)
            if q is not None and q >= 0:
                continue
            self.e.n_obl -= 1
            self.e.oblige('ge', self.e.cond(d, '>='), '>=', '%s[%d]' % (label, i))

    def check(self, cond, label):
        label = self._label(label)
        if cond:
            self.e.n_obl += 1
        else:
            self.e.fail(label, 'does not hold')

    def ieq(self, a, b, label):
        """equality of (possibly symbolic) integers, decided by the solver for all of them at once"""
        label = self._label(label)
        za, zb = sym._iv(a), sym._iv(b)
        if za is None or zb is None:
            self.e.fail(label, '%r is not the integer %r' % (a, b))
            return
        z = z3.simplify(za == zb)
        self.e.n_obl += 1
        if z3.is_true(z):
            return
        if z3.is_false(z):
            self.e.n_obl -= 1
            self.e.fail(label, '%s instead of %s' % (a, b))
            return
        ints = _names(z)
        r, m = self.e.query(self.e.cone((), ints) + [z3.Not(z)], 5000, model=True)
        if r == 'unsat':
            return
        if r == 'unknown':
            raise Unsupported('integer equality not decided')
        self.e.add_hyp(z3.Not(z), (), ints, 'cex')
        self.e.n_obl -= 1
        self.e.fail(label, '%s instead of %s' % (a, b))

    def raises(self, excs, f, label):
        label = self._label(label)
        self.e.n_obl += 1
        try:
            f()
        except excs as ex:
            return ex
        self.e.n_obl -= 1
        self.e.fail(label, 'no error raised')
        return None

    def unchanged(self, a, snap, label):
        """a still is what it was"""
        if isinstance(a, (list, tuple)):
            if len(a) != len(snap):
                self.check(False, label)
                return
            for i, (x, y) in enumerate(zip(a, snap)):
                self.unchanged(x, y, '%s.%d' % (label, i))
            return
        if isinstance(a, np.ndarray):
            self.eq(a, snap, label, observe=False)
            return
        if isinstance(a, (Sym, Poison)):
            self.eq(a, snap, label, observe=False)
            return
        self.check(a is snap or a == snap, label)

    @contextlib.contextmanager
    def quiet(self):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield

    def note(self, s):
        self.e.assumed.append(s)


def _scalar(s):
    if isinstance(s, np.ndarray) and s.size == 1:
        return s.reshape(-1)[0]
    return s


def _arr(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        return npshim.objarr(x)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _names(z):
    from .engine import _int_names
    return _int_names(z)
