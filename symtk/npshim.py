"""numpy / scipy as seen by the code under test: real numpy on object arrays of symbols, with the kernels
that have no algebraic definition replaced by contracts."""
import builtins
import itertools
import math
import types
from fractions import Fraction
import numpy as np
import z3
from . import poly, sym
from .sym import Sym, Poison, SymInt, Unsupported, lift, ZERO, ONE


def E():
    return sym.Engine.cur


def floatmode():
    return sym.Engine.cur is None or sym.Engine.cur.float_mode


class IntDtype:
    """what arrays of integer symbols answer when asked for their type: an integer type (for the code under test)
    that is also equal to object (for this module)"""
    kind, char, name, str, itemsize, type = 'i', 'l', 'int64', '<i8', 8, np.int64
    dtype = np.dtype(object)

    def __eq__(self, o):
        try:
            return np.dtype(o) in (np.dtype(object), np.dtype(np.int64))
        except TypeError:
            return False

    def __hash__(self):
        return hash(np.dtype(np.int64))


INT = IntDtype()
_realdtype = np.ndarray.dtype


def is_int(x):
    """integer by form: an integer polynomial of integer variables"""
    if type(x) is Sym:
        if x.d:
            return False
        r = poly.R
        return all(type(c) is int for c in x.n.values()) and all(r.integral[v] for v in poly.pvars(x.n))
    return isinstance(x, (int, np.integer, SymInt))


def _all_int(v):
    return all(is_int(_lift1(x)) for x in v.reshape(-1)) if isinstance(v, np.ndarray) else is_int(_lift1(v))


def mark_int(a):
    if isinstance(a, SymArray):
        a.ikind = True
    return a


class SymArray(np.ndarray):
    """object array of symbols that answers like a float array (or, if marked, an integer one)"""
    ikind = False

    def __array_finalize__(self, obj):
        if getattr(obj, 'ikind', False):
            self.ikind = True

    @property
    def dtype(self):
        return INT if self.ikind else _realdtype.__get__(self)

    def _inplace(self, op, o, r):
        if self.ikind and (op == 'truediv' or not _all_int(o)):
            raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'" % op)
        return r(self, o)

    def __iadd__(self, o):
        return self._inplace('add', o, np.ndarray.__iadd__)

    def __isub__(self, o):
        return self._inplace('subtract', o, np.ndarray.__isub__)

    def __imul__(self, o):
        return self._inplace('multiply', o, np.ndarray.__imul__)

    def __itruediv__(self, o):
        return self._inplace('truediv', o, np.ndarray.__itruediv__)

    def astype(self, dtype, *a, **k):
        if isinstance(dtype, IntDtype):
            if _all_int(self):
                return mark_int(np.array(self, dtype=object).view(SymArray))
            raise Unsupported('rounding to integers')
        if self.dtype == object and _isfloat(dtype):
            return _narrow(np.array(self, dtype=object).view(SymArray), dtype)
        if self.dtype == object and _isobj(dtype):
            return np.array(self, dtype=object).view(SymArray)
        return np.ndarray.astype(self, dtype, *a, **k)

    def __setitem__(self, k, v):
        if self.dtype == object:
            v = liftarr(v)
            if self.ikind and not _all_int(v):
                if isinstance(v, np.ndarray):
                    v = np.array(v, dtype=object)
                    for i in np.ndindex(*v.shape):
                        if not is_int(v[i]):
                            v[i] = Poison('stored in an integer array')
                else:
                    v = Poison('stored in an integer array')
        np.ndarray.__setitem__(self, k, v)

    def fill(self, v):
        self[...] = v

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return std(self, axis, ddof, keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return var(self, axis, ddof, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return mean(self, axis, keepdims=keepdims)

    def tolist(self):
        return np.ndarray.tolist(self)

    def round(self, *a, **k):
        raise Unsupported('round')

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1)[0])
        return np.ndarray.__float__(self)

    def __reduce__(self):
        raise Unsupported('pickling')

    def __deepcopy__(self, memo):
        r = np.array(self, dtype=object).view(SymArray)
        return mark_int(r) if self.ikind else r

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if return_scalar and arr.ndim == 0:
            return arr[()]
        if arr.dtype == object:
            return np.asarray(arr).view(SymArray)
        return np.asarray(arr)


def _narrow(a, dtype):
    if dtype is None or not _isfloat(dtype) or np.dtype(dtype).itemsize >= 8:
        return a
    for i in np.ndindex(*a.shape):
        a[i] = sym.narrow(a[i], dtype)
    return a


def _isfloat(dt):
    if dt is None:
        return False
    try:
        return np.dtype(dt).kind in 'fc'
    except TypeError:
        return False


def _isobj(dt):
    try:
        return np.dtype(dt) == object
    except TypeError:
        return False


def _lift1(x):
    if type(x) in (Sym, Poison, SymInt):
        return x
    r = lift(x)
    return x if r is NotImplemented else r


def liftarr(v):
    """scalars and numeric arrays -> symbols"""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return v
        if v.dtype.kind in 'fiub':
            return objarr(v)
        return v
    if isinstance(v, (list, tuple)):
        return objarr(v)
    return _lift1(v)


def objarr(v):
    a = np.array(v, dtype=object)
    out = np.empty(a.shape, dtype=object)
    flat = a.reshape(-1)
    of = out.reshape(-1)
    for i in range(flat.size):
        x = flat[i]
        if isinstance(x, (np.ndarray, list, tuple)) and not (isinstance(x, np.ndarray) and x.ndim == 0):
            raise ValueError('setting an array element with a sequence: the array has an inhomogeneous shape')
        if isinstance(x, np.ndarray):
            x = x[()]
        of[i] = _lift1(x)
    return out.view(SymArray)


def wrap(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object and not isinstance(x, SymArray):
            return x.view(SymArray)
        return x
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if type(x) is list:
        return [wrap(y) for y in x]
    return x


def _const_arr(shape, c):
    a = np.empty(shape, dtype=object)
    a.fill(c)
    return a.view(SymArray)


def _shape(s):
    if isinstance(s, SymInt):
        return int(s)
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return s


def _is_intlike(dt):
    if dt is None:
        return False
    try:
        return np.dtype(dt).kind in 'iub'
    except TypeError:
        return False


def relayout(a, order):
    """a in row-major ('C') or column-major ('F') order, or as every second column of a wider array ('S')"""
    if order == 'S' and a.ndim:
        big = np.empty(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        if a.dtype == object:
            big.fill(ZERO)
        else:
            big.fill(0)
        out = (big.view(SymArray) if isinstance(a, SymArray) else big)[..., ::2]
        out[...] = a
        return out
    out = np.array(np.asarray(a), dtype=a.dtype, order='F' if order == 'F' else 'C')
    return out.view(SymArray) if isinstance(a, SymArray) else out


def _isF(a):
    return isinstance(a, np.ndarray) and a.flags.f_contiguous and not a.flags.c_contiguous


def _like(r, a, order):
    return relayout(r, 'F') if order == 'F' or (order in ('K', 'A', None) and _isF(a)) else r


def zeros(shape, dtype=None, order='C', **k):
    if isinstance(dtype, IntDtype):
        return mark_int(zeros(shape, order=order))
    if floatmode() or _is_intlike(dtype) or (dtype is not None and not _isfloat(dtype) and not _isobj(dtype)):
        return np.zeros(_shape(shape), dtype=dtype or float, order=order)
    r = _const_arr(_shape(shape), ZERO)
    return relayout(r, 'F') if order == 'F' else r


def ones(shape, dtype=None, order='C', **k):
    if isinstance(dtype, IntDtype):
        return mark_int(ones(shape, order=order))
    if floatmode() or _is_intlike(dtype):
        return np.ones(_shape(shape), dtype=dtype or float, order=order)
    r = _const_arr(_shape(shape), ONE)
    return relayout(r, 'F') if order == 'F' else r


def empty(shape, dtype=None, order='C', **k):
    if isinstance(dtype, IntDtype):
        return mark_int(empty(shape, order=order))
    if floatmode() or _is_intlike(dtype):
        return np.empty(_shape(shape), dtype=dtype or float, order=order)
    r = _const_arr(_shape(shape), Poison('uninitialised memory'))
    return relayout(r, 'F') if order == 'F' else r


def full(shape, fill_value, dtype=None, order='C', **k):
    if isinstance(dtype, IntDtype):
        a = mark_int(zeros(shape))
        a[...] = fill_value
        return a
    if floatmode() or _is_intlike(dtype) or (dtype is None and isinstance(fill_value, (int, np.integer, bool))):
        return np.full(_shape(shape), fill_value, dtype=dtype)
    a = _const_arr(_shape(shape), ZERO)
    a[...] = fill_value
    return a


def _want_int(a, dtype):
    return isinstance(dtype, IntDtype) or (dtype is None and isinstance(a, SymArray) and a.ikind)


def _like_int(a, dtype):
    a = np.asarray(a)
    if dtype is not None:
        return _is_intlike(dtype)
    return a.dtype.kind in 'iub'


def zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    if _want_int(a, dtype):
        return mark_int(zeros_like(np.asarray(a), order=order, shape=shape))
    if floatmode():
        return np.zeros_like(a, dtype=dtype)
    if _like_int(a, dtype):
        return np.zeros(np.shape(a) if shape is None else shape, dtype=dtype or np.asarray(a).dtype)
    return _like(zeros(np.shape(a) if shape is None else shape), a if shape is None else None, order)


def ones_like(a, dtype=None, order='K', subok=True, shape=None):
    if _want_int(a, dtype):
        return mark_int(ones_like(np.asarray(a), order=order, shape=shape))
    if floatmode():
        return np.ones_like(a, dtype=dtype)
    if _like_int(a, dtype):
        return np.ones(np.shape(a) if shape is None else shape, dtype=dtype or np.asarray(a).dtype)
    return _like(ones(np.shape(a) if shape is None else shape), a if shape is None else None, order)


def empty_like(a, dtype=None, order='K', subok=True, shape=None):
    if _want_int(a, dtype):
        return mark_int(empty_like(np.asarray(a), order=order, shape=shape))
    if floatmode():
        return np.empty_like(a, dtype=dtype)
    if _like_int(a, dtype):
        return np.zeros(np.shape(a) if shape is None else shape, dtype=dtype or np.asarray(a).dtype)
    return _like(empty(np.shape(a) if shape is None else shape), a if shape is None else None, order)


def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    if _want_int(a, dtype):
        return full(np.shape(a) if shape is None else shape, fill_value, dtype=INT)
    if floatmode():
        return np.full_like(a, fill_value, dtype=dtype)
    if _like_int(a, dtype):
        return np.full_like(np.asarray(a), fill_value, dtype=dtype)
    return _like(full(np.shape(a), lift(fill_value)), a, order)


def eye(N, M=None, k=0, dtype=None, order='C', **kw):
    if floatmode() or _is_intlike(dtype):
        return np.eye(int(N), None if M is None else int(M), int(k), dtype=dtype or float)
    return objarr(np.eye(int(N), None if M is None else int(M), int(k), dtype=int))


def identity(n, dtype=None, **kw):
    return eye(n, dtype=dtype)


def _has_sym(x, depth=0):
    if isinstance(x, (Sym, Poison)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y, depth + 1) for y in x)
    if hasattr(x, '__getitem__') and hasattr(x, '__len__') and not isinstance(x, (str, bytes, dict)):
        try:
            return len(x) > 0 and _has_sym(x[0])
        except Exception:
            return False
    return False


def _has_float(x):
    if isinstance(x, (float, np.floating, Fraction)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind == 'f'
    if isinstance(x, (list, tuple)):
        return any(_has_float(y) for y in x)
    return False


def array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    if isinstance(dtype, IntDtype):
        a = mark_int(zeros(np.shape(obj)))
        a[...] = obj
        return a
    if dtype is None and isinstance(obj, SymArray) and obj.ikind:
        return mark_int(array(np.asarray(obj), order=order, ndmin=ndmin))
    if floatmode():
        if _has_symint(obj):
            return np.array(obj, dtype=object)
        return np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin)
    if _is_intlike(dtype) or (dtype is not None and not _isfloat(dtype) and not _isobj(dtype)):
        if _has_sym(obj):
            raise Unsupported('symbolic values in an array of type %s' % (dtype,))
        return np.array(obj, dtype=dtype, ndmin=ndmin)
    if _has_sym(obj) or _isfloat(dtype) or _has_float(obj):
        if isinstance(obj, np.ndarray) and obj.dtype == object:
            a = np.array(obj, dtype=object, order=order).view(SymArray)
        else:
            if not isinstance(obj, (list, tuple, np.ndarray)) and hasattr(obj, '__getitem__') and hasattr(obj, '__len__'):
                obj = [obj[i] for i in range(len(obj))]
            a = objarr(obj)
        a = _narrow(a, dtype)
        while a.ndim < ndmin:
            a = a[np.newaxis]
        return a
    if _has_symint(obj):
        return np.array(obj, dtype=object)
    return np.array(obj, dtype=dtype, ndmin=ndmin)


def _has_symint(x):
    if isinstance(x, SymInt):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_symint(y) for y in x)
    return False


def asarray(obj, dtype=None, order=None, **k):
    if isinstance(obj, SymArray) and obj.ikind and dtype is not None and not isinstance(dtype, IntDtype):
        return array(obj, dtype)
    if isinstance(dtype, IntDtype):
        return obj if isinstance(obj, SymArray) and obj.ikind else array(obj, dtype)
    if floatmode():
        return np.asarray(obj, dtype=dtype) if not _has_symint(obj) else np.asarray(obj, dtype=object)
    if isinstance(obj, np.ndarray) and obj.dtype == object and (dtype is None or _isfloat(dtype) or _isobj(dtype)):
        return wrap(obj)
    if isinstance(obj, np.ndarray) and (dtype is None or np.dtype(dtype) == obj.dtype):
        return obj
    return array(obj, dtype=dtype)


def ascontiguousarray(a, dtype=None, **k):
    a = asarray(a, dtype)
    return a if a.flags.c_contiguous or floatmode() else relayout(a, 'C')


def asfortranarray(a, dtype=None, **k):
    a = asarray(a, dtype)
    return a if a.flags.f_contiguous else np.asfortranarray(a) if floatmode() else relayout(a, 'F')


def _el(f):
    def g(x, *a, **k):
        if floatmode():
            return getattr(np, f.__name__.strip('_'))(x, *a, **k)
        out = k.pop('out', None)
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, np.ndarray):
            if x.dtype != object:
                if f.__name__ in ('isnan_', 'isfinite_', 'isinf_'):
                    return getattr(np, f.__name__[:-1])(x)
                x = objarr(x)
            r = np.empty(x.shape, dtype=object)
            rf, xf = r.reshape(-1), x.reshape(-1)
            for i in range(xf.size):
                rf[i] = f(xf[i])
            if f.__name__ in ('isnan_', 'isfinite_', 'isinf_'):
                return r.astype(bool)
            r = _like(r.view(SymArray), x, 'K')
            if r.ndim == 0:
                r = r[()]
            if out is not None:
                out[...] = r
                return out
            return r
        return f(_lift1(x))
    g.__name__ = f.__name__.strip('_')
    return g


@_el
def sqrt(x):
    return sym.sqrt(x)


@_el
def absolute(x):
    return abs(x)


@_el
def cbrt(x):
    return sym.root(lift(x), 3)


@_el
def square(x):
    return x * x


@_el
def reciprocal(x):
    return ONE / x


@_el
def sign(x):
    x = lift(x)
    if isinstance(x, Poison):
        return x
    if x.is_const():
        c = x.cval()
        return Sym.const((c > 0) - (c < 0))
    if x > 0:
        return ONE
    if x < 0:
        return Sym.const(-1)
    return ZERO


@_el
def isnan_(x):
    return isinstance(x, Poison)


@_el
def isfinite_(x):
    return not isinstance(x, Poison)


@_el
def isinf_(x):
    return False


def _unsup(name):
    def f(*a, **k):
        if floatmode() or not any(_has_sym(x) for x in list(a) + list(k.values())):
            return getattr(np, name)(*a, **k)
        raise Unsupported('numpy.%s' % name)
    return f


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(axis, np.ndarray) or isinstance(dtype, bool):
        raise Unsupported('mean')
    if dtype is True or dtype is False:
        keepdims, dtype = dtype, None
    a = asarray(a)
    if a.dtype != object:
        if floatmode():
            return np.mean(a, axis=axis, keepdims=keepdims)
        if a.dtype.kind in 'iubf':
            a = objarr(a)
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    return np.sum(a, axis=axis, keepdims=keepdims) / Sym.const(n)


def _mean_m(self, axis, keepdims):
    return mean(self, axis=axis, keepdims=keepdims)


def var(a, axis=None, ddof=0, keepdims=False):
    a = asarray(a)
    m = mean(a, axis=axis, keepdims=True)
    d = (a - m)
    n = a.size if axis is None else a.shape[axis]
    return np.sum(d * d, axis=axis, keepdims=keepdims) / Sym.const(n - ddof)


def std(a, axis=None, ddof=0, keepdims=False):
    return sqrt(var(a, axis, ddof, keepdims))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if floatmode() or not (_has_sym(a) or _has_sym(b)):
        return np.isclose(a, b, rtol, atol, equal_nan)
    d = absolute(asarray(a) - asarray(b))
    t = lift(atol) + absolute(asarray(b)) * lift(rtol)
    r = d <= t
    return np.asarray(r).astype(bool) if isinstance(r, np.ndarray) else r


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(isclose(a, b, rtol, atol, equal_nan)))


def array_equal(a, b, equal_nan=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all([bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1))])) if a.size else True


def fill_diagonal(a, val, wrap=False):
    if a.dtype == object:
        val = liftarr(val)
    n = min(a.shape)
    if a.ndim < 2:
        raise ValueError('array must be at least 2-d')
    if a.ndim > 2 and len(set(a.shape)) > 1:
        raise ValueError('All dimensions of input must be of equal length')
    for i in range(n):
        a[(i,) * a.ndim] = val[i % len(val)] if isinstance(val, np.ndarray) and val.ndim else val


def einsum(subs, *ops, **k):
    k.pop('optimize', None)
    if floatmode():
        return np.einsum(subs, *ops, **k)
    if not isinstance(subs, str):
        # operands each followed by their list of labels
        args = [subs] + list(ops)
        lab = lambda q: '...' if q is Ellipsis else chr(ord('a') + q) if q < 26 else chr(ord('A') + q - 26)
        ls = [''.join(lab(q) for q in x) for x in args[1::2]]
        out = '->' + ''.join(lab(q) for q in args[-1]) if len(args) % 2 else ''
        ops = args[:len(args) // 2 * 2:2]
        subs = ','.join(ls[:len(ops)]) + out
    ops = [asarray(o) for o in ops]
    subs = subs.replace(' ', '')
    if '...' in subs:
        ins = subs.split('->')[0].split(',')
        free = [c for c in 'ZYXWVUTSRQPONMLKJIHGFEDCBA' if c not in subs]
        n = max([o.ndim - len(x.replace('...', '')) for x, o in zip(ins, ops) if '...' in x] or [0])
        lab = ''.join(free[:n])[::-1]
        new = [x.replace('...', lab[n - (o.ndim - len(x.replace('...', ''))):]) if '...' in x else x for x, o in zip(ins, ops)]
        if '->' in subs:
            out = subs.split('->')[1].replace('...', lab)
        else:
            letters = ''.join(ins).replace('...', '')
            out = lab + ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
        subs = ','.join(new) + '->' + out
    if '->' in subs:
        ins, out = subs.split('->')
    else:
        ins = subs
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum: operand has wrong number of subscripts')
        for c, n in zip(s, o.shape):
            if dim.setdefault(c, n) != n:
                if dim[c] == 1:
                    dim[c] = n
                elif n != 1:
                    raise ValueError('einsum: operands could not be broadcast together')
    sumc = [c for c in dim if c not in out]
    res = np.empty([dim[c] for c in out], dtype=object)
    for oi in itertools.product(*[range(dim[c]) for c in out]):
        env = dict(zip(out, oi))
        tot = ZERO
        for si in itertools.product(*[range(dim[c]) for c in sumc]):
            env.update(zip(sumc, si))
            t = ONE
            for s, o in zip(ins, ops):
                x = o[tuple(min(env[c], n - 1) for c, n in zip(s, o.shape))]
                t = x * t
            tot = tot + t
        res[oi] = tot
    res = res.view(SymArray)
    return res if res.ndim else res[()]


def diag(v, k=0):
    v = asarray(v)
    if v.dtype != object:
        return np.diag(v, k)
    return objarr(np.diag(np.asarray(v), k))


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if floatmode():
        return np.nan_to_num(x, copy, nan, posinf, neginf)
    x = asarray(x)
    r = np.array(x, dtype=object, order='C')
    f = r.reshape(-1)
    for i in range(f.size):
        if isinstance(f[i], Poison):
            f[i] = lift(nan)
    return r.view(SymArray)


def power(a, b, *r, **k):
    if floatmode():
        return np.power(a, b, *r, **k)
    if isinstance(a, np.ndarray) and a.dtype != object:
        a = objarr(a)
    if not isinstance(a, np.ndarray):
        a = _lift1(a)
    return a ** b


def true_divide(a, b, out=None, where=True, **k):
    if floatmode():
        return np.divide(a, b, **{kk: vv for kk, vv in dict(out=out, where=where).items() if vv is not None})
    a, b = asarray(a), asarray(b)
    a = objarr(a) if a.dtype != object else a
    b = objarr(b) if b.dtype != object else b
    if where is True:
        r = a / b
        if out is not None:
            out[...] = r
            return out
        return r
    a2, b2, w2 = np.broadcast_arrays(np.asarray(a), np.asarray(b), np.asarray(where))
    if out is None:
        out = empty(a2.shape)
    for i in np.ndindex(*a2.shape):
        if w2[i]:
            out[i] = a2[i] / b2[i]
    return out


def lexists(*a):
    raise Unsupported


def finfo(dt):
    try:
        if np.dtype(dt) == object:
            dt = float
    except TypeError:
        dt = float
    return np.finfo(dt)


def issubdtype(a, b):
    if isinstance(a, IntDtype):
        return np.issubdtype(np.int64, b)
    if a == object and b in (float, np.floating, np.number, np.inexact):
        return True
    return np.issubdtype(a, b)


# ------------------------------------------------------------------ norms and factorisations

def norm(x, ord=None, axis=None, keepdims=False):
    if floatmode():
        return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    x = asarray(x)
    if x.dtype != object:
        x = objarr(x)
    if isinstance(axis, list):
        axis = tuple(axis)
    nd = x.ndim if axis is None else (len(axis) if isinstance(axis, tuple) else 1)
    if ord is None or (ord == 2 and nd == 1) or (ord == 'fro' and nd == 2):
        s = np.sum(x * x, axis=axis, keepdims=keepdims)
        e = E()
        for q in (s.reshape(-1) if isinstance(s, np.ndarray) else [s]):
            q = lift(q)
            if isinstance(q, Sym) and not q.is_const() and e.quick_sign(q) is None:
                e.learn(Sym(e.cond(q, '>=')), '>=')     # a sum of squares
        return sqrt(s)
    if ord == 1 and nd == 1:
        return np.sum(absolute(x), axis=axis, keepdims=keepdims)
    if ord in (np.inf, 'inf') and nd == 1:
        return np.max(absolute(x), axis=axis, keepdims=keepdims)
    raise Unsupported('norm ord=%r' % (ord,))


def _eqarr(A, B):
    if A.shape != B.shape:
        return False
    for a, b in zip(A.reshape(-1), B.reshape(-1)):
        d = lift(a) - lift(b)
        if isinstance(d, Poison) or d.n:
            return False
    return True


def givens_orthonormal(n, k, tag, record=None):
    """n x k with orthonormal columns: every such matrix is a product of rotations (times a reflection)"""
    e = E()
    Q = [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]
    cnt = 0
    for j in range(min(k, n - 1)):
        for i in range(n - 1, j, -1):
            c = e.reg.var('%sc%d' % (tag, cnt))
            s = e.reg.var('%ss%d' % (tag, cnt))
            cnt += 1
            # s^2 = 1 - c^2
            e.reg.rule(s, 2, {0: 1, 2 << (c * poly.BITS): -1})
            e.new_var(s, [('rule', s, dict(e.reg.rules[s][1]), 2)])
            e.new_var(c, [])
            if record is not None:
                record += [c, s]
            C, S = Sym(poly.pvar(c)), Sym(poly.pvar(s))
            for r in range(n):
                a, b = Q[r][j], Q[r][i]
                Q[r][j], Q[r][i] = a * C + b * S, b * C - a * S
    if n == k:
        eps = sign_symbol(tag + 'e')
        if record is not None:
            record.append(poly.pvars(eps.n)[0])
        for r in range(n):
            Q[r][n - 1] = Q[r][n - 1] * eps
    out = np.empty((n, k), dtype=object)
    for i in range(n):
        for j in range(k):
            out[i, j] = Q[i][j]
    return out.view(SymArray)


def sign_symbol(name):
    e = E()
    v = e.reg.var(name)
    e.reg.rule(v, 2, {0: 1})
    e.new_var(v, [('rule', v, {0: 1}, 2)])
    e.reg.nonzerovars.add(v)
    return Sym(poly.pvar(v))


def fresh(name, pos=False, nonneg=False):
    e = E()
    v = e.reg.var(name, pos=pos, nonneg=nonneg)
    e.new_var(v, [])
    return Sym(poly.pvar(v))


def singular_values(k, tag):
    e = E()
    S = [fresh('%ss%d' % (tag, i), pos=True) for i in range(k)]
    for i in range(k - 1):
        a, b = S[i], S[i + 1]
        p = (a - b).n
        e.add_hyp(e.zpoly(p) >= 0, poly.pvars(p), (), 'sorted singular values')
        p = (b - a * Sym.const(Fraction(1, 10 ** 6))).n
        e.add_hyp(e.zpoly(p) >= 0, poly.pvars(p), (), 'numerically full rank')
    return S


def matkey(A):
    return tuple((frozenset(lift(x).n.items()), lift(x).d) for x in A.reshape(-1)), A.shape


def _entry(x):
    """(scale, key) naming a polynomial up to a rational factor"""
    x = lift(x)
    if isinstance(x, Poison) or not x.n or x.is_const():
        return None
    if x.d:
        return (Fraction(1), (frozenset(x.n.items()), x.d))
    c, g, q = sym._split(x.n)
    return (Fraction(c), (frozenset({m + g: k for m, k in q.items()}.items()), ()))


def register_names(A, V):
    """A_ij is from now on also known as V_ij: the contract equation A = V"""
    e = E()
    for a, v in zip(A.reshape(-1), V.reshape(-1)):
        k = _entry(a)
        if k is None:
            continue
        c, key = k
        e.names.setdefault(key, v / Sym.const(c))


def nameable(A):
    seen = {}
    for i, a in enumerate(A.reshape(-1)):
        k = _entry(a)
        if k is None or k[1] in seen or k[1] in E().names:
            return False
        seen[k[1]] = i
    return True


def nameable_sym(A):
    """symmetric matrix with distinct nonconstant entries on and above the diagonal"""
    n = A.shape[0]
    seen = set()
    for i in range(n):
        for j in range(i, n):
            k = _entry(A[i, j])
            if k is None or k[1] in seen or k[1] in E().names:
                return False
            seen.add(k[1])
            d = lift(A[i, j]) - lift(A[j, i])
            if isinstance(d, Poison) or d.n:
                return False
    return True


def name1(x):
    x = lift(x)
    k = _entry(x)
    if k is None:
        return x
    v = E().names.get(k[1])
    if v is None:
        return x
    return v * Sym.const(k[0])


def named(A):
    if not isinstance(A, np.ndarray):
        return name1(A)
    out = np.empty(A.shape, dtype=object)
    o, a = out.reshape(-1), A.reshape(-1)
    for i in range(a.size):
        o[i] = name1(a[i])
    return out.view(SymArray)


def _diagm(S):
    n = len(S)
    out = _const_arr((n, n), ZERO)
    for i in range(n):
        out[i, i] = S[i]
    return out


def _cols(*c):
    return np.concatenate(c, axis=1).view(SymArray)


def svd(a, full_matrices=True, compute_uv=True, hermitian=False, **kw):
    if floatmode():
        return np.linalg.svd(a, full_matrices=full_matrices, compute_uv=compute_uv)
    A = asarray(a)
    if A.dtype != object:
        A = objarr(A)
    if A.ndim != 2:
        raise Unsupported('svd of a %d-d array' % A.ndim)
    e = E()
    m, n = A.shape
    k = min(m, n)
    key = matkey(A)
    if ('svd', key) in e.memo:
        U, S, Vh = e.memo[('svd', key)]
    else:
        U, S, Vh = _svd(A, m, n, k)
        e.memo[('svd', key)] = (U, S, Vh)
    U, S, Vh = U.copy(), S.copy(), Vh.copy()
    if not compute_uv:
        return S
    if full_matrices:
        if m > k:
            U = np.concatenate([U, _const_arr((m, m - k), Poison('unspecified singular vector'))], axis=1).view(SymArray)
        if n > k:
            Vh = np.concatenate([Vh, _const_arr((n - k, n), Poison('unspecified singular vector'))], axis=0).view(SymArray)
    return SVDResult(U, S, Vh)


class SVDResult(tuple):
    def __new__(cls, U, S, Vh):
        return tuple.__new__(cls, (U, S, Vh))
    U = property(lambda s: s[0])
    S = property(lambda s: s[1])
    Vh = property(lambda s: s[2])


def _svd(A, m, n, k):
    e = E()
    for (B, U, S, Vh) in e.svd_known:
        if _eqarr(A, B):
            return U, S, Vh
        if _eqarr(A, B.T):
            return Vh.T, S, U.T
        # Gram matrices of a known one
        if B.shape[0] <= B.shape[1] and A.shape == (B.shape[0], B.shape[0]) and _eqarr(A, B @ B.T):
            return U, (S * S).view(SymArray), U.T
        if B.shape[1] <= B.shape[0] and A.shape == (B.shape[1], B.shape[1]) and _eqarr(A, B.T @ B):
            return Vh.T, (S * S).view(SymArray), Vh
    if getattr(e, 'loose_svd', False):
        # the harness replaces the solvers by arbitrary values: nothing is asked of the singular vectors either
        e.contracts.add('svd: arbitrary matrices (what is claimed does not depend on the solvers)')
        S = objarr(singular_values(k, 'lsvd%d_' % len([1 for q in e.memo if q[0] == 'svd'])))
        F = objarr([[fresh('lv') for _ in range(max(m, n))] for _ in range(k)])
        return (F.T.copy(), S, eye(k)) if m >= n else (eye(k), S, F)
    e.contracts.add('svd: U diag(S) Vh = A, orthonormal U and V, sorted S (numerically full rank: S_k >= 1e-6 S_1)')
    tag = 'svd%d' % len([1 for q in e.memo if q[0] == 'svd'])
    if all(lift(x).is_const() for x in A.reshape(-1) if not isinstance(lift(x), Poison)):
        if any(isinstance(lift(x), Poison) for x in A.reshape(-1)):
            P = _const_arr((m, k), Poison('svd of NaN'))
            return P, _const_arr((k,), Poison('svd of NaN')), _const_arr((k, n), Poison('svd of NaN'))
        if not any(lift(x).n for x in A.reshape(-1)):
            return eye(m, k), zeros(k), eye(k, n)
        off = [(i, j) for i in range(m) for j in range(n) if i != j and lift(A[i, j]).n]
        if not off:
            # diagonal: exact up to order and signs
            vals = [(abs(lift(A[i, i]).cval()), i) for i in range(k)]
            vals.sort(reverse=True)
            U, Vh, S = zeros((m, k)), zeros((k, n)), zeros(k)
            for r, (v, i) in enumerate(vals):
                s = -1 if lift(A[i, i]).cval() < 0 else 1
                U[i, r] = s
                Vh[r, i] = 1
                S[r] = v
            return U, S, Vh
    zr = [i for i in range(m) if _zerovec(A[i])]
    zc = [j for j in range(n) if _zerovec(A[:, j])]
    if zr or zc:
        # rows and columns of zeros take no part
        rr, cc = [i for i in range(m) if i not in zr], [j for j in range(n) if j not in zc]
        k2 = min(len(rr), len(cc))
        U2, S2, V2 = svd(A[np.ix_(rr, cc)], full_matrices=False)
        U, S, Vh = zeros((m, k)), zeros(k), zeros((k, n))
        U[rr, :k2] = U2
        Vh[:k2, cc] = V2
        S[:k2] = S2
        if k > k2:
            if len(rr) == k2 and len(cc) == k2:
                for t in range(k2, k):
                    U[zr[t - k2], t] = 1
                    Vh[t, zc[t - k2]] = 1
            else:
                raise Unsupported('svd of a matrix with zero rows and columns')
        return U, S, Vh
    if k == 1:
        v = A.reshape(-1)
        s2 = lift(np.sum(v * v))
        s = sqrt(s2)
        z = (not e.known_nonzero(s2)) and (not e.known_nonzero(s)) and e.decide_zero(s)
        eps = sign_symbol(tag + 'e')
        if z:
            unit = zeros(v.size)
            unit[0] = 1
        else:
            unit = v / s
        S = objarr([ZERO if z else s])
        if m >= n:
            return (unit * eps).reshape(m, 1).view(SymArray), S, objarr([[eps]])
        return objarr([[eps]]), S, (unit * eps).reshape(1, n).view(SymArray)
    if m * n > 40 or k > 3:
        raise Unsupported('svd of a %dx%d matrix' % (m, n))
    if m == n and nameable_sym(A):
        # symmetric: entries a_ij = a_ji named once; U S V^T must be symmetric, so take eigenvectors with signs
        Q = givens_orthonormal(n, n, tag + 'q')
        S = singular_values(n, tag)
        if e.psd.get(matkey(A)) or _looks_gram(A):
            V = (Q @ _diagm(S) @ Q.T)
            register_names(A, V)
            return Q, objarr(S), Q.T.copy()
        sg = [sign_symbol(tag + 'g%d' % i) for i in range(n)]
        V = Q @ _diagm([a * b for a, b in zip(S, sg)]) @ Q.T
        register_names(A, V)
        return Q, objarr(S), (_diagm(sg) @ Q.T).view(SymArray)
    if nameable(A) and max(m, n) <= 4:
        U = givens_orthonormal(m, k, tag + 'u')
        V = givens_orthonormal(n, k, tag + 'v')
        S = singular_values(k, tag)
        register_names(A, U @ _diagm(S) @ V.T)
        return U, objarr(S), V.T.copy()
    if m != n:
        G = A @ A.T if m < n else A.T @ A
        if not any(lift(G[i, j]).n for i in range(k) for j in range(k) if i != j):
            d = [lift(G[i, i]) for i in range(k)]
            order = []
            for i in range(k):
                at = len(order)
                for q, j in enumerate(order):
                    if e.compare(d[i], d[j], '>'):
                        at = q
                        break
                order.insert(at, i)
            for x in d:
                e.assume_fact(x, '>')
            S = [sqrt(d[i]) for i in order]
            Q = zeros((k, k))
            for q, i in enumerate(order):
                Q[i, q] = 1
            Sinv = _diagm([ONE / x for x in S])
            return (Q, objarr(S), Sinv @ Q.T @ A) if m < n else (A @ Q @ Sinv, objarr(S), Q.T.copy())
        if nameable_sym(G):
            Q = givens_orthonormal(k, k, tag + 'q')
            S = singular_values(k, tag)
            S2 = _diagm([s * s for s in S])
            register_names(G, Q @ S2 @ Q.T)
            Sinv = _diagm([ONE / s for s in S])
            if m < n:
                return Q, objarr(S), Sinv @ Q.T @ A
            return A @ Q @ Sinv, objarr(S), Q.T.copy()
    raise Unsupported('svd of a %dx%d matrix with this structure' % (m, n))


def _zerovec(v):
    for x in v:
        x = lift(x)
        if isinstance(x, Poison) or x.n:
            return False
    return True


def _looks_gram(A):
    """diagonal entries with positive sign: the matrices the code decomposes are Gram matrices"""
    e = E()
    n = A.shape[0]
    for i in range(n):
        q = e.quick_sign(lift(A[i, i]))
        if q is None or q < 0:
            return False
    # 2x2: a positive semidefinite check on the determinant
    if n == 2:
        d = lift(A[0, 0]) * lift(A[1, 1]) - lift(A[0, 1]) * lift(A[1, 0])
        if d.n:
            pt = {}
            import random
            rng = random.Random(5)
            for _ in range(6):
                for v in range(len(e.reg.names)):
                    f = e.reg.defs.get(v)
                    if v not in e.input_vars and f is None:
                        return True
                    pt[v] = rng.uniform(-2, 2) if v in e.input_vars else None
                try:
                    for v in range(len(e.reg.names)):
                        if pt[v] is None:
                            pt[v] = e.reg.defs[v](pt)
                        elif e.reg.nonneg[v]:
                            pt[v] = abs(pt[v])
                    if poly.peval(e.cond(d, '>='), pt) < -1e-9:
                        return False
                except Exception:
                    return True
    return True


def qr(a, mode='reduced', **kw):
    if floatmode():
        return np.linalg.qr(a, mode=mode)
    A = asarray(a)
    if A.dtype != object:
        A = objarr(A)
    m, n = A.shape
    e = E()
    for (B, Q, Rm) in e.qr_known:
        if _eqarr(A, B):
            return (Q.copy(), Rm.copy()) if mode != 'r' else Rm.copy()
    e.contracts.add('qr: Q R = A, orthonormal Q, upper triangular R (any diagonal signs; full column rank)')
    tag = 'qr%d' % e.counter()
    k = min(m, n)
    if nameable(A) and m >= n and n > 1 and m <= 4:
        Q = givens_orthonormal(m, n, tag + 'q')
        Rm = zeros((n, n))
        for i in range(n):
            for j in range(i, n):
                Rm[i, j] = fresh('%sr%d%d' % (tag, i, j))
            e.reg.nonzerovars.add(len(e.reg.names) - (n - i))
            e.assume_fact(Rm[i, i], '!=')
        register_names(A, Q @ Rm)
    else:
        Q = zeros((m, k))
        Rm = zeros((k, n))
        for j in range(k):
            v = A[:, j].copy()
            for i in range(j):
                r = np.sum(Q[:, i] * A[:, j])
                Rm[i, j] = r
                v = v - Q[:, i] * r
            nr = sqrt(np.sum(v * v))
            if lift(nr).is_const() and nr.cval() == 0:
                raise Unsupported('qr of a rank deficient matrix')
            e.assume_fact(nr, '!=')
            eps = sign_symbol('%se%d' % (tag, j)) if not all(lift(x).is_const() for x in A.reshape(-1)) else ONE
            Q[:, j] = v / nr * eps
            Rm[j, j] = nr * eps
        for j in range(k, n):
            for i in range(k):
                Rm[i, j] = np.sum(Q[:, i] * A[:, j])
    if mode == 'r':
        return Rm
    if mode == 'complete' and m > k:
        Q = np.concatenate([Q, _const_arr((m, m - k), Poison('unspecified'))], axis=1).view(SymArray)
        Rm = np.concatenate([Rm, zeros((m - k, n))], axis=0).view(SymArray)
    return QRResult(Q, Rm)


class QRResult(tuple):
    def __new__(cls, Q, R):
        return tuple.__new__(cls, (Q, R))
    Q = property(lambda s: s[0])
    R = property(lambda s: s[1])


def _minor(A, i, j):
    r = [x for x in range(A.shape[0]) if x != i]
    c = [x for x in range(A.shape[1]) if x != j]
    return A[np.ix_(r, c)]


def det(a):
    if floatmode():
        return np.linalg.det(a)
    A = asarray(a)
    if A.dtype != object:
        A = objarr(A)
    n, m = A.shape
    if n != m:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if n > 5:
        raise Unsupported('det of order %d' % n)
    if n == 0:
        return ONE
    if n == 1:
        return A[0, 0]
    tot = ZERO
    for j in range(n):
        if isinstance(A[0, j], Sym) and not A[0, j].n:
            continue
        t = A[0, j] * det(_minor(A, 0, j))
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def inv(a, **kw):
    if floatmode():
        return np.linalg.inv(a)
    A = asarray(a)
    if A.dtype != object:
        A = objarr(A)
    n, m = A.shape
    if n != m:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    e = E()
    for (B, U, S, Vh) in e.svd_known:
        for (X, u, s, vh) in ((B, U, S, Vh), (B.T, Vh.T, S, U.T)):
            if X.shape[0] == X.shape[1] and _eqarr(A, X):
                return vh.T @ _diagm([ONE / x for x in s]) @ u.T
    for (B, Q, Rm) in e.qr_known:
        # Q R = B with orthonormal Q: (B^T B)^-1 = R^-1 R^-T
        if Rm.shape == A.shape and _eqarr(A, asarray(B).T @ asarray(B)):
            ri = solve_triangular(Rm, eye(n))
            return ri @ ri.T
    if n > 4 and all(lift(A[i, j]).is_const() and not lift(A[i, j]).n for i in range(n) for j in range(i)):
        return solve_triangular(A, eye(n))
    e.contracts.add('inverse of a nonsingular matrix (Cramer)')
    if n > 4:
        raise Unsupported('inverse of order %d' % n)
    D = det(A)
    if isinstance(D, Sym) and not D.n:
        raise np.linalg.LinAlgError('Singular matrix')
    e.assume_fact(D, '!=')
    out = zeros((n, n))
    for i in range(n):
        for j in range(n):
            c = det(_minor(A, j, i)) if n > 1 else ONE
            if (i + j) % 2:
                c = -c
            out[i, j] = c / D
    return out


def solve(a, b, **kw):
    if floatmode():
        return np.linalg.solve(a, b)
    return inv(a) @ asarray(b)


def _truncates(rc):
    """a relative cutoff below the bound of the svd contract truncates nothing (but exact zeros)"""
    return rc is not None and not (isinstance(rc, (int, float)) and rc <= 1e-6)


def _truncated_pinv(A, rc):
    U, S, Vh = svd(A, full_matrices=False)
    keep = [bool(x > S[0] * rc) for x in S]
    return Vh.T @ _diagm([ONE / x if q else ZERO for x, q in zip(S, keep)]) @ U.T


def pinv(a, *r, **kw):
    if floatmode():
        return np.linalg.pinv(a, *r, **kw)
    A = asarray(a)
    rc = r[0] if r else kw.get('rcond', kw.get('rtol'))
    if _truncates(rc):
        return _truncated_pinv(A, rc)
    for (B, U, S, Vh) in E().svd_known:
        for (X, u, s, vh) in ((B, U, S, Vh), (B.T, Vh.T, S, U.T)):
            if _eqarr(A, X):
                return vh.T @ _diagm([ONE / x if x.n else ZERO for x in s]) @ u.T
    for (B, Q, Rm) in E().qr_known:
        for (X, t) in ((asarray(B), False), (asarray(B).T, True)):
            if X.size and Rm.shape[0] == Rm.shape[1] and _eqarr(A, X):
                p = solve_triangular(Rm, eye(Rm.shape[0])) @ asarray(Q).T
                return p.T if t else p
    E().contracts.add('pseudo-inverse of a full rank matrix')
    if A.shape[0] >= A.shape[1]:
        return inv(A.T @ A) @ A.T
    return A.T @ inv(A @ A.T)


def lstsq(a, b, rcond=None, **kw):
    if floatmode():
        return np.linalg.lstsq(a, b, rcond=rcond)
    A, B = asarray(a), asarray(b)
    x = pinv(A, kw.get('cond', rcond)) @ B
    return x, Poison('residuals'), min(A.shape), _const_arr((min(A.shape),), Poison('singular values'))


def eigh(a, UPLO='L', **kw):
    if floatmode():
        return np.linalg.eigh(a)
    A = asarray(a)
    n = A.shape[0]
    if n == 1:
        return A[0].copy(), objarr([[sign_symbol('eig%d' % E().counter())]])
    if n > 3 or not nameable_sym(A):
        raise Unsupported('eigh')
    e = E()
    e.contracts.add('eigh: Q diag(w) Q^T = A, orthonormal Q, ascending w')
    tag = 'eig%d' % e.counter()
    Q = givens_orthonormal(n, n, tag + 'q')
    psd = _looks_gram(A)
    w = [fresh('%sw%d' % (tag, i), pos=psd) for i in range(n)]
    for i in range(n - 1):
        p = (w[i + 1] - w[i]).n
        e.add_hyp(e.zpoly(p) >= 0, poly.pvars(p), (), 'sorted eigenvalues')
    register_names(A, Q @ _diagm(w) @ Q.T)
    return objarr(w), Q


def eigvalsh(a, **k):
    return eigh(a)[0]


def cholesky(a, **kw):
    if floatmode():
        return np.linalg.cholesky(a)
    A = asarray(a)
    n = A.shape[0]
    L = zeros((n, n))
    for j in range(n):
        d = A[j, j] - np.sum(L[j, :j] * L[j, :j])
        s = sqrt(d)
        E().assume_fact(s, '!=')
        L[j, j] = s
        for i in range(j + 1, n):
            L[i, j] = (A[i, j] - np.sum(L[i, :j] * L[j, :j])) / s
    return L


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **kw):
    import scipy.linalg
    if floatmode():
        return scipy.linalg.solve_triangular(a, b, trans=trans, lower=lower, unit_diagonal=unit_diagonal)
    A, B = asarray(a), asarray(b)
    if A.dtype != object:
        A = objarr(A)
    if trans in (1, 'T', 2, 'C'):
        A = A.T
        lower = not lower
    n = A.shape[0]
    vec = B.ndim == 1
    if vec:
        B = B.reshape(-1, 1)
    X = zeros(B.shape)
    order = range(n) if lower else range(n - 1, -1, -1)
    for i in order:
        js = range(i) if lower else range(i + 1, n)
        for c in range(B.shape[1]):
            t = B[i, c]
            for j in js:
                t = t - A[i, j] * X[j, c]
            X[i, c] = t if unit_diagonal else t / A[i, i]
    return X.reshape(-1) if vec else X


def cho_factor(a, lower=False, **k):
    L = cholesky(a)
    return (L, True) if lower else (L.T, False)


def cho_solve(c, b, **k):
    L, lower = c
    if lower:
        return solve_triangular(L, solve_triangular(L, b, lower=True), trans=1, lower=True)
    return solve_triangular(L, solve_triangular(L, b, trans=1))


def nnls(A, b, maxiter=None, **kw):
    import scipy.optimize
    if floatmode():
        return scipy.optimize.nnls(A, b)
    A, b = asarray(A), asarray(b)
    if b.ndim == 2 and 1 in b.shape:
        b = b.reshape(-1)
    if A.ndim != 2 or b.ndim != 1 or A.shape[0] != b.shape[0]:
        raise ValueError('Incompatible dimensions')
    e = E()
    n = A.shape[1]
    e.contracts.add('nnls: x >= 0, A^T(b - A x) <= 0, complementary (A of full column rank)')
    if n > 4:
        raise Unsupported('nnls with %d unknowns' % n)
    c = e.choose(2 ** n, 'support%d' % e.counter())
    P = [j for j in range(n) if c >> j & 1]
    x = zeros(n)
    if P:
        Ap = A[:, P]
        xp = solve(Ap.T @ Ap, Ap.T @ b)
        for j, v in zip(P, xp):
            if isinstance(v, Sym) and v.is_const():
                if not v.cval() > 0:
                    e.infeasible()
            e.assume_fact(v, '>')
            x[j] = v
    r = b - A @ x
    for j in range(n):
        if j not in P:
            g = np.sum(A[:, j] * r)
            e.assume_fact(g, '<=')
    return x, Poison('residual norm')


def multi_dot(arrs, **k):
    r = arrs[0]
    for a in arrs[1:]:
        r = r @ a
    return r


def matrix_rank(a, *r, **k):
    if floatmode():
        return np.linalg.matrix_rank(a, *r, **k)
    S = svd(a, full_matrices=False)[1]
    return sum(1 for x in S if not E().decide_zero(lift(x)))


def cond(a, p=None):
    if floatmode() or p not in (None, 2):
        return np.linalg.cond(a, p)
    S = svd(a, full_matrices=False)[1]
    return S[0] / S[-1]


def matrix_power(a, n):
    if floatmode():
        return np.linalg.matrix_power(a, n)
    if n < 0:
        a, n = inv(a), -n
    r = identity(a.shape[0])
    for _ in range(n):
        r = r @ a
    return r


# ------------------------------------------------------------------ random draws

def _rshape(size):
    if size is None:
        return ()
    if isinstance(size, (int, np.integer, SymInt)):
        return (int(size),)
    return tuple(int(x) for x in size)


class RandomShim:
    """every draw is an arbitrary value of its range (an input of the harness)"""

    def _draw(self, kind, size, lo=None, hi=None):
        sh = _rshape(size)
        if floatmode():
            e = sym.Engine.cur
            rs = getattr(e, 'rng', None) or np.random.RandomState(0)
            if kind == 'normal':
                return rs.standard_normal(sh) if sh else float(rs.standard_normal())
            return rs.uniform(lo, hi, sh if sh else None)
        e = E()
        name = 'rand%d' % e.counter('rand')
        if name in e.draws:
            # the generator was put back to an earlier state
            what, a = e.draws[name]
            if what != (kind, sh, lo, hi):
                raise Unsupported('other draws from the same generator state')
            return a.copy() if isinstance(a, np.ndarray) else a
        a = e.real(name, sh, draw=kind, lo=lo, hi=hi, unit=(lo == 0 and hi == 1))
        # a draw is zero with probability zero
        for x in (a.reshape(-1) if isinstance(a, np.ndarray) else [a]):
            e.assume_fact(x, '!=' if kind == 'normal' else '>')
        e.draws[name] = ((kind, sh, lo, hi), a.copy() if isinstance(a, np.ndarray) else a)
        return a if sh else a[()] if isinstance(a, np.ndarray) else a

    def randn(self, *s):
        return self._draw('normal', s)

    def standard_normal(self, size=None, **k):
        return self._draw('normal', size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw('normal', size) * scale + loc

    def rand(self, *s):
        return self._draw('uniform', s, 0, 1)

    def random(self, size=None, **k):
        return self._draw('uniform', size, 0, 1)

    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self._draw('uniform', size, 0, 1)
        if low == 0 and high == 1:
            return r
        return r * (high - low) + low

    def seed(self, *a, **k):
        return None

    def RandomState(self, *a, **k):
        return self

    def default_rng(self, *a, **k):
        return self

    def permutation(self, *a):
        raise Unsupported('random permutation')

    shuffle = choice = randint = integers = permutation


def _make():
    np_ = types.ModuleType('numpy')
    ov = dict(zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like,
              empty_like=empty_like, full_like=full_like, eye=eye, identity=identity, array=array, asarray=asarray,
              asanyarray=asarray, ascontiguousarray=ascontiguousarray, asfortranarray=asfortranarray, sqrt=sqrt, abs=absolute,
              absolute=absolute, fabs=absolute, sign=sign, square=square, cbrt=cbrt, reciprocal=reciprocal,
              isnan=isnan_, isfinite=isfinite_, isinf=isinf_, mean=mean,
              std=lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False: np.std(a, axis=axis, ddof=ddof) if floatmode() else std(a, axis, ddof, keepdims),
              var=lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False: np.var(a, axis=axis, ddof=ddof) if floatmode() else var(a, axis, ddof, keepdims),
              isclose=isclose, allclose=allclose, array_equal=array_equal, fill_diagonal=fill_diagonal,
              einsum=einsum, diag=diag, nan_to_num=nan_to_num, power=power, float_power=power,
              divide=true_divide, true_divide=true_divide, finfo=finfo, issubdtype=issubdtype)
    for n in ('exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'arctan2', 'tanh',
              'floor', 'ceil', 'rint', 'round', 'around', 'trunc', 'median', 'percentile', 'quantile', 'histogram',
              'unique', 'copysign', 'signbit', 'spacing', 'nextafter', 'mod', 'remainder', 'fmod', 'interp'):
        ov[n] = _unsup(n)
    la = types.ModuleType('numpy.linalg')
    for f in (norm, svd, qr, inv, pinv, solve, lstsq, det, eigh, eigvalsh, cholesky, multi_dot, matrix_rank, cond, matrix_power):
        setattr(la, f.__name__, f)
    la.svdvals = lambda a: svd(a, compute_uv=False)
    la.LinAlgError = np.linalg.LinAlgError
    la.matrix_norm = lambda x, ord='fro', **k: norm(x, ord=ord, **k)
    la.vector_norm = lambda x, axis=None, keepdims=False, **k: norm(asarray(x).reshape(-1) if axis is None else x, axis=axis, keepdims=keepdims)

    def la_getattr(name):
        if not hasattr(np.linalg, name):
            raise AttributeError(name)

        def f(*a, **k):
            if floatmode():
                return getattr(np.linalg, name)(*a, **k)
            raise Unsupported('numpy.linalg.%s' % name)
        return f
    la.__getattr__ = la_getattr
    ov['linalg'] = la
    rs = RandomShim()
    rm = types.ModuleType('numpy.random')
    for n in dir(rs):
        if not n.startswith('_'):
            setattr(rm, n, getattr(rs, n))
    ov['random'] = rm
    for k, v in ov.items():
        setattr(np_, k, v)
    cache = {}

    def np_getattr(name):
        if name in cache:
            return cache[name]
        x = getattr(np, name)
        if isinstance(x, np.ufunc):
            r = _wrapped_ufunc(x)
        elif isinstance(x, (types.FunctionType, types.BuiltinFunctionType)) or type(x).__name__ == '_ArrayFunctionDispatcher':
            r = _wrapped(x)
        else:
            r = x
        cache[name] = r
        return r
    np_.__getattr__ = np_getattr
    np_.__all__ = [n for n in np.__all__]
    np_.__version__ = np.__version__
    return np_, la, rm


def _fixarg(x):
    if isinstance(x, SymInt):
        return int(x)
    return x


def _wrapped(f):
    def g(*a, **k):
        try:
            r = f(*a, **k)
        except TypeError as ex:
            if not floatmode() and ('loop of ufunc' in str(ex) or 'not supported' in str(ex)):
                raise Unsupported('numpy.%s: %s' % (f.__name__, ex))
            raise
        if floatmode():
            return r
        return wrap(r)
    g.__name__ = getattr(f, '__name__', 'f')
    return g


class _WU:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if not floatmode():
            a = [objarr(x) if isinstance(x, np.ndarray) and x.dtype.kind == 'f' else x for x in a]
        return wrap(self.u(*a, **k))

    def reduce(self, *a, **k):
        return wrap(self.u.reduce(*a, **k))

    def outer(self, *a, **k):
        return wrap(self.u.outer(*a, **k))

    def accumulate(self, *a, **k):
        return wrap(self.u.accumulate(*a, **k))

    def at(self, *a, **k):
        return self.u.at(*a, **k)


def _wrapped_ufunc(u):
    return _WU(u)


NP, LINALG, RANDOM = _make()


def _extend():
    def hypot(a, b, **k):
        if floatmode() or not (_has_sym(a) or _has_sym(b)):
            return np.hypot(a, b, **k)
        return NP.sqrt(NP.square(a) + NP.square(b))

    def copysign(a, b, **k):
        if floatmode() or not (_has_sym(a) or _has_sym(b)):
            return np.copysign(a, b, **k)
        return NP.where(asarray(b) < 0, -NP.abs(a), NP.abs(a))

    def slogdet(a):
        if floatmode() or not _has_sym(a):
            return np.linalg.slogdet(a)
        d = det(a)
        return NP.sign(d), Poison('logarithm')
    NP.hypot, NP.copysign, LINALG.slogdet = hypot, copysign, slogdet


_extend()


def _more():
    """scipy and numpy functions that are compositions of the ones above"""
    import scipy.linalg
    import scipy.optimize

    def khatri_rao(a, b):
        a, b = asarray(a), asarray(b)
        return (a[:, None, :] * b[None, :, :]).reshape(-1, a.shape[1])

    def block_diag(*arrs):
        arrs = [np.atleast_2d(asarray(x)) for x in arrs]
        out = zeros((sum(x.shape[0] for x in arrs), sum(x.shape[1] for x in arrs)))
        i = j = 0
        for x in arrs:
            out[i:i + x.shape[0], j:j + x.shape[1]] = x
            i, j = i + x.shape[0], j + x.shape[1]
        return out

    def svdvals(a, **k):
        return svd(a, full_matrices=False)[1]

    def pinvh(a, **k):
        return pinv(a)

    def orthogonal_procrustes(A, B, check_finite=True):
        U, S, Vh = svd((asarray(B).T @ asarray(A)).T, full_matrices=False)
        return U @ Vh, np.sum(S)

    def polar(a, side='right'):
        U, S, Vh = svd(a, full_matrices=False)
        return U @ Vh, (Vh.T * S) @ Vh if side == 'right' else (U * S) @ U.T

    def lu_factor(a, **k):
        return ('lu', asarray(a).copy()), None

    def lu_solve(lu, b, trans=0, **k):
        a = lu[0][1]
        return solve(a.T if trans else a, b)

    def linear_sum_assignment(cost, maximize=False):
        c = asarray(cost)
        n, m = c.shape
        if max(n, m) > 3:
            raise Unsupported('assignment')
        best = None
        for q in itertools.permutations(range(m), n) if n <= m else itertools.permutations(range(n), m):
            pairs = list(zip(range(n), q)) if n <= m else sorted(zip(q, range(m)))
            t = ZERO
            for i, j in pairs:
                t = t + c[i, j]
            if best is None or (t > best[0] if maximize else t < best[0]):
                best = (t, pairs)
        return np.array([i for i, _ in best[1]]), np.array([j for _, j in best[1]])
    lin = [khatri_rao, block_diag, svdvals, pinvh, orthogonal_procrustes, polar, lu_factor, lu_solve]

    def guard(f, real):
        def g(*a, **k):
            if floatmode() or not any(_has_sym(x) for x in a):
                return real(*a, **k)
            return f(*a, **k)
        g.__name__ = f.__name__
        return g
    return [guard(f, getattr(scipy.linalg, f.__name__)) for f in lin if hasattr(scipy.linalg, f.__name__)], \
        guard(linear_sum_assignment, scipy.optimize.linear_sum_assignment)


def _scipy():
    import scipy
    import scipy.optimize
    import scipy.linalg
    sp = types.ModuleType('scipy')
    so = types.ModuleType('scipy.optimize')
    so.nnls = nnls
    sl = types.ModuleType('scipy.linalg')

    def spoiling(f):
        """scipy may destroy arguments it is allowed to overwrite, if they are contiguous in Fortran order"""
        def g(*a, **k):
            r = f(*a, **k)
            if not floatmode():
                for name, i in (('overwrite_a', 0), ('overwrite_b', 1), ('overwrite_ab', 0)):
                    x = a[i] if len(a) > i else k.get(name[-1])
                    if k.get(name) and isinstance(x, np.ndarray) and x.dtype == object and x.flags.f_contiguous:
                        for j in np.ndindex(x.shape):
                            x[j] = fresh('overwritten')
            return r
        g.__name__ = f.__name__
        return g
    for f in (svd, qr, inv, pinv, solve, lstsq, det, eigh, norm, solve_triangular, cho_factor, cho_solve):
        setattr(sl, f.__name__, spoiling(f))
    sl.LinAlgError = np.linalg.LinAlgError

    def sqr(a, overwrite_a=False, lwork=None, mode='full', **k):
        if floatmode():
            return scipy.linalg.qr(a, mode=mode)
        return qr(a, mode={'economic': 'reduced', 'full': 'complete', 'r': 'r'}[mode])
    sl.qr = spoiling(sqr)
    lin, so.linear_sum_assignment = _more()
    for f in lin:
        setattr(sl, f.__name__, f)

    def scho(a, lower=False, **k):
        L = cholesky(a)
        return L if lower else L.T
    sl.cholesky = spoiling(scho)

    def mk(real, pre):
        def ga(name):
            x = getattr(real, name)
            if callable(x) and not isinstance(x, type):
                def f(*a, **k):
                    if floatmode() or not any(_has_sym(y) for y in a):
                        return x(*a, **k)
                    raise Unsupported('%s.%s' % (pre, name))
                return f
            return x
        return ga
    so.__getattr__ = mk(scipy.optimize, 'scipy.optimize')
    sl.__getattr__ = mk(scipy.linalg, 'scipy.linalg')
    sp.optimize = so
    sp.linalg = sl
    sp.__getattr__ = mk(scipy, 'scipy')
    return sp, so, sl


SCIPY, SOPT, SLIN = _scipy()
