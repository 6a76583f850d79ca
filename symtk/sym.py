"""Symbolic reals (exact rational functions with algebraic symbols), booleans and integers."""
from fractions import Fraction
import math
import numbers
import numpy as _np
import z3
from . import poly
from .poly import BITS, MASK, TooBig


class Unsupported(BaseException):
    """the engine cannot follow the code here (never reported as a violation)"""


class Engine:
    """holder, set by engine.py"""
    cur = None


TINY = Fraction(1, 10 ** 12)
BIG = Fraction(1, 100)


def R():
    return poly.R


def to_frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return poly._norm(x)
    if isinstance(x, (_np.bool_, _np.integer)):
        return int(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if not math.isfinite(x):
            raise ValueError('non-finite')
        if x == int(x):
            return int(x)
        return poly._norm(Fraction(repr(x)))
    return None


def _split(p):
    """p = c * monomial * q with q primitive, positive leading coefficient: (c, mono, q)"""
    c = poly.content(p)
    if p[max(p)] < 0:
        c = -c
    g = poly.mgcd(p)
    q = {m - g: poly._norm(Fraction(k) / c) for m, k in p.items()}
    return poly._norm(c), g, q


def _dadd(d, fid, e):
    x = dict(d)
    x[fid] = x.get(fid, 0) + e
    return tuple(sorted((k, v) for k, v in x.items() if v))


class Sym:
    __slots__ = ('n', 'd')
    __array_priority__ = -1.0e6

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    # ---- construction helpers
    @staticmethod
    def const(c):
        return Sym(poly.pconst(c))

    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def cval(self):
        return self.n.get(0, 0)

    def is_zero(self):
        return not self.n

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Poison):
            return o
        if not o.n:
            return self
        if not self.n:
            return o
        if o.is_const() and abs(o.cval()) <= TINY and (not self.is_const() or abs(self.cval()) >= BIG):
            Engine.cur.note_tiny(o.cval())
            return self
        if self.is_const() and abs(self.cval()) <= TINY and (not o.is_const() or abs(o.cval()) >= BIG):
            Engine.cur.note_tiny(self.cval())
            return o
        return _add(self, o)

    __radd__ = __add__

    def minus(self, o):
        """self - o without dropping guards (comparisons)"""
        if isinstance(o, Poison):
            return o
        return _add(self, -o) if o.n and self.n else self - o

    def __neg__(self):
        return Sym(poly.pneg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Poison):
            return o
        if not self.n or not o.n:
            return ZERO
        if not self.d and not o.d:
            return Sym(poly.pmul(self.n, o.n))
        a, b = self, o
        n1, d2 = _cancel(a.n, b.d)
        n2, d1 = _cancel(b.n, a.d)
        return _mk(poly.pmul(n1, n2), _dmul(d1, d2))

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError
        c, g, q = _split(self.n)
        num = poly.pconst(Fraction(1) / c)
        d = ()
        for v, e in poly.mono_items(g):
            d = _dadd(d, poly.factor_id(poly.pvar(v)), e)
        if len(q) > 1:
            for fid, e in _known_factors(q):
                d = _dadd(d, fid, e)
        # numerator gets the old denominator
        for fid, e in self.d:
            num = poly.pmul(num, poly.ppow(R().factors[fid], e))
        return _mk(num, d)

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Poison):
            return o
        if not o.n:
            return Poison('division by zero')
        if o.is_const():
            return Sym(poly.pscale(self.n, Fraction(1) / Fraction(o.cval())), self.d)
        if not Engine.cur.known_nonzero(o):
            if Engine.cur.decide_zero(o):
                return Poison('division by zero')
        if not self.n:
            return ZERO
        return self * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, k):
        if isinstance(k, Sym) and k.is_const():
            k = k.cval()
        k = to_frac(k)
        if k is None:
            raise Unsupported('symbolic exponent')
        if isinstance(k, Fraction):
            if k.denominator == 2:
                r = self.sqrt()
                return r ** k.numerator
            # k-th root of a value; the literal 1/3 comes as a float
            f = k.limit_denominator(12)
            if abs(f - k) < Fraction(1, 10 ** 12) and f.denominator > 1:
                if f.denominator == 2:
                    return self.sqrt() ** f.numerator
                return root(self, f.denominator) ** f.numerator
            raise Unsupported('exponent %s' % k)
        if k < 0:
            return ONE / (self ** (-k))
        if not self.d:
            return Sym(poly.ppow(self.n, k))
        return _mk(poly.ppow(self.n, k), tuple((f, e * k) for f, e in self.d))

    def __rpow__(self, b):
        raise Unsupported('symbolic exponent')

    def __mod__(self, o):
        raise Unsupported('mod of a real')

    def __abs__(self):
        if self.is_const():
            return Sym.const(abs(self.cval()))
        s = Engine.cur.quick_sign(self)
        if s is not None and s >= 0:
            return self
        if s is not None and s <= 0:
            return -self
        return _abs(self)

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    def fabs(self):
        return abs(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def square(self):
        return self * self

    # ---- comparisons fork
    def _cmp(self, o, op):
        o2 = lift(o)
        if o2 is NotImplemented:
            return NotImplemented
        if isinstance(o2, Poison):
            return op == '!='
        return Engine.cur.compare(self, o2, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        return hash((frozenset(self.n.items()), self.d))

    def __bool__(self):
        return self._cmp(0, '!=')

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        raise Unsupported('int() of a symbolic value')

    def is_integer(self):
        if self.is_const():
            return Fraction(self.cval()).denominator == 1
        raise Unsupported('is_integer of a symbolic value')

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        if self.is_const():
            return format(float(self.cval()), spec)
        return '<sym>'

    def __repr__(self):
        return 'Sym(%s)' % show(self)


def show(s, limit=6):
    if isinstance(s, Poison):
        return 'NaN(%s)' % s.why

    def sp(p):
        out = []
        for i, (m, c) in enumerate(p.items()):
            if i >= limit:
                out.append('... %d terms' % len(p))
                break
            ms = '*'.join(R().names[v] + ('^%d' % e if e > 1 else '') for v, e in poly.mono_items(m))
            out.append('%s%s' % (c, '*' + ms if ms else ''))
        return ' + '.join(out) or '0'
    t = sp(s.n)
    if s.d:
        t = '(%s)/(%s)' % (t, ' * '.join('(%s)^%d' % (sp(R().factors[f]), e) for f, e in s.d))
    return t


class Poison:
    """NaN / inf / uninitialised memory"""
    __slots__ = ('why',)
    __array_priority__ = -1.0e6

    def __init__(self, why):
        self.why = why

    def _p(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _p
    __neg__ = __pos__ = __pow__ = __abs__ = sqrt = conjugate = item = copy = __copy__ = __deepcopy__ = fabs = square = _p

    def _f(self, o):
        return False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f

    def __ne__(self, o):
        return True

    __hash__ = None

    def __bool__(self):
        return True

    def __float__(self):
        return float('nan')

    def __format__(self, s):
        return 'nan'

    def __repr__(self):
        return 'NaN(%s)' % self.why

    @property
    def real(self):
        return self


def lift(x):
    if type(x) is Sym:
        return x
    if type(x) is Poison:
        return x
    if isinstance(x, SymInt):
        return x.to_sym()
    if isinstance(x, (float, _np.floating)) and not math.isfinite(x):
        return Poison('non-finite constant %r' % float(x))
    if isinstance(x, _np.ndarray):
        return NotImplemented
    f = to_frac(x)
    if f is None:
        return NotImplemented
    return Sym(poly.pconst(f))


ZERO = Sym({})
ONE = Sym({0: 1})


def _dmul(a, b):
    if not a:
        return b
    if not b:
        return a
    x = dict(a)
    for k, e in b:
        x[k] = x.get(k, 0) + e
    return tuple(sorted(x.items()))


def _var_of_factor(f):
    p = R().factors[f]
    if len(p) == 1:
        (m, c), = p.items()
        return (m.bit_length() - 1) // BITS
    return None


def _cancel(n, d):
    """cancel factors of d from n"""
    if not d or not n:
        return n, d
    out = []
    for f, e in d:
        v = _var_of_factor(f)
        if v is not None:
            k = min(((m >> (v * BITS)) & MASK) for m in n)
            k = min(k, e)
            if k:
                sh = k << (v * BITS)
                n = {m - sh: c for m, c in n.items()}
                e -= k
        else:
            fp = R().factors[f]
            while e and len(n) * len(fp) < 400000:
                q = poly.exact_div(n, fp)
                if q is None:
                    break
                n = q
                e -= 1
        if e:
            out.append((f, e))
    return n, tuple(out)


def _reduce_den(n, d):
    """denominator variables with a rule v**deg = p: move whole powers into the factor p"""
    rules = R().rules
    if not rules:
        return n, d
    changed = False
    for f, e in d:
        v = _var_of_factor(f)
        if v is not None and v in rules and e >= rules[v][0]:
            changed = True
            break
    if not changed:
        return n, d
    x = dict(d)
    work = list(x)
    for f in work:
        v = _var_of_factor(f)
        if v is None or v not in rules:
            continue
        deg, p = rules[v]
        e = x.get(f, 0)
        if e < deg:
            continue
        k, r = divmod(e, deg)
        if r:
            x[f] = r
        else:
            x.pop(f)
        if not p:
            raise ZeroDivisionError
        c, g, q = _split(p)
        if k:
            n = poly.pscale(n, Fraction(1) / Fraction(c) ** k)
        for vv, ee in poly.mono_items(g):
            ff = poly.factor_id(poly.pvar(vv))
            x[ff] = x.get(ff, 0) + ee * k
        if len(q) > 1:
            for ff, ee in _known_factors(q):
                x[ff] = x.get(ff, 0) + ee * k
    return _reduce_den(n, tuple(sorted(x.items())))


def _known_factors(q):
    """factor a primitive polynomial over the factors seen so far"""
    k = poly.key(q)
    if k in R().factor_ids:
        return [(R().factor_ids[k], 1)]
    ck = R().expand_cache.get(k)
    if ck is not None:
        return ck
    out = []
    rest = q
    if len(q) > 2 and len(q) < 4000:
        for fid, fp in enumerate(list(R().factors)):
            if len(fp) < 2 or len(fp) > len(rest):
                continue
            while True:
                z = poly.exact_div(rest, fp, maxsteps=2000)
                if z is None:
                    break
                out.append((fid, 1))
                rest = z
                if len(rest) == 1 and 0 in rest:
                    break
    if not (len(rest) == 1 and 0 in rest):
        out.append((poly.factor_id(rest), 1))
    R().expand_cache[k] = out
    return out


def _mk(n, d):
    if not n:
        return ZERO
    if d:
        n, d = _reduce_den(n, d)
        n, d = _cancel(n, d)
    return Sym(n, d)


def _add(a, b):
    if a.d == b.d:
        n = poly.padd(a.n, b.n)
        if not n:
            return ZERO
        return _mk(n, a.d) if a.d else Sym(n)
    da, db = dict(a.d), dict(b.d)
    ma, mb = {0: 1}, {0: 1}
    l = dict(da)
    for f, e in db.items():
        if e > l.get(f, 0):
            l[f] = e
    for f, e in l.items():
        k = e - da.get(f, 0)
        if k:
            ma = poly.pmul(ma, poly.ppow(R().factors[f], k))
        k = e - db.get(f, 0)
        if k:
            mb = poly.pmul(mb, poly.ppow(R().factors[f], k))
    n = poly.padd(poly.pmul(a.n, ma), poly.pmul(b.n, mb))
    return _mk(n, tuple(sorted(l.items())))


# ---------------------------------------------------------------- algebraic symbols

def _is_square(fr):
    fr = Fraction(fr)
    if fr < 0:
        return None
    a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if a * a == fr.numerator and b * b == fr.denominator:
        return poly._norm(Fraction(a, b))
    return None


def sqrt(x):
    x = lift(x)
    if isinstance(x, Poison):
        return x
    if not x.n:
        return ZERO
    if x.is_const():
        c = x.cval()
        if c < 0:
            return Poison('sqrt of a negative number')
        s = _is_square(c)
        if s is not None:
            return Sym.const(s)
        c = Fraction(c)
        # sqrt(a/b) = sqrt(a*b)/b
        return Sym(poly.pvar(_sqrt_var({0: c.numerator * c.denominator}))) / Sym.const(c.denominator)
    E = Engine.cur
    if not E.known_sign(x, '>=0'):
        if E.compare(x, ZERO, '<'):
            return Poison('sqrt of a negative number')
    # denominators: even powers come out, odd powers are multiplied in
    num = x.n
    den = ONE
    for f, e in x.d:
        fp = R().factors[f]
        if e % 2:
            num = poly.pmul(num, fp)
            e += 1
        ab = abs(Sym(fp))
        E.learn(ab, '>')
        den = den * (ab ** (e // 2))
    return _sqrt_poly(num) / den if den is not ONE else _sqrt_poly(num)


def _sqrt_poly(p):
    if not p:
        return ZERO
    c, g, q = _split(p)
    if c < 0:
        c, q = -c, poly.pneg(q)
    out = ONE
    # rational content
    c = Fraction(c)
    s = _is_square(c)
    inside = None
    if s is not None:
        out = Sym.const(s)
    else:
        out = Sym.const(Fraction(1, c.denominator))
        inside = c.numerator * c.denominator
    # monomial part
    rest_g = 0
    for v, e in poly.mono_items(g):
        h = e // 2
        if h:
            out = out * (abs(Sym(poly.pvar(v))) ** h)
        if e % 2:
            rest_g |= 1 << (v * BITS)
    if len(q) == 1 and 0 in q and q[0] == 1:
        if rest_g == 0 and inside is None:
            return out
        rad = {rest_g: inside if inside is not None else 1}
        return out * Sym(poly.pvar(_sqrt_var(rad)))
    # known radicands dividing q (unless the monomial part makes it a mixed radicand)
    if rest_g == 0 and inside is None:
        k = poly.key(q)
        if k in R().sqrt_cache:
            return out * Sym(poly.pvar(R().sqrt_cache[k]))
        for k2, v in list(R().sqrt_cache.items()):
            if len(k2) < 2:
                continue
            z = poly.exact_div(q, dict(k2))
            if z is not None and len(z) < len(q):
                return out * Sym(poly.pvar(v)) * _sqrt_poly(z)
        # a square of a known factor?
        for fid, fp in enumerate(list(R().factors)):
            if len(fp) < 2 or len(fp) > len(q):
                continue
            z = poly.exact_div(q, fp)
            if z is not None:
                z2 = poly.exact_div(z, fp)
                if z2 is not None:
                    return out * abs(Sym(fp)) * _sqrt_poly(z2)
        s = _poly_sqrt(q)
        if s is not None:
            return out * abs(Sym(s))
    rad = poly.pmul(q, {rest_g: inside if inside is not None else 1})
    return out * Sym(poly.pvar(_sqrt_var(rad)))


def _poly_sqrt(q):
    """exact square root of a polynomial (no rules), or None"""
    lead = max(q)
    s = _is_square(q[lead])
    if s is None:
        return None
    h = 0
    for v, e in poly.mono_items(lead):
        if e % 2:
            return None
        h |= (e // 2) << (v * BITS)
    root_ = {h: s}
    rem = poly.psub(q, {lead: q[lead]})
    n = 0
    items = poly.mono_items(h)
    while rem:
        n += 1
        if n > 60:
            return None
        m = max(rem)
        for v, e in items:
            if ((m >> (v * BITS)) & MASK) < e:
                return None
        t = {m - h: poly._norm(Fraction(rem[m]) / (2 * s))}
        if max(t) >= h:
            return None
        # (root+t)^2 = root^2 + 2 root t + t^2
        add = poly.padd(poly.pscale(_rawmul(root_, t), 2), _rawmul(t, t))
        rem = poly.psub(rem, add)
        root_ = poly.padd(root_, t)
    # verify
    if poly.psub(_rawmul(root_, root_), q):
        return None
    return root_


def _rawmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            r[m1 + m2] = r.get(m1 + m2, 0) + c1 * c2
    return {m: poly._norm(c) for m, c in r.items() if c}


def _sqrt_var(p):
    k = poly.key(p)
    v = R().sqrt_cache.get(k)
    if v is None:
        pos = Engine.cur.known_sign(Sym(p), '>0')
        v = R().var('sqrt%d' % len(R().sqrt_cache), nonneg=True, pos=bool(pos))
        R().rule(v, 2, dict(p))
        R().sqrt_cache[k] = v
        pp = dict(p)
        R().defs[v] = lambda pt, pp=pp: math.sqrt(max(poly.peval(pp, pt), 0.0))
        Engine.cur.new_var(v, [('sq', v, pp)])
    return v


def _abs(x):
    """|x| as a symbol with a^2 = x^2"""
    # denominators
    out = ONE
    for f, e in x.d:
        fp = R().factors[f]
        out = out * (abs(Sym(fp)) if len(fp) > 1 or True else Sym(fp)) ** e
    c, g, q = _split(x.n)
    r = Sym.const(abs(c))
    for v, e in poly.mono_items(g):
        if e % 2 == 0:
            r = r * Sym(poly.pvar(v)) ** e
        else:
            r = r * Sym(poly.pvar(v)) ** (e - 1) * _abs_poly(poly.pvar(v))
    if not (len(q) == 1 and 0 in q):
        r = r * _abs_poly(q)
    if out is not ONE:
        r = r / out
    return r


def _abs_poly(p):
    s = Engine.cur.quick_sign(Sym(p))
    if s is not None and s >= 0:
        return Sym(p)
    if s is not None and s <= 0:
        return Sym(poly.pneg(p))
    k = ('abs', poly.key(p))
    v = R().sqrt_cache_abs.get(k)
    if v is None:
        k2 = ('abs', poly.key(poly.pneg(p)))
        v = R().sqrt_cache_abs.get(k2)
    if v is None:
        v = R().var('abs%d' % len(R().sqrt_cache_abs), nonneg=True, pos=False)
        if Engine.cur.known_nonzero(Sym(p)):
            R().pos[v] = True
        pp = dict(p)
        R().rule(v, 2, poly.pmul(pp, pp))
        R().sqrt_cache_abs[k] = v
        R().defs[v] = lambda pt, pp=pp: abs(poly.peval(pp, pt))
        Engine.cur.new_var(v, [('abs', v, pp)])
    return Sym(poly.pvar(v))


def narrow(x, dtype):
    """what is left of x after a conversion to a type that cannot represent it: a function of x about which only its
    values on constants are known"""
    dt = _np.dtype(dtype)
    x = lift(x)
    if isinstance(x, Poison) or dt.kind not in 'iuf' or (dt.kind == 'f' and dt.itemsize >= 8):
        return x
    if x.is_const():
        return lift(_np.asarray(float(x.cval())).astype(dt).item())
    e = Engine.cur
    memo = e.__dict__.setdefault('narrowed', {})
    key = (dt.str, tuple(sorted(x.n.items())), x.d)
    if key not in memo:
        v = e.reg.var('%s%d' % (dt.name, len(memo)))
        e.new_var(v, [])
        memo[key] = r = Sym(poly.pvar(v))
        memo[(dt.str, tuple(sorted(r.n.items())), r.d)] = r
    return memo[key]


def root(x, k):
    """the k-th root (k > 2) of a nonnegative value"""
    x = lift(x)
    if isinstance(x, Poison):
        return x
    if not x.n:
        return ZERO
    if x.is_const() and x.cval() == 1:
        return ONE
    E = Engine.cur
    if not E.known_sign(x, '>=0'):
        if E.compare(x, ZERO, '<'):
            return Poison('root of a negative number')
    den = ONE
    num = x.n
    for f, e in x.d:
        fp = R().factors[f]
        r = (-e) % k
        if r:
            num = poly.pmul(num, poly.ppow(fp, r))
        den = den * Sym(fp) ** ((e + r) // k)
    c, g, q = _split(num)
    c = Fraction(c)
    if c < 0:
        c, q = -c, poly.pneg(q)
    out = ONE
    for v, e in poly.mono_items(g):
        out = out * _root_var(poly.pvar(v), k) ** e
    rest = poly.pscale(q, c)
    if not (len(rest) == 1 and 0 in rest and rest[0] == 1):
        out = out * _root_var(rest, k)
    return out / den if den is not ONE else out


def _root_var(p, k):
    kk = (k, poly.key(p))
    v = R().root_cache.get(kk)
    if v is None:
        pos = Engine.cur.known_sign(Sym(p), '>0')
        v = R().var('root%d_%d' % (k, len(R().root_cache)), nonneg=True, pos=bool(pos))
        R().rule(v, k, dict(p))
        R().root_cache[kk] = v
        pp = dict(p)
        R().defs[v] = lambda pt, pp=pp: max(poly.peval(pp, pt), 0.0) ** (1.0 / k)
        Engine.cur.new_var(v, [('root', v, pp, k)])
    return Sym(poly.pvar(v))


# ---------------------------------------------------------------- symbolic integers

def _iv(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    return None


class SymInt:
    """a z3 integer steering control flow"""
    __slots__ = ('z',)
    __array_priority__ = -1.0e6

    def __init__(self, z):
        self.z = z3.simplify(z)

    def _bin(self, o, f, rf):
        b = _iv(o)
        if b is None:
            if isinstance(o, (Sym, Poison)) or isinstance(o, (float, _np.floating, Fraction)):
                if isinstance(o, (float, _np.floating)) and not math.isfinite(o):
                    return rf(0.0, float(o))
                return rf(self.to_sym(), lift(o))
            return NotImplemented
        r = SymInt(f(self.z, b))
        return int(r.z.as_long()) if z3.is_int_value(r.z) else r

    def to_sym(self):
        return Engine.cur.int_as_sym(self.z)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a, lambda a, b: b * a)
    def __truediv__(self, o): return self.to_sym() / lift(o)
    def __rtruediv__(self, o): return lift(o) / self.to_sym()
    def __neg__(self): return SymInt(-self.z)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.z >= 0, self.z, -self.z))

    def _divmod(self, o, rev=False):
        b = _iv(o)
        if b is None:
            raise Unsupported('divmod with %r' % (o,))
        x, y = (b, self.z) if rev else (self.z, b)
        if Engine.cur.decide(y == 0):
            raise ZeroDivisionError('integer modulo by zero')
        # python floors towards -inf; z3 makes the remainder nonnegative
        q = z3.If(y > 0, x / y, (-x) / (-y))
        return q, x - q * y

    def __mod__(self, o):
        r = SymInt(self._divmod(o)[1])
        return int(r.z.as_long()) if z3.is_int_value(r.z) else r

    def __rmod__(self, o):
        return SymInt(self._divmod(o, True)[1])

    def __floordiv__(self, o):
        return SymInt(self._divmod(o)[0])

    def __rfloordiv__(self, o):
        return SymInt(self._divmod(o, True)[0])

    def __divmod__(self, o):
        q, r = self._divmod(o)
        return SymInt(q), SymInt(r)

    def _cmp(self, o, f, g):
        b = _iv(o)
        if b is None:
            if isinstance(o, (float, _np.floating)) and not math.isfinite(o):
                return g(0.0, float(o))
            if isinstance(o, (Sym, Poison, float, _np.floating, Fraction)):
                return g(self.to_sym(), o)
            return NotImplemented
        return Engine.cur.decide(f(self.z, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return Engine.cur.decide(self.z != 0)

    def __index__(self):
        return Engine.cur.concretize(self.z)

    __int__ = __index__

    def __float__(self):
        return float(Engine.cur.concretize(self.z))

    def __hash__(self):
        return hash(Engine.cur.concretize(self.z))

    def __format__(self, spec):
        return format(Engine.cur.concretize(self.z), spec)

    def __str__(self):
        return str(Engine.cur.concretize(self.z))

    def __repr__(self):
        return 'SymInt(%s)' % self.z

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self


numbers.Integral.register(SymInt)
