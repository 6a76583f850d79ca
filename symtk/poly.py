"""Exact sparse polynomials over Q, with algebraic side rules.

A polynomial is a dict {monomial: coefficient}.  A monomial is one Python int holding the exponent of
variable i in bits [i*BITS, (i+1)*BITS); multiplying monomials is integer addition.  Coefficients are
int or Fraction (ints whenever integral).

A *rule* (v, d, p) says v**d == p (square roots, |x|, sines, signs, k-th roots): powers of v at or above
d are rewritten, so that values built from norms, rotations or signs have a normal form.
"""
from fractions import Fraction

BITS = 10
MASK = (1 << BITS) - 1


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Reg:
    """Variables, rules and facts of one symbolic path."""

    def __init__(self):
        self.names = []
        self.kind = []          # 'input' | 'fresh'
        self.nonneg = []        # known >= 0
        self.pos = []           # known > 0
        self.integral = []
        self.rules = {}         # var -> (deg, poly)
        self.rulemask = 0
        self.sqrt_cache = {}
        self.sqrt_cache_abs = {}
        self.root_cache = {}
        self.factors = []       # factor id -> poly
        self.factor_ids = {}    # frozenset(items) -> id
        self.nonzero = set()    # factor ids known nonzero on this path
        self.nonzerovars = set()
        self.fsign = {}         # factor id -> sign fact
        self.possitive = set()  # factor ids known > 0 on this path
        self.expand_cache = {}
        self.defs = {}          # var -> evaluator(point dict) -> float (for validation)

    def var(self, name, kind='fresh', nonneg=False, pos=False, integral=False):
        i = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        self.nonneg.append(nonneg or pos)
        self.pos.append(pos)
        self.integral.append(integral)
        return i

    def rule(self, v, deg, p):
        self.rules[v] = (deg, p)
        # candidate mask: any exponent >= 2 (deg>=2 always); refined in reduce_
        self.rulemask |= ((MASK & ~1) << (v * BITS))


R = Reg()


def set_reg(r):
    global R
    R = r


def reg():
    return R


def mono(v, e=1):
    return e << (v * BITS)


def pvar(v):
    return {1 << (v * BITS): 1}


def pconst(c):
    return {0: _norm(c)} if c else {}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = _norm(s)
            else:
                del r[m]
    return r


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = -c
        else:
            s = s - c
            if s:
                r[m] = _norm(s)
            else:
                del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: _norm(c * k) for m, c in a.items()}


class TooBig(BaseException):
    pass


LIMIT = 400000


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m0, c0), = a.items()
        if m0 == 0:
            return pscale(b, c0)
        r = {m + m0: _norm(c * c0) for m, c in b.items()}
        return reduce_(r)
    if len(a) * len(b) > 4 * LIMIT:
        raise TooBig('product of %d x %d terms' % (len(a), len(b)))
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    r = {m: _norm(c) for m, c in r.items() if c}
    return reduce_(r)


def _rule_hit(m):
    """the first rule variable of monomial m with exponent >= its degree, or None"""
    x = m & R.rulemask
    while x:
        v = ((x & -x).bit_length() - 1) // BITS
        e = (m >> (v * BITS)) & MASK
        d, p = R.rules[v]
        if e >= d:
            return v, e, d, p
        x &= ~(MASK << (v * BITS))
    return None


def reduce_(p):
    mask = R.rulemask
    if not mask:
        return p
    todo = None
    for m in p:
        if m & mask and _rule_hit(m):
            if todo is None:
                todo = []
            todo.append(m)
    if todo is None:
        return p
    out = dict(p)
    work = {}
    for m in todo:
        work[m] = out.pop(m)
    n = 0
    while work:
        m, c = work.popitem()
        h = _rule_hit(m)
        if h is None:
            s = out.get(m, 0) + c
            if s:
                out[m] = _norm(s)
            else:
                out.pop(m, None)
            continue
        v, e, d, q = h
        base = m - ((d) << (v * BITS))
        for m2, c2 in q.items():
            mm = base + m2
            s = work.get(mm, 0) + c * c2
            if s:
                work[mm] = s
            else:
                work.pop(mm, None)
        n += 1
        if n > 4 * LIMIT:
            raise TooBig('reduction')
    return out


def ppow(a, n):
    r = {0: 1}
    b = a
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def pvars(p):
    acc = 0
    for m in p:
        acc |= m
    vs = []
    i = 0
    while acc:
        if acc & MASK:
            vs.append(i)
        acc >>= BITS
        i += 1
    return vs


def mono_items(m):
    i = 0
    out = []
    while m:
        e = m & MASK
        if e:
            out.append((i, e))
        m >>= BITS
        i += 1
    return out


def mgcd(p):
    """monomial gcd of all the terms"""
    it = iter(p)
    g = next(it)
    for m in it:
        if g == 0:
            return 0
        r = 0
        for v, e in mono_items(g):
            f = (m >> (v * BITS)) & MASK
            k = e if e < f else f
            if k:
                r |= k << (v * BITS)
        g = r
    return g


def content(p):
    from math import gcd
    num = 0
    den = 1
    for c in p.values():
        if type(c) is Fraction:
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        else:
            num = gcd(num, c)
    return Fraction(num, den) if num else Fraction(0)


def plead(p):
    return max(p)


def key(p):
    return frozenset(p.items())


def factor_id(p):
    """id of a primitive polynomial with positive leading coefficient"""
    k = key(p)
    i = R.factor_ids.get(k)
    if i is None:
        i = len(R.factors)
        R.factors.append(p)
        R.factor_ids[k] = i
    return i


def peval(p, point):
    tot = 0.0
    for m, c in p.items():
        t = float(c)
        for v, e in mono_items(m):
            t *= point[v] ** e
        tot += t
    return tot


def exact_div(p, q, maxsteps=3000):
    """p / q if q divides p exactly (no rules involved), else None"""
    if not p:
        return {}
    if len(q) == 1:
        (mq, cq), = q.items()
        out = {}
        for m, c in p.items():
            for v, e in mono_items(mq):
                if ((m >> (v * BITS)) & MASK) < e:
                    return None
            out[m - mq] = _norm(Fraction(c) / cq)
        return out
    lq = max(q)
    cq = q[lq]
    items = mono_items(lq)
    r = dict(p)
    out = {}
    n = 0
    while r:
        m = max(r)
        c = r[m]
        for v, e in items:
            if ((m >> (v * BITS)) & MASK) < e:
                return None
        k = _norm(Fraction(c) / cq)
        d = m - lq
        out[d] = k
        for m2, c2 in q.items():
            mm = d + m2
            s = r.get(mm, 0) - k * c2
            if s:
                r[mm] = _norm(s)
            else:
                r.pop(mm, None)
        n += 1
        if n > maxsteps:
            return None
    return out
