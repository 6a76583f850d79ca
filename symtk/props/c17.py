"""C17: core consistency."""
import numpy as np
from . import spec

BOUNDS = ('tensors up to 3x2x2 (thorough 3x3x2 and rank 3 on fixed directions), rank 1-2; arbitrary data (written in a basis that contains the factors), '
          'arbitrary full-rank factors, scales, weights of either sign')
ASSUMPTIONS = ['factors of full column rank with nonzero columns, nonzero weights']
LIMITS = dict(max_paths=60, time=120)
LAYOUTS = 'all'


def configs(tier):
    c = []
    big = tier == 'thorough'

    def add(shape, rank, via, norm=False, signs=(), free=(0, 1, 2)):
        c.append(dict(name='%s-r%d-%s%s%s%s' % ('x'.join(map(str, shape)), rank, via, '-norm' if norm else '',
                                                '-s' + ''.join('+' if x > 0 else '_' for x in signs) if signs else '',
                                                '' if len(free) == 3 else '-free' + ''.join(map(str, free))),
                      what='value', shape=shape, rank=rank, via=via, norm=norm, signs=tuple(signs), free=tuple(free)))
    for norm in (False, True):
        add((2, 2, 2), 1, 'plain', norm)
        add((2, 1, 3), 1, 'plain', norm)
        add((1, 1, 1), 1, 'plain', norm)
        for s in ((1,), (-1,)):
            add((2, 2, 2), 1, 'kruskal', norm, s)
        add((2, 2, 2), 2, 'plain', norm, free=(0, 1))
        add((2, 2, 2), 2, 'plain', norm, free=(1, 2))
        add((2, 2, 2), 2, 'kruskal', norm, (1, -1), free=(0,))
        add((2, 2, 2), 2, 'kruskal', norm, (1, 1), free=(2,))
        add((3, 2, 2), 2, 'plain', norm, free=(0,))
        add((2, 3, 2), 2, 'plain', norm, free=(1,))
        add((2, 2, 3), 2, 'plain', norm, free=(2,))
    add((2, 1, 2), 1, 'parafac2')
    add((2, 1, 1), 1, 'parafac2')
    add((2, 2, 2), 2, 'parafac2', free=(0,))
    add((2, 2, 2), 2, 'parafac2', free=(1,))
    if big:
        for norm in (False, True):
            add((2, 2, 2), 2, 'plain', norm)
            add((3, 2, 3), 2, 'plain', norm, free=(0, 1))
            add((3, 3, 3), 3, 'plain', norm, free=())
            add((3, 3, 3), 2, 'kruskal', norm, (-1, -1), free=(0,))
            add((2, 4, 2), 2, 'plain', norm, free=(1,))
        add((3, 2, 2), 2, 'parafac2', False, free=(0, 2))
    for n in (1, 2, 4, 5):
        c.append(dict(name='order%d' % n, what='order', shape=(2,) * n, rank=1, via='kruskal', norm=False, signs=(), free=()))
    return c


def basis(ctx, name, n, rank, free):
    """orthonormal basis of R^n, and unit columns inside the span of its first `rank` vectors with triangular coordinates"""
    if free:
        Q = ctx.orthonormal(name + 'Q', n, n)
    else:
        Q = ctx.zeros((n, n))
        Q[...] = np.eye(n, dtype=int)
    R = ctx.zeros((rank, rank))
    R[0, 0] = 1
    for r in range(1, rank):
        if free:
            t = ctx.orthonormal('%st%d' % (name, r), r + 1, 1)[:, 0]
            ctx.assume(t[r], '!=', 1e-2)
            for i in range(r + 1):
                R[i, r] = t[i]
        elif rank == 2:
            R[0, 1], R[1, 1] = num(ctx, 3, 5), num(ctx, 4, 5)
        else:
            R[r, r] = 1
            if r == 1:
                R[0, 1], R[1, 1] = num(ctx, 3, 5), num(ctx, -4, 5)
    return Q, R


def num(ctx, a, b):
    from fractions import Fraction
    return Fraction(a, b) if ctx.sym else a / b


def kron3(a, b, c):
    n = [len(a), len(b), len(c)]
    m = [a.shape[1], b.shape[1], c.shape[1]]
    out = np.empty((n[0] * n[1] * n[2], m[0] * m[1] * m[2]), dtype=object)
    for i in np.ndindex(*n):
        for j in np.ndindex(*m):
            out[np.ravel_multi_index(i, n), np.ravel_multi_index(j, m)] = a[i[0], j[0]] * b[i[1], j[1]] * c[i[2], j[2]]
    return out


def harness(ctx, what, shape, rank, via, norm, signs, free):
    metrics, D = ctx.tk.metrics, ctx.tk.decs
    if what == 'order':
        X = ctx.real('X', shape)
        K = D.KruskalTensor([ctx.real('U%d' % n, (s, rank)) for n, s in enumerate(shape)])
        ctx.raises((ValueError,), lambda: K.core_consistency(X), 'refused')
        return
    Q, R = zip(*[basis(ctx, 'm%d' % n, s, rank, n in free) for n, s in enumerate(shape)])
    # component r: lengths l0, l1, l2 with |w| l0 l1 l2 = c^3, so that every mode gets c when the scale is spread evenly
    c = ctx.zeros(rank)
    L = [ctx.zeros(rank) for _ in range(3)]
    w = ctx.zeros(rank)
    for r in range(rank):
        c[r] = ctx.real('c%d' % r, (), pos=True)
        L[0][r] = ctx.real('l0%d' % r, (), pos=True)
        L[1][r] = ctx.real('l1%d' % r, (), pos=True)
        aw = 1
        w[r] = 1
        if signs:
            aw = ctx.real('w%d' % r, (), pos=True)
            w[r] = signs[r] * aw
        L[2][r] = c[r] * c[r] * c[r] / (L[0][r] * L[1][r] * aw)
    unit = [spec.matmul(q[:, :rank], t) for q, t in zip(Q, R)]
    # any tensor is a core times the basis [columns scaled by c, rest of Q] of every mode
    G = ctx.real('G', shape)
    span = []
    for n in range(3):
        u = ctx.zeros((shape[n], shape[n]))
        sg = np.array([signs[r] if signs and n == 0 else 1 for r in range(rank)])
        u[:, :rank] = unit[n] * c * sg
        u[:, rank:] = Q[n][:, rank:]
        span.append(u)
    X = ctx.zeros(shape)
    X[...] = spec.matmul(kron3(*span), G.reshape(-1, 1)).reshape(shape)
    if ctx.sym:
        Qk = asarr(ctx, kron3(*[q[:, :rank] for q in Q]))
        for m in range(3) if signs else (-1,):
            # the weights may sit in any mode; the sign of a row of the core does not matter below
            sg = [np.array(signs) if n == m else np.array([1] * rank) for n in range(3)]
            K = kron3(*[unit[n] * c * sg[n] for n in range(3)])
            ctx.e.qr_known.append((asarr(ctx, K), Qk, asarr(ctx, kron3(*[R[n] * c * sg[n] for n in range(3)]))))
    U = []
    for n in range(3):
        f = ctx.zeros((shape[n], rank))
        f[...] = unit[n] * L[n]
        U.append(f)
    core = G[:rank, :rank, :rank]
    T = np.zeros((rank,) * 3, dtype=int)
    for r in range(rank):
        T[r, r, r] = 1
    denom = rank
    if norm:
        denom = spec.sumsq(core)
        ctx.assume(denom, '>', 1e-2)
    want = 100 * (1 - spec.sumsq(core - T) / denom)
    if via == 'plain':
        snap = ctx.copy([X] + U)
        got = metrics.core_consistency(X, *U, normalized=norm)
        ctx.unchanged([X] + U, snap, 'arguments untouched')
    elif via == 'kruskal':
        snap = ctx.copy([X] + U + [w])
        d = D.KruskalTensor(U, w)
        got = d.core_consistency(X, normalized=norm)
        ctx.unchanged([X] + list(d.factor_matrices) + [d.weights], snap, 'arguments untouched')
    else:
        # slices whose projections on fixed P_k are the slices of X
        J = [shape[1] + k for k in range(shape[2])]
        P, S = [], []
        for k, j in enumerate(J):
            p = ctx.orthonormal('P%d' % k, j, shape[1]) if shape[1] == 1 else turn(ctx, j, k)
            P.append(p)
            extra = ctx.real('E%d' % k, (shape[0], j))
            # anything outside the span of P_k is lost in the projection
            out = extra - spec.matmul(spec.matmul(extra, p), p.T)
            s = ctx.zeros((shape[0], j))
            s[...] = spec.matmul(X[:, :, k], p.T) + out
            S.append(s)
        snap = ctx.copy(S + P + U)
        got = metrics.core_consistency_parafac2(S, P, *U)
        ctx.unchanged(S + P + U, snap, 'arguments untouched')
    ctx.check(np.asarray(got).size == 1, 'a number')
    ctx.eq(np.asarray(got).reshape(-1)[0] if not ctx.sym else one(got), want, 'core consistency')


def one(x):
    return x.reshape(-1)[0] if isinstance(x, np.ndarray) else x


def asarr(ctx, a):
    b = ctx.zeros(a.shape)
    b[...] = a
    return b


def turn(ctx, j, k):
    p = ctx.zeros((j, 2))
    a = [[num(ctx, 3, 5), num(ctx, -4, 5)], [num(ctx, 4, 5), num(ctx, 3, 5)]] if k % 2 else [[0, 1], [1, 0]]
    for i in range(2):
        for r in range(2):
            p[j - 1 - i, r] = a[i][r]
    return p
