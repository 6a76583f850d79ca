"""C04: linear solvers: least squares (any rank), ridge, non-negative, orthogonal."""
import numpy as np
from . import spec

BOUNDS = ('A with 1-3 rows and 1-3 columns (thorough up to 3x4), every rank; B with 1-2 rows; every active set of the non-negative '
          'solver; singular values either zero or at least 1e-6 of the largest')
ASSUMPTIONS = ['orthogonal solvers: cross product of full rank; non-negative solver: A of full row rank or penalised']
LIMITS = dict(max_paths=400, time=30)


def configs(tier):
    c = []
    big = tier == 'thorough'
    for r, n in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1)] + ([(3, 3), (2, 4), (4, 2)] if big else []):
        for p in (1, 2):
            if p == 2 and (r, n) not in [(2, 2), (1, 2), (2, 1)] and not big:
                continue
            for rk in range(min(r, n) + 1):
                c.append(dict(name='ls-%dx%d-p%d-rank%d' % (r, n, p, rk), what='ls', r=r, n=n, p=p, rk=rk))
    for r, n in [(2, 2), (2, 3)]:
        c.append(dict(name='free-%dx%d' % (r, n), what='free', r=r, n=n, p=1, rk=0))
    for r, n in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)] + ([(3, 1), (3, 2), (3, 3), (2, 4)] if big else []):
        for p in (1, 2):
            c.append(dict(name='ridge-%dx%d-p%d' % (r, n, p), what='ridge', r=r, n=n, p=p, rk=1))
    c.append(dict(name='ridge0-2x3', what='ridge', r=2, n=3, p=1, rk=0))
    for r, n in [(1, 1), (1, 2), (2, 2), (2, 3)] + ([(3, 3), (3, 4)] if big else []):
        for p in (0, 1, 2):
            if r == 3 and p == 2:
                continue
            c.append(dict(name='nonneg-%dx%d-p%d' % (r, n, p), what='nonneg', r=r, n=n, p=p, rk=0))
    for r, n in [(1, 1), (2, 1), (2, 2)] + ([(2, 3), (3, 2)] if big else []):
        for p in (1, 2):
            if r == 3 and p == 2:
                continue
            c.append(dict(name='ridgenonneg-%dx%d-p%d' % (r, n, p), what='ridgenonneg', r=r, n=n, p=p, rk=0))
    for r, n, p in [(1, 1, 1), (1, 2, 2), (1, 2, 3), (2, 2, 2), (2, 3, 2), (2, 3, 3), (3, 3, 2), (2, 2, 1)] + (
            [(2, 4, 4), (2, 5, 3), (3, 3, 3)] if big else []):
        for k in ('orthright', 'orth', 'ridgeorth'):
            c.append(dict(name='%s-%d-%d-p%d' % (k, r, n, p), what=k, r=r, n=n, p=p, rk=0))
    for mag in (-13, 9) + ((-40, 30) if big else ()):
        pick = ['ls-2x2-p1-rank0', 'ls-2x2-p1-rank1', 'ls-2x2-p1-rank2', 'ls-1x2-p1-rank1', 'ls-2x3-p1-rank2', 'ridge-1x2-p1', 'ridge-2x2-p1', 'ridge0-2x3',
                'nonneg-1x2-p1', 'nonneg-2x2-p1', 'ridgenonneg-2x1-p1', 'ridgenonneg-1x1-p1', 'orth-1-2-p2', 'orthright-2-2-p2', 'ridgeorth-1-2-p2', 'orthright-2-3-p2']
        c += [dict(x, name='%s-unit1e%d' % (x['name'], mag), mag=mag) for x in c if x['name'] in pick]
    return c


def psd(ctx, M, label):
    """symmetric positive semidefinite: symmetric, and elementary symmetric functions of the spectrum nonnegative"""
    n = len(M)
    for i in range(n):
        for j in range(i):
            ctx.eq(M[i, j], M[j, i], label + ': symmetric')
    import itertools
    for k in range(1, n + 1):
        t = 0
        for idx in itertools.combinations(range(n), k):
            t = t + spec.det(M[np.ix_(idx, idx)])
        ctx.ge(t, 0, label + ': order %d' % k)


def lsq(ctx, X, A, B, lam, label):
    """(X A - B) A^T + lam X = 0"""
    R = spec.matmul(X, A) - B
    G = spec.matmul(R, A.T)
    for i in range(G.shape[0]):
        for j in range(G.shape[1]):
            ctx.eq(G[i, j] + lam * X[i, j], 0, label)


def harness(ctx, what, r, n, p, rk, mag=0):
    base = ctx.tk.base
    # the same problem in another unit of measurement: A, B scaled by u, a ridge penalty by u^2; X does not change
    u = 10.0**mag if mag else 1
    v = 10.0**-mag if mag else 1
    if what == 'ls':
        k = min(r, n)
        U, V = ctx.orthonormal('U', r, k), ctx.orthonormal('V', n, k)
        s = []
        for i in range(rk - 1, -1, -1):
            t = ctx.real('s%d' % i, (), pos=True)
            if s:
                ctx.assume(t - s[0], '>=')
                ctx.assume(s[0] - t * 1e-6, '>=') if not ctx.sym else ctx.assume(s[0] * 10**6 - t, '>=')
            s.insert(0, t)
        S = ctx.zeros(k)
        for i in range(rk):
            S[i] = s[i] * u
        A = ctx.zeros((r, n))
        A[:, :] = spec.matmul(U * S, V.T) if rk else A
        ctx.svd_known(A, U, S, V.T)
        if not ctx.sym:
            ctx.assume_that(np.linalg.matrix_rank(A) == rk)
        B = ctx.real('B', (p, n)) * u
        snap = ctx.copy([A, B])
        X = base.rightsolve(A, B)
        ctx.check(X.shape == (p, r), 'shape')
        lsq(ctx, X, snap[0] * v, B * v, 0, 'least squares')
        if rk < r:
            # in the column space of A
            W = spec.matmul(X, spec.matmul(U[:, :rk], U[:, :rk].T)) if rk else ctx.zeros((p, r))
            ctx.eq(X, W, 'minimum norm')
        ctx.unchanged([A, B], snap, 'arguments untouched')
        return
    if what == 'free':
        A, B = ctx.real('A', (r, n)), ctx.real('B', (p, n))
        ctx.fullrank(A.T)
        snap = ctx.copy([A, B])
        A0, X = A, base.rightsolve(A, B)
        G = ctx.named(spec.matmul(A, A.T))
        N = ctx.named(A)
        if ctx.sym and any(x is not y and x.n != y.n for x, y in zip(N.reshape(-1), A.reshape(-1))):
            G, A = spec.matmul(N, N.T), N
        ctx.eq(spec.matmul(X, G), spec.matmul(B, A.T), 'least squares', observe=False)
        ctx.unchanged([A0, B], snap, 'arguments untouched')
        return
    if what in ('ridge', 'nonneg', 'ridgenonneg'):
        A = ctx.real('A', (r, n)) * u
        B = ctx.real('B', (p, n) if p else (n,)) * u
        lam = 0
        solve = base.rightsolve if what == 'ridge' else base.non_negative_rightsolve
        if 'ridge' in what:
            if what == 'ridge' and not rk:
                solve = base.add_rightsolve_ridge(solve, 0)
            else:
                lam = ctx.real('lam', (), pos=True) * (u * u)
                solve = base.add_rightsolve_ridge(solve, lam)
        if not ctx.sym and what != 'ridgenonneg' and not (what == 'ridge' and rk):
            ctx.fullrank(A.T)
        elif what == 'nonneg':
            ctx.fullrank(A.T)
        snap = ctx.copy([A, B])
        X = solve(A, B)
        q = max(p, 1)
        ctx.check(X.shape == (q, r), 'shape')
        B2 = B.reshape(q, n)
        G = spec.matmul(A, A.T)
        for i in range(r):
            G[i, i] = G[i, i] + lam
        AT = A.T
        if what == 'ridge':
            N = ctx.named(A)
            if ctx.sym and any(x is not y and x.n != y.n for x, y in zip(N.reshape(-1), A.reshape(-1))):
                G, AT = spec.matmul(N, N.T) + lam * np.eye(r, dtype=int), N.T
            else:
                G = ctx.named(G)
        grad = spec.matmul(X, G) - spec.matmul(B2, AT)
        if what == 'ridge':
            ctx.eq(grad * (v * v), 0 * grad, 'stationary point')
        else:
            for i in range(q):
                for j in range(r):
                    ctx.ge(X[i, j], 0, 'nonnegative')
                    ctx.eq(X[i, j] * grad[i, j] * (v * v), 0, 'complementary')
                    ctx.ge(grad[i, j] * (v * v), 0, 'no descent direction')
        ctx.unchanged([A, B], snap, 'arguments untouched')
        return
    # orthogonal: A r x n, B p x n, X p x r
    A, B = ctx.real('A', (r, n)) * u, ctx.real('B', (p, n)) * u
    C = spec.matmul(B, A.T)
    ctx.fullrank(C if p >= r else C.T)
    snap = ctx.copy([A, B])
    if what == 'orth':
        X = base.orthogonal_solve(A.T.copy(), B.T.copy()).T
    elif what == 'orthright':
        X = base.orthogonal_rightsolve(A, B)
    else:
        lam = ctx.real('lam', (), pos=True) * (u * u)
        X = base.add_rightsolve_ridge(base.orthogonal_rightsolve, lam)(A, B)
    ctx.check(X.shape == (p, r), 'shape')
    N = ctx.named(C) * (v * v)
    if p >= r:
        ctx.eq(spec.matmul(X.T, X), spec.identity(r), 'orthonormal')
        psd(ctx, spec.matmul(X.T, N), 'closest')
    else:
        ctx.eq(spec.matmul(X, X.T), spec.identity(p), 'orthonormal rows')
        psd(ctx, spec.matmul(N, X.T), 'closest')
    ctx.unchanged([A, B], snap, 'arguments untouched')
