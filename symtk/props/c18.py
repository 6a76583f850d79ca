"""C18: leverage, degeneracy, explained fraction, completion score, weight score, principal components."""
import numpy as np
from . import spec

BOUNDS = ('leverage: factors up to 4x2 and 3x3 (5x2, 4x3 thorough), full column rank, nearly collinear ones up to a condition of 10^3; degeneracy: 1-3 modes up to length 3, ranks 1-3, '
          'nonzero columns; scores: arrays with up to 8 entries, every missing pattern of 4 entries, partial weights; loadings: matrices up to 3x2')
LAYOUTS = 'all'


def configs(tier):
    c = []
    big = tier == 'thorough'
    for s in [(1, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3)] + ([(5, 1), (5, 2), (4, 3)] if big else []):
        c.append(dict(name='leverage-%dx%d' % s, what='leverage', shape=s, rank=s[1]))
    for s in [(2, 2), (3, 2)] + ([(4, 2), (3, 3)] if big else []):
        c.append(dict(name='leverage-unit-%dx%d' % s, what='leverage', shape=s, rank=s[1], unit=True))
    c.append(dict(name='leverage-collinear', what='leverage', shape=(3, 2), rank=2, unit='collinear', layout=None))
    for s, r in [((2,), 2), ((2, 3), 2), ((2, 1, 3), 2), ((2, 2), 1), ((3, 2), 3)] + ([((3, 3, 3), 3), ((2, 2, 2, 2), 2), ((3,), 2)] if big else []):
        c.append(dict(name='degeneracy-%s-r%d' % ('x'.join(map(str, s)), r), what='degeneracy', shape=s, rank=r))
    for I, J, r in [(2, (2, 2), 2), (2, (1, 2), 2), (1, (3,), 1)] + ([(3, (2, 3, 2), 2), (2, (2, 1), 3)] if big else []):
        for kind in ('evolving', 'parafac2'):
            c.append(dict(name='degeneracy-%s-%d-%s-r%d' % (kind, I, 'x'.join(map(str, J)), r), what=kind, shape=(I, J), rank=r))
    for s in [(3,), (2, 2), (2, 2, 2)]:
        c.append(dict(name='explained-' + 'x'.join(map(str, s)), what='explained', shape=s, rank=0))
    for s in [(2,), (2, 2), (1, 3)]:
        c.append(dict(name='completion-' + 'x'.join(map(str, s)), what='completion', shape=s, rank=0))
        c.append(dict(name='partial-' + 'x'.join(map(str, s)), what='partial', shape=s, rank=0))
    c.append(dict(name='weights', what='weights', shape=(2,), rank=0))
    for s in [(1, 2), (2, 1), (2, 2), (3, 2), (2, 3)] + ([(4, 2), (3, 3)] if big else []):
        c.append(dict(name='pca-%dx%d' % s, what='pca', shape=s, rank=min(s)))
    return c


def harness(ctx, what, shape, rank, unit=False):
    M, D, utils = ctx.tk.metrics, ctx.tk.decs, ctx.tk.utils
    if what == 'leverage':
        if unit == 'collinear':
            F = spec.collinear(ctx, shape[0], 3)
        elif unit:
            # unit length columns
            F = ctx.zeros(shape)
            for r in range(rank):
                F[:, r] = ctx.orthonormal('F%d' % r, shape[0], 1)[:, 0]
        else:
            F = ctx.real('F', shape)
        if unit != 'collinear':
            ctx.fullrank(F)
        snap = F.copy()
        h = M.leverage(F)
        ctx.check(len(h) == shape[0], 'one score per row')
        G = spec.gram(snap)
        adj, d = spec.adjugate(G), spec.det(G)
        tot = 0
        for i in range(shape[0]):
            t = 0
            for r in range(rank):
                for s in range(rank):
                    t = t + snap[i, r] * adj[r, s] * snap[i, s]
            ctx.eq(h[i], t / d, 'leverage')
            tot = tot + h[i]
            if rank == 1 or shape == (2, 2):
                ctx.ge(h[i], 0, 'nonnegative')
                ctx.ge(1, h[i], 'at most one')
        ctx.eq(tot, rank, 'scores sum to the rank')
        ctx.unchanged(F, snap, 'factor untouched')
    elif what == 'degeneracy':
        U = [ctx.real('U%d' % n, (s, rank)) for n, s in enumerate(shape)]
        for u in U:
            for r in range(rank):
                ctx.assume(spec.sumsq(u[:, r]), '>', 1e-3)
        w = ctx.real('w', (rank,))
        snap = ctx.copy(U)
        d = D.KruskalTensor(U, w).degeneracy()
        degenerate(ctx, d, snap, rank, len(shape) == 1)
        ctx.unchanged(U, snap, 'factors untouched')
    elif what in ('evolving', 'parafac2'):
        I, J = shape
        A, C = ctx.real('A', (I, rank)), ctx.real('C', (len(J), rank))
        if what == 'evolving':
            Bs = [ctx.real('B%d' % k, (j, rank)) for k, j in enumerate(J)]
            args = [A, Bs, C]
            dec = D.EvolvingTensor(A, Bs, C)
        else:
            Bp = ctx.real('Bp', (rank, rank))
            P = [ctx.real('P%d' % k, (j, rank)) for k, j in enumerate(J)]
            Bs = [spec.matmul(p, Bp) for p in P]
            args = [A, Bp, C, P]
            dec = D.Parafac2Tensor(A, Bp, C, P)
        B = np.concatenate([np.asarray(b) for b in Bs], axis=0)
        for u in (A, B, C):
            for r in range(rank):
                ctx.assume(spec.sumsq(u[:, r]), '>', 1e-3)
        snap = ctx.copy(args)
        degenerate(ctx, dec.degeneracy(), [A, B, C], rank, False)
        ctx.unchanged(args, snap, 'factors untouched')
    elif what == 'explained':
        X, Y = ctx.real('X', shape), ctx.real('Y', shape)
        ctx.assume(spec.sumsq(X), '>', 1e-3)
        snap = ctx.copy([X, Y])
        got = M.percent_explained(X, Y)
        ctx.eq(got, 1 - spec.sumsq(snap[0] - snap[1]) / spec.sumsq(snap[0]), 'explained fraction')
        ctx.unchanged([X, Y], snap, 'arguments untouched')
    elif what == 'completion':
        n = int(np.prod(shape))
        X, Y = ctx.real('X', shape), ctx.real('Y', shape)
        m = int(ctx.int('mask', 0, 2 ** n - 2))
        W = np.array([m >> i & 1 for i in range(n)], dtype=float).reshape(shape)
        miss = [i for i in range(n) if not m >> i & 1]
        num, den = 0, 0
        x, y = X.reshape(-1), Y.reshape(-1)
        for i in miss:
            num = num + (x[i] - y[i]) * (x[i] - y[i])
            den = den + x[i] * x[i]
        ctx.assume(den, '>', 1e-3)
        snap = ctx.copy([X, Y, W])
        got = M.tensor_completion_score(X, Y, W)
        ctx.eq(got, ctx.sqrt(num) / ctx.sqrt(den), 'completion score')
        ctx.ge(got, 0, 'nonnegative')
        ctx.unchanged([X, Y, W], snap, 'arguments untouched')
    elif what == 'partial':
        X, Y, W = ctx.real('X', shape), ctx.real('Y', shape), ctx.real('W', shape, unit=True)
        num, den = 0, 0
        for i in np.ndindex(*shape):
            num = num + (1 - W[i]) * (1 - W[i]) * (X[i] - Y[i]) * (X[i] - Y[i])
            den = den + (1 - W[i]) * (1 - W[i]) * X[i] * X[i]
        ctx.assume(den, '>', 1e-3)
        snap = ctx.copy([X, Y, W])
        ctx.eq(M.tensor_completion_score(X, Y, W), ctx.sqrt(num) / ctx.sqrt(den), 'completion score')
        ctx.unchanged([X, Y, W], snap, 'arguments untouched')
    elif what == 'weights':
        a, b = ctx.real('a', pos=True), ctx.real('b', pos=True)
        got = M.weight_score(a, b)
        d = a - b if a > b else b - a
        big = a if a > b else b
        ctx.eq(got, d / big, 'relative difference')
        ctx.eq(M.weight_score(b, a), got, 'symmetric')
        ctx.ge(got, 0, 'nonnegative')
        ctx.ge(1, got, 'at most one')
    else:
        Y = ctx.real('Y', shape)
        ctx.fullrank(Y if shape[0] >= shape[1] else Y.T)
        snap = Y.copy()
        L = M_full = utils.get_pca_loadings(Y, rank)
        ctx.check(L.shape == (shape[1], rank), 'one column per component')
        G = spec.named_gram(ctx, snap)
        LL = spec.matmul(L, L.T)
        ctx.eq(LL, G, 'loadings reproduce the cross product', observe=False)
        S = spec.matmul(L.T, L)
        for r in range(rank):
            for s in range(r):
                ctx.eq(S[r, s], 0, 'orthogonal loadings', observe=False)
            if r:
                ctx.ge(S[r - 1, r - 1], S[r, r], 'decreasing')
        for k in range(1, rank):
            ctx.eq(utils.get_pca_loadings(Y, k), M_full[:, :k], 'leading components first', observe=False)
        ctx.unchanged(Y, snap, 'matrix untouched')


def degenerate(ctx, d, factors, rank, bound):
    want = 1
    for f in factors:
        want = want * spec.congruence(ctx, f, f)
    ctx.check(np.asarray(d).shape == (rank, rank), 'square')
    ctx.eq(d, want, 'products of cosines')
    for r in range(rank):
        ctx.eq(d[r, r], 1, 'unit diagonal', observe=False)
        for s in range(r):
            ctx.eq(d[r, s], d[s, r], 'symmetric', observe=False)
            if bound:
                ctx.ge(1, d[r, s] * d[r, s], 'within [-1, 1]')
