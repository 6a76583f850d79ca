"""C16: sign resolution."""
import numpy as np
from . import spec

BOUNDS = ('2-4 modes; rank 1 with arbitrary data and factors (mode lengths 1-2), rank 2 with arbitrary 2x2 factors for one mode and '
          'diagonal factors and data for whole tensors; two components of condition up to 10^3 (thorough 10^5) and arbitrary data; evolving: 1-2 slices, ranks 1-2; full column rank factors')
LIMITS = dict(max_paths=1500)


def configs(tier):
    c = []
    for s in [(2, 2), (1, 2, 1), (1, 1, 1, 1)] + ([(2, 1, 2), (2, 2, 1, 1), (3, 2)] if tier == 'thorough' else [(2, 1, 1)]):
        c.append(dict(name='tensor-' + 'x'.join(map(str, s)), what='tensor', shape=s, rank=1))
    for n in (2, 3) + ((4,) if tier == 'thorough' else ()):
        c.append(dict(name='diag-%d' % n, what='diag', shape=(2,) * n, rank=2))
    for s, r in [((2, 2), 1), ((2, 1), 2), ((3, 1), 1), ((1, 3), 1), ((2, 2), 2)]:
        c.append(dict(name='scores-%dx%d-r%d' % (s + (r,)), what='scores', shape=s, rank=r))
    for k in (3,) + ((5,) if tier == 'thorough' else ()):
        c.append(dict(name='collinear-1e%d' % k, what='scores', shape=(2, 1), rank=2, driven=k, layout=None))
    for s, r in [((1,), 1), ((3,), 1), ((2,), 2), ((3,), 2)]:
        c.append(dict(name='sum-%d-r%d' % (s + (r,)), what='sum', shape=s, rank=r))
    for kind in ('evolving', 'parafac2'):
        for driven in (True, False):
            for (I, J, r) in [(1, (2, 1), 1), (1, (2,), 2), (2, (1,), 1)] + ([(2, (2, 3), 1), (1, (2, 2), 2)] if tier == 'thorough' else []):
                if kind == 'parafac2' and not driven:
                    continue
                c.append(dict(name='%s-%d-%s-r%d-%s' % (kind, I, 'x'.join(map(str, J)), r, 'data' if driven else 'sum'),
                              what=kind, shape=(I, J), rank=r, driven=driven))
    for driven in (True, False):
        for s, r in [((2, 2), 1), ((2, 1, 2), 1), ((2, 1, 1), 2)]:
            c.append(dict(name='normal-%s-r%d-%s' % ('x'.join(map(str, s)), r, 'data' if driven else 'sum'), what='normal',
                          shape=s, rank=r, driven=driven))
    return c


def lsq(ctx, F, X):
    """least-squares coefficients of the columns of X on F (full column rank): rank x columns"""
    R = F.shape[1]
    G = spec.gram(F)
    H = spec.matmul(F.T, X)
    out = np.empty(H.shape, dtype=object)
    if R == 1:
        for j in range(H.shape[1]):
            out[0, j] = H[0, j] / G[0, 0]
        return out
    det = G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
    for j in range(H.shape[1]):
        out[0, j] = (G[1, 1] * H[0, j] - G[0, 1] * H[1, j]) / det
        out[1, j] = (G[0, 0] * H[1, j] - G[1, 0] * H[0, j]) / det
    return out


def scores(ctx, F, X):
    out = []
    for row in lsq(ctx, F, X):
        t = 0
        for b in row:
            t = t + (b * b if b > 0 else (-(b * b) if b < 0 else 0))
        out.append(t)
    return out


def is_sign(x):
    return x == 1 or x == -1


ROUNDING = 1e-10    # scores below this may have either sign in floating point


def deviates(ctx, sign, score):
    """is this not the sign of the score?"""
    if not ctx.sym and abs(score) < ROUNDING:
        return False
    return sign * (1 if score >= 0 else -1) == -1


def agree(ctx, sign, score, label):
    """a clear score decides the sign"""
    if not ctx.sym and abs(score) < ROUNDING:
        return
    if score > 0:
        ctx.check(sign == 1, label)
    elif score < 0:
        ctx.check(sign == -1, label)


def harness(ctx, what, shape, rank, driven=None):
    D, utils = ctx.tk.decs, ctx.tk.utils
    if what in ('tensor', 'diag'):
        if what == 'tensor':
            U = [ctx.real('U%d' % n, (s, rank)) for n, s in enumerate(shape)]
            X = ctx.real('X', shape)
            for u in U:
                ctx.fullrank(u)
        else:
            U, X = [], ctx.zeros(shape)
            for n in range(len(shape)):
                d = ctx.real('d%d' % n, (2,))
                u = ctx.zeros((2, 2))
                for i in range(2):
                    ctx.assume(d[i], '!=', 1e-2)
                    u[i, i] = d[i]
                U.append(u)
            x = ctx.real('x', (2,))
            for i in range(2):
                X[(i,) * len(shape)] = x[i]
        w = ctx.real('w', (rank,))
        snap = ctx.copy(U + [X, w])
        kt = D.KruskalTensor(U, w)
        S = kt.get_sign_scores(X)
        signs = kt.get_signs(X)
        ctx.unchanged(U + [X, w], snap, 'inputs untouched')
        ctx.check(len(S) == len(U) and len(signs) == len(U), 'one per mode')
        want = [scores(ctx, u, spec.unfold(X, n)) for n, u in enumerate(U)]
        for n in range(len(U)):
            ctx.check(len(np.asarray(signs[n]).reshape(-1)) == rank, 'one per component')
            for r in range(rank):
                ctx.eq(S[n][r], want[n][r], 'score')
        for r in range(rank):
            p = 1
            for n in range(len(U)):
                s = signs[n][r]
                ctx.check(is_sign(s), 'is a sign')
                p *= s
                if deviates(ctx, s, want[n][r]):
                    for m in range(len(U)):
                        ctx.ge(abs(want[m][r]), abs(want[n][r]), 'the least certain mode gives way')
            ctx.check(p == 1, 'signs multiply to one')
            ctx.check(sum(1 for n in range(len(U)) if deviates(ctx, signs[n][r], want[n][r])) <= 1, 'at most one mode gives way')
        flipped = D.KruskalTensor([u * np.asarray(s)[np.newaxis] for u, s in zip(U, signs)], w)
        ctx.eq(flipped.construct_tensor(), spec.kruskal(snap[:-2], snap[-1]), 'tensor unchanged', observe=False)
    elif what == 'scores':
        X = ctx.real('X', shape)
        if driven is None:
            F = ctx.real('F', (shape[0], rank))
            ctx.fullrank(F)
        else:
            F = spec.collinear(ctx, 2, driven)
        snap = ctx.copy([F, X])
        signs, S = utils.get_signs(F, X)
        want = scores(ctx, F, X)
        ctx.unchanged([F, X], snap, 'inputs untouched')
        for r in range(rank):
            ctx.eq(S[r], want[r], 'score')
            ctx.check(is_sign(signs[r]), 'is a sign')
            agree(ctx, signs[r], want[r], 'sign of the score')
    elif what == 'sum':
        F = ctx.real('F', (shape[0], rank))
        snap = F.copy()
        signs, S = utils.get_signs(F, None)
        ctx.unchanged(F, snap, 'input untouched')
        for r in range(rank):
            t = 0
            for x in snap[:, r]:
                t = t + x
            ctx.check(is_sign(signs[r]), 'is a sign')
            agree(ctx, signs[r], t, 'sign of the sum')
            if t != 0:
                ctx.eq(S[r], t, 'score is the column sum')
    elif what == 'normal':
        X = ctx.real('X', shape)
        F, G = ctx.real('F', (shape[0], rank)), ctx.real('G', (2, rank))
        ctx.fullrank(F)
        snap = ctx.copy([X, F, G])
        f, g = utils.signfix_normal_factors(X, F, G, data_driven=driven)
        ctx.unchanged([X, F, G], snap, 'inputs untouched')
        want = scores(ctx, snap[1], spec.unfold(snap[0], 0)) if driven else [sum(snap[1][:, r]) for r in range(rank)]
        for r in range(rank):
            s = flip_of(ctx, f[:, r], snap[1][:, r])
            ctx.eq(f[:, r], snap[1][:, r] * s, 'fixing factor')
            ctx.eq(g[:, r], snap[2][:, r] * s, 'flipped factor')
            agree(ctx, s, want[r], 'sign of the score')
    else:
        I, J = shape
        K = len(J)
        C = ctx.real('C', (K, rank))
        if what == 'evolving':
            Bs = [ctx.real('B%d' % k, (j, rank)) for k, j in enumerate(J)]
            P = None
        else:
            Bp = ctx.real('Bp', (rank, rank))
            P = [ctx.real('P%d' % k, (j, rank)) for k, j in enumerate(J)]
            Bs = [spec.matmul(p, Bp) for p in P]
        for B in Bs:
            ctx.fullrank(B)
        X = [ctx.real('X%d' % k, (I, j)) for k, j in enumerate(J)]
        A = ctx.real('A', (I, rank))
        if what == 'evolving':
            snap = ctx.copy([C, Bs, X])
            fB, fC = utils.signfix_evolving_factors(X, Bs, C, data_driven=driven)
            ctx.unchanged([C, Bs, X], snap, 'inputs untouched')
            check_slices(ctx, X, A, Bs, C, fB, fC, driven, 'functions: ')
        if driven:
            ev = D.EvolvingTensor(A, Bs, C) if P is None else D.Parafac2Tensor(A, Bp, C, P)
            args = [A, C, X] + ([Bs] if P is None else [Bp, P])
            snap = ctx.copy(args)
            fixed = utils.fix_signs_evolving_tensor(ev, X)
            ctx.unchanged(args, snap, 'tensor and data untouched')
            ctx.check(fixed is not ev, 'a new tensor')
            for k, want in enumerate(spec.slices(A, Bs, C)):
                ctx.eq(fixed.construct_slice(k), want, 'slice of the fixed tensor')
                ctx.eq(ev.construct_slice(k), want, 'slice of the original tensor', observe=False)
            ctx.eq(fixed.A, A, 'first mode factor', observe=False)
            check_slices(ctx, X, A, Bs, C, list(fixed.B), fixed.C, True, 'tensor: ')


def flip_of(ctx, got, want):
    """the sign relating two columns"""
    for g, w in zip(got, want):
        if w != 0:
            return 1 if g == w or (not ctx.sym and abs(g - w) < 1e-9) else -1
    return 1


def check_slices(ctx, X, A, Bs, C, fB, fC, driven, tag):
    R = C.shape[1]
    ctx.check(len(fB) == len(Bs), tag + 'number of slices')
    for k, B in enumerate(Bs):
        want = scores(ctx, B, X[k].T) if driven else [sum(B[:, r]) for r in range(R)]
        for r in range(R):
            s = flip_of(ctx, fB[k][:, r], B[:, r])
            ctx.eq(fB[k][:, r], [x * s for x in B[:, r]], tag + 'evolving factor flipped')
            ctx.eq(fC[k, r], C[k, r] * s, tag + 'weight flipped along')
            agree(ctx, s, want[r], tag + 'sign of the score')
    for k, (a, b) in enumerate(zip(spec.slices(A, Bs, C), spec.slices(A, fB, fC))):
        ctx.eq(b, a, tag + 'slices preserved', observe=False)
