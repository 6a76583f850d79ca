"""C03: unfolding, folding, Kronecker and Khatri-Rao products, MTTKRP, flattening."""
import itertools
import numpy as np
from . import spec

BOUNDS = 'orders 2-6 (7 thorough), mode lengths 1-5 (one mode up to 13; thorough 30), ranks 1-5, 2-6 factors; all real entries'
LAYOUTS = 'all'


def configs(tier):
    c = []
    shapes = [(2, 3), (3, 1), (2, 3, 4), (3, 1, 2), (1, 2, 3), (2, 2, 2), (2, 3, 2, 2), (1, 3, 2, 2), (12, 2, 2), (2, 11, 2), (2, 2, 13)]
    shapes += [(4, 5), (5, 2, 3), (2, 2, 2, 2, 2), (2, 1, 3, 1, 2), (1, 2, 1, 2, 1, 2)]
    if tier == 'thorough':
        shapes += [(3, 4, 5), (3, 2, 4, 3), (2, 2, 2, 2, 2, 2), (2, 1, 2, 1, 2, 1, 3), (6, 7), (30, 2), (2, 17, 3)]
    for s in shapes:
        n = 'x'.join(map(str, s))
        c.append(dict(name='unfold-' + n, what='unfold', shape=s, rank=0))
        for r in ((1, 2, 4) if tier == 'quick' and len(s) < 4 else (1, 2) if tier == 'quick' else (1, 2, 3, 5)):
            c.append(dict(name='mttkrp-%s-r%d' % (n, r), what='mttkrp', shape=s, rank=r))
    for units in ((-12, 0, 0, 0), (0, -13, 0, 0), (0, 0, 0, -12), (9, 8, -9, 8)):
        # every argument in its own unit of measurement
        c.append(dict(name='units%s' % '_'.join(map(str, units)), what='units', shape=units, rank=2, layout=None))
    for s in [((2, 3),), ((2, 2), (3, 2)), ((1, 3), (2, 2)), ((2, 1), (1, 2), (2, 2)), ((2, 2), (2, 1), (1, 2), (2, 2)), ((2, 1), (1, 2), (2, 2), (1, 1), (1, 2)), ((4, 3), (3, 5))]:
        c.append(dict(name='kron-' + '-'.join('%dx%d' % x for x in s), what='kron', shape=s, rank=0))
    for s in [(2, 3), (2, 3, 2), (1, 2, 3), (3, 2, 2), (2, 2, 1, 2), (2, 1, 2, 1, 3), (2, 1, 2, 2, 1, 2), (5, 4), (4, 1, 5)]:
        for r in (1, 2, 3, 5):
            c.append(dict(name='kr-%s-r%d' % ('x'.join(map(str, s)), r), what='kr', shape=s, rank=r))
    for s in [(2,), (2, 3), (3, 1, 2), (2, 4, 1, 3), (1, 2, 3, 2, 1), (11, 2)]:
        for r in (1, 2, 3, 5):
            c.append(dict(name='flat-%s-r%d' % ('x'.join(map(str, s)), r), what='flat', shape=s, rank=r))
    return c


def harness(ctx, what, shape, rank):
    base = ctx.tk.base
    if what == 'units':
        U = [ctx.real('U%d' % i, (2 + i % 2, rank)) for i in range(3)]
        X = ctx.real('X', (2, 3, 2))
        u = [f * spec.ten(n) for f, n in zip(U, shape)]
        x = X * spec.ten(shape[3])
        for m in range(3):
            n = sum(shape) - shape[m]
            ctx.eq(base.matrix_khatri_rao_product(x, u, m) * spec.ten(-n), spec.mttkrp(X, U, m), 'mttkrp%d' % m)
            ctx.eq(base.khatri_rao(*u, skip=m) * spec.ten(shape[3] - n), spec.khatri_rao(U[:m] + U[m + 1:]), 'khatri_rao skip %d' % m)
            ctx.eq(base.unfold(x, m) * spec.ten(-shape[3]), spec.unfold(X, m), 'unfold%d' % m)
            ctx.eq(base.fold(spec.unfold(x, m), m, (2, 3, 2)) * spec.ten(-shape[3]), X, 'fold%d' % m, observe=False)
        ctx.eq(base.khatri_rao(*u) * spec.ten(shape[3] - sum(shape)), spec.khatri_rao(U), 'khatri_rao')
        ctx.eq(base.kron(u[0], u[2]) * spec.ten(-shape[0] - shape[2]), np.kron(U[0], U[2]), 'kron')
        return
    if what == 'unfold':
        X = ctx.real('X', shape)
        sx = X.copy()
        n = len(shape)
        for m in range(n):
            M = base.unfold(X, m)
            ctx.eq(M, spec.unfold(sx, m), 'unfold%d' % m)
            Mc = np.array(M) if not ctx.sym else M.copy()
            sm = Mc.copy()
            for sh in (tuple(shape), list(shape)):
                keep = list(sh)
                ctx.eq(base.fold(Mc, m, sh), sx, 'fold%d' % m, observe=False)
                ctx.check(list(sh) == keep, 'shape argument untouched')
            ctx.unchanged(Mc, sm, 'fold argument untouched')
            # folding an arbitrary matrix puts entry (i, c) where unfolding reads it
            Y = ctx.real('M%d' % m, sm.shape)
            ctx.eq(spec.unfold(np.asarray(base.fold(Y, m, shape)), m), Y, 'unfold of fold%d' % m)
        ctx.unchanged(X, sx, 'tensor untouched')
        # the last mode as -1, and tensors that are not contiguous
        ctx.eq(base.unfold(X, -1), spec.unfold(sx, n - 1), 'unfold-1')
        ctx.eq(base.fold(spec.unfold(sx, n - 1), -1, shape), sx, 'fold-1', observe=False)
        for Z in (X.T, np.moveaxis(X, 0, -1)):
            sz = Z.copy()
            for m in range(n):
                ctx.eq(base.unfold(Z, m), spec.unfold(sz, m), 'unfold of a view %d' % m)
    elif what == 'mttkrp':
        X = ctx.real('X', shape)
        U = [ctx.real('U%d' % i, (s, rank)) for i, s in enumerate(shape)]
        sx, su = X.copy(), [u.copy() for u in U]
        for m in range(len(shape)):
            ctx.eq(base.matrix_khatri_rao_product(X, U, m), spec.mttkrp(sx, su, m), 'mttkrp%d' % m)
        if len(shape) == 3:
            ctx.eq(base.matrix_khatri_rao_product(X, U, -1), spec.mttkrp(sx, su, 2), 'mttkrp-1')
        ctx.unchanged(X, sx, 'tensor untouched')
        ctx.check(len(U) == len(shape), 'factor list untouched')
        ctx.unchanged(U, su, 'factors untouched')
        # a tensor that is not contiguous
        Z = np.moveaxis(ctx.real('Z', (shape[-1],) + tuple(shape[:-1])), 0, -1)
        sz = Z.copy()
        for m in range(len(shape)):
            ctx.eq(base.matrix_khatri_rao_product(Z, U, m), spec.mttkrp(sz, su, m), 'mttkrp of a view %d' % m)
    elif what == 'kron':
        A = [ctx.real('A%d' % i, s) for i, s in enumerate(shape)]
        sa = [a.copy() for a in A]
        rows = list(itertools.product(*[range(s[0]) for s in shape]))
        cols = list(itertools.product(*[range(s[1]) for s in shape]))
        want = np.empty((len(rows), len(cols)), dtype=object)
        for i, ri in enumerate(rows):
            for j, cj in enumerate(cols):
                p = 1
                for a, x, y in zip(sa, ri, cj):
                    p = p * a[x, y]
                want[i, j] = p
        ctx.eq(base.kron(*A), want, 'kron')
        if len(A) == 2:
            ctx.eq(base.kron_binary(*A), want, 'kron_binary')
        ctx.unchanged(A, sa, 'factors untouched')
        u, v = ctx.real('u', (2,)), ctx.real('v', (3,))
        ctx.eq(base.kron_binary_vectors(u, v), [u[i] * v[j] for i in range(2) for j in range(3)], 'kron of vectors')
    elif what == 'kr':
        U = [ctx.real('U%d' % i, (s, rank)) for i, s in enumerate(shape)]
        su = [u.copy() for u in U]
        ctx.eq(base.khatri_rao(*U), spec.khatri_rao(su), 'khatri_rao')
        ctx.eq(base.khatri_rao(*U, skip=None), spec.khatri_rao(su), 'khatri_rao skip None')
        for k in range(len(U)):
            ctx.eq(base.khatri_rao(*U, skip=k), spec.khatri_rao(su[:k] + su[k + 1:]), 'khatri_rao skip %d' % k)
        if len(U) > 1:
            ctx.eq(base.khatri_rao_binary(U[0], U[1]), spec.khatri_rao(su[:2]), 'khatri_rao_binary')
        ctx.unchanged(U, su, 'factors untouched')
    else:
        U = [ctx.real('U%d' % i, (s, rank)) for i, s in enumerate(shape)]
        # a transposed (not C contiguous) one as well
        U[-1] = ctx.real('T', (rank, shape[-1])).T
        su = [u.copy() for u in U]
        f = base.flatten_factors(U)
        ctx.eq(f, [x for u in su for row in u for x in row], 'flatten')
        sf = f.copy()
        back = base.unflatten_factors(f, rank, shape)
        ctx.check(len(back) == len(U), 'number of factors')
        for b, u in zip(back, su):
            ctx.eq(b, u, 'unflatten', observe=False)
        ctx.unchanged(f, sf, 'vector untouched')
        ctx.unchanged(U, su, 'factors untouched')
