"""C01: a Kruskal decomposition denotes the weighted sum of its components."""
import numpy as np
from . import spec

BOUNDS = 'orders 2-6 (thorough 8), mode lengths 1-5 (one up to 12; thorough 40), ranks 1-6 (thorough 11); all real factors and weights'
LAYOUTS = 'all'


def configs(tier):
    c = []
    shapes = [((2, 3), 2), ((3, 2), 1), ((1, 3), 2), ((3, 2, 2), 2), ((2, 3, 2), 3), ((2, 2, 3), 1), ((2, 1, 3), 2),
              ((2, 3, 2, 2), 2), ((1, 2, 3, 2), 2)]
    shapes += [((4, 3), 4), ((3, 3, 3), 4), ((2, 2, 2), 6), ((2, 2, 2, 2, 2), 2), ((1, 1, 1), 2), ((2, 1, 2, 1, 3), 3), ((5, 4, 3), 2),
               ((2, 2, 1, 2, 1, 2), 2), ((9, 2), 1), ((1, 12, 2), 1), ((4, 4), 5)]
    if tier == 'thorough':
        shapes += [((4, 3, 2), 3), ((2, 3, 4), 3), ((3, 2, 2, 3), 3), ((2,) * 7, 2), ((1, 2, 1, 1, 2, 1, 1, 2), 3), ((6, 5, 4), 4), ((7, 7), 7),
                   ((3, 3, 3, 3), 4), ((25, 2), 2), ((2, 40), 1), ((3, 3), 11)]
    for s, r in shapes:
        for w in ((True, False) if len(s) <= 3 else (True,)):
            c.append(dict(name='construct-%s-r%d-%s' % ('x'.join(map(str, s)), r, 'w' if w else 'now'), sizes=s, rank=r, weights=w))
    # every part in its own unit of measurement (a power of ten), the weights' last
    for s, r, units in [((2, 3), 2, (-12, 0, 0)), ((2, 3), 2, (0, 0, -14)), ((2, 2), 1, (9, 10, -18)), ((2, 3, 2), 2, (-12, 15, -9, 9)), ((3, 2), 2, (-9, -9, 18)),
                        ((2, 2, 2, 2), 1, (-6, -6, 6, -6, -6))]:
        c.append(dict(name='construct-%s-r%d-units%s' % ('x'.join(map(str, s)), r, '_'.join(map(str, units))), sizes=s, rank=r, weights=True, units=units, layout=None))
    return c


def harness(ctx, sizes, rank, weights, units=None):
    D = ctx.tk.decs
    if units:
        return measured(ctx, sizes, rank, units)
    U = [ctx.real('U%d' % n, (s, rank)) for n, s in enumerate(sizes)]
    w = ctx.real('w', (rank,)) if weights else None
    snapU = [u.copy() for u in U]
    snapw = None if w is None else w.copy()
    dec = D.KruskalTensor(U, w) if weights else D.KruskalTensor(U)
    want = spec.kruskal(snapU, snapw)
    T = dec.construct_tensor()
    ctx.eq(T, want, 'tensor')
    ctx.check(tuple(dec.shape) == tuple(sizes), 'shape')
    ctx.check(dec.rank == rank, 'rank')
    total = 0
    for r in range(rank):
        one = dec.get_single_component_decomposition(r)
        t = one.construct_tensor()
        ctx.eq(t, spec.kruskal([u[:, r:r + 1] for u in snapU], None if snapw is None else [snapw[r]]), 'component%d' % r)
        ctx.check(one.rank == 1, 'component rank')
        total = total + np.asarray(t)
    ctx.eq(total, want, 'components add up', observe=False)
    # neither reading nor extracting altered anything
    ctx.unchanged(U, snapU, 'factors untouched')
    ctx.unchanged(list(dec.factor_matrices), snapU, 'stored factors untouched')
    ctx.eq(dec.weights, snapw if weights else [1] * rank, 'weights', observe=False)
    for n in range(len(sizes)):
        ctx.eq(dec[n], snapU[n], 'item access', observe=False)
    ctx.eq(dec.construct_tensor(), want, 'construct again')
    # the decomposition denotes its current factors
    for n, u in enumerate(dec.factor_matrices):
        V = ctx.real('V%d' % n, u.shape)
        u[...] = V
    ctx.eq(dec.construct_tensor(), spec.kruskal(dec.factor_matrices, dec.weights), 'tensor after update')
    dec.reset_weights()
    ctx.eq(dec.weights, [1] * rank, 'reset weights')
    ctx.eq(dec.construct_tensor(), spec.kruskal(dec.factor_matrices), 'tensor after reset')


def measured(ctx, sizes, rank, units):
    D = ctx.tk.decs
    U = [ctx.real('U%d' % n, (s, rank)) for n, s in enumerate(sizes)]
    w = ctx.real('w', (rank,))
    out = spec.ten(-sum(units))
    V = [u * spec.ten(n) for u, n in zip(U, units)]
    dec = D.KruskalTensor(V, w * spec.ten(units[-1]))
    want = spec.kruskal(U, w)
    ctx.eq(np.asarray(dec.construct_tensor()) * out, want, 'tensor')
    for r in range(rank):
        one = dec.get_single_component_decomposition(r)
        ctx.eq(np.asarray(one.construct_tensor()) * out, spec.kruskal([u[:, r:r + 1] for u in U], [w[r]]), 'component%d' % r)
    for n, u in enumerate(U):
        ctx.eq(dec.factor_matrices[n] * spec.ten(-units[n]), u, 'factors untouched')
    ctx.eq(dec.weights * spec.ten(-units[-1]), w, 'weights untouched')
