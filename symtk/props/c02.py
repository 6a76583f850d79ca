"""C02: evolving and PARAFAC2 decompositions denote X_k = A diag(c_k) B_k^T."""
import numpy as np
from . import spec

BOUNDS = 'slices 1-11 of widths 1-4, 1-5 rows, ranks 1-5 (thorough: 14 slices, widths up to 9, 7 rows, rank 6); all real factors (projection matrices need not be orthonormal)'
LAYOUTS = 'all'


def configs(tier):
    c = []
    cases = [(2, (2, 2), 2), (3, (2, 3), 1), (2, (3, 1, 2), 2), (1, (2, 3), 2), (2, (2,), 2), (3, (3, 3), 3), (2, (1, 3), 2), (2, (3, 2), 2),
             (2, (2, 3, 2), 1), (4, (3, 4, 2, 3), 2), (3, (2, 2, 2), 4), (2, (1,) * 6, 1), (1, (2, 2, 2, 3, 2, 2), 1), (2, (1,) * 11, 1), (5, (2, 2), 5)]
    if tier == 'thorough':
        cases += [(3, (5, 6, 5), 4), (6, (3, 3, 3), 6), (3, (4, 1), 3), (2, (2, 1) * 7, 2), (2, (3,) * 12, 2), (1, (8, 9), 1), (7, (1, 2), 2), (2, (5, 3, 4), 2), (2, (2, 4, 2, 3, 1), 1)]
    for I, J, r in cases:
        n = '%d-%s-r%d' % (I, 'x'.join(map(str, J)), r)
        for kind in ('evolving', 'parafac2'):
            c.append(dict(name='%s-%s' % (kind, n), kind=kind, I=I, J=J, rank=r))
        if len(set(J)) == 1:
            c.append(dict(name='array-%s' % n, kind='array', I=I, J=J, rank=r))
            c.append(dict(name='kruskal-%s' % n, kind='kruskal', I=I, J=J, rank=r))
    # every part in its own unit of measurement (a power of ten): first factor, evolving factor (blueprint and projections), last factor
    for kind in ('evolving', 'parafac2', 'kruskal'):
        for J in ((2, 2), (2, 3)):
            for units in ((-12, 0, 0, 0), (0, -14, 0, 0), (0, 0, -14, 0), (0, 0, 0, -12), (9, 10, 6, -15)):
                if kind == 'kruskal' and len(set(J)) > 1:
                    continue
                c.append(dict(name='%s-%s-units%s' % (kind, 'x'.join(map(str, J)), '_'.join(map(str, units))), kind=kind, I=2, J=J, rank=2, units=units, layout=None))
    c.append(dict(name='random-regular', kind='random', I=2, J=(3, 3), rank=2))
    c.append(dict(name='random-irregular', kind='random', I=2, J=(2, 3), rank=1))
    c.append(dict(name='kruskal-orders', kind='orders', I=2, J=(2, 2), rank=2))
    return c


def padded(slices, J):
    w = max(J)
    out = np.empty((slices[0].shape[0], w, len(slices)), dtype=object)
    out[...] = 0
    for k, s in enumerate(slices):
        for i in range(s.shape[0]):
            for j in range(s.shape[1]):
                out[i, j, k] = s[i, j]
    return out


def denotes(ctx, dec, A, Bs, C, J, tag=''):
    """every view of `dec` agrees with the definition"""
    want = spec.slices(A, Bs, C)
    for k in range(len(J)):
        ctx.eq(dec.construct_slice(k), want[k], tag + 'slice%d' % k)
    got = dec.construct_slices()
    ctx.check(len(got) == len(J), tag + 'number of slices')
    for k, s in enumerate(got):
        ctx.eq(s, want[k], tag + 'slices%d' % k, observe=False)
    ctx.check([tuple(int(x) for x in s) for s in dec.slice_shapes] == [(len(A), j) for j in J], tag + 'slice shapes')
    ctx.check([int(x) for x in dec.shape] == [len(A), max(J), len(J)], tag + 'shape')
    ctx.check(bool(dec.all_same_size) == (len(set(J)) == 1), tag + 'all_same_size')
    ctx.check(dec.rank == A.shape[1], tag + 'rank')
    ctx.eq(dec.B_unfolded, np.concatenate([np.asarray(b) for b in Bs], axis=0), tag + 'stacked evolving factor', observe=False)
    if len(set(J)) > 1 and dec.warning:
        ctx.raises(Warning, dec.construct_tensor, tag + 'irregular tensors are refused')
    else:
        ctx.eq(dec.construct_tensor(), padded(want, J), tag + 'tensor')
    return want


def harness(ctx, kind, I, J, rank, units=None):
    D = ctx.tk.decs
    K = len(J)
    if units:
        return measured(ctx, kind, I, J, rank, units)
    if kind == 'orders':
        for n in (2, 4):
            U = [ctx.real('U%d%d' % (n, m), (2, 2)) for m in range(n)]
            ctx.raises(ValueError, lambda: D.EvolvingTensor.from_kruskaltensor(D.KruskalTensor(U)), 'order %d' % n)
        return
    if kind == 'random':
        irregular = len(set(J)) > 1
        sizes = [I, list(J) if irregular else J[0], K]
        keep = [I, list(J) if irregular else J[0], K]
        dec = D.Parafac2Tensor.random_init(sizes, rank)
        ctx.check(sizes == keep, 'sizes untouched')
        A, C = dec.A.copy(), dec.C.copy()
        Bs = [spec.matmul(p, dec.blueprint_B) for p in dec.projection_matrices]
        denotes(ctx, dec, A, Bs, C, J)
        return
    A, C = ctx.real('A', (I, rank)), ctx.real('C', (K, rank))
    if kind == 'kruskal':
        B, w = ctx.real('B', (J[0], rank)), ctx.real('w', (rank,))
        kt = D.KruskalTensor([A, B, C], w)
        snap = ctx.copy([A, B, C, w])
        ev = D.EvolvingTensor.from_kruskaltensor(kt)
        ctx.eq(ev.construct_tensor(), spec.kruskal([A, B, C], w), 'same tensor')
        ctx.eq(ev.construct_tensor(), kt.construct_tensor(), 'same as the Kruskal tensor', observe=False)
        ctx.check([int(x) for x in ev.shape] == [I, J[0], K], 'shape')
        ctx.check(len(ev.B) == K, 'one evolving factor per slice')
        ctx.unchanged([A, B, C, w], snap, 'factors untouched')
        return
    if kind == 'array':
        Bs = ctx.real('B', (K, J[0], rank))
    elif kind == 'evolving':
        Bs = [ctx.real('B%d' % k, (j, rank)) for k, j in enumerate(J)]
    else:
        Bp = ctx.real('Bp', (rank, rank))
        P = [ctx.real('P%d' % k, (j, rank)) for k, j in enumerate(J)]
        Bs = [spec.matmul(p, Bp) for p in P]
    for warning in (True, False):
        if kind == 'parafac2':
            args = [A, Bp, C, P]
            snap = ctx.copy(args)
            dec = D.Parafac2Tensor(*args, warning=warning)
        else:
            args = [A, Bs, C]
            snap = ctx.copy(args)
            dec = D.EvolvingTensor(*args, warning=warning)
        want = denotes(ctx, dec, A, Bs, C, J, 'w' if warning else 'n')
        ctx.unchanged(args, snap, 'factors untouched')
    for k in range(K):
        ctx.eq(dec.B[k], Bs[k], 'evolving factor%d' % k, observe=False)
    ctx.check(len(dec.B) == K, 'number of evolving factors')
    ctx.eq(dec[0], A, 'item 0', observe=False)
    ctx.eq(dec[2], C, 'item 2', observe=False)
    ctx.check(len(dec.factor_matrices) == 3, 'factor_matrices')
    for a, b in zip(dec.factor_matrices[::2], (A, C)):
        ctx.eq(a, b, 'factor_matrices', observe=False)
    if kind == 'parafac2':
        bl = dec.B.as_list()
        ctx.check(len(bl) == K, 'as_list')
        for b, w in zip(bl, Bs):
            ctx.eq(b, w, 'as_list', observe=False)
        ctx.eq(dec.B[K - 1, :, rank - 1], Bs[K - 1][:, rank - 1], 'indexing an evolving factor', observe=False)
        total = [0] * K
        for r in range(rank):
            one = dec.get_single_component_decomposition(r)
            got = one.construct_slices()
            w1 = spec.slices(A[:, r:r + 1], [np.asarray(b)[:, r:r + 1] for b in Bs], C[:, r:r + 1])
            for k in range(K):
                ctx.eq(got[k], w1[k], 'component%d' % r)
                total[k] = total[k] + np.asarray(got[k])
        for k in range(K):
            ctx.eq(total[k], want[k], 'components add up', observe=False)
        # later changes of the components are visible in every view
        B2, P2 = ctx.real('Bp2', Bp.shape), [ctx.real('Q%d' % k, p.shape) for k, p in enumerate(P)]
        dec.blueprint_B[...] = B2
        for k in range(K):
            dec.projection_matrices[k][...] = P2[k]
        Bs = [spec.matmul(p, B2) for p in P2]
    else:
        dec = D.EvolvingTensor.from_factor_matrices([A, Bs, C])
        if len(set(J)) == 1:
            denotes(ctx, dec, A, Bs, C, J, 'f')
        if ctx.layout in ('M', 'N'):
            return   # an integer array given as a factor stays one: numpy would truncate what is assigned below
        B2 = [ctx.real('N%d' % k, (j, rank)) for k, j in enumerate(J)]
        for k in range(K):
            dec.B[k][...] = B2[k]
        Bs = B2
    A2, C2 = ctx.real('A2', A.shape), ctx.real('C2', C.shape)
    dec.A[...] = A2
    dec.C[...] = C2
    denotes(ctx, dec, A2, Bs, C2, J, 'after update: ')


def measured(ctx, kind, I, J, rank, units):
    D = ctx.tk.decs
    out = spec.ten(-sum(units))
    a, b, c, p = [spec.ten(n) for n in units]
    A, C = ctx.real('A', (I, rank)), ctx.real('C', (len(J), rank))
    if kind == 'kruskal':
        # the last unit is that of the weights
        B, w = ctx.real('B', (J[0], rank)), ctx.real('w', (rank,))
        dec = D.EvolvingTensor.from_kruskaltensor(D.KruskalTensor([A * a, B * b, C * c], w * p))
        ctx.eq(np.asarray(dec.construct_tensor()) * out, spec.kruskal([A, B, C], w), 'same tensor')
        return
    if kind == 'evolving':
        Bs = [ctx.real('B%d' % k, (j, rank)) for k, j in enumerate(J)]
        dec = D.EvolvingTensor(A * a, [x * spec.ten(units[1] + units[3]) for x in Bs], C * c, warning=False)
    else:
        B, P = ctx.real('B', (rank, rank)), [ctx.real('P%d' % k, (j, rank)) for k, j in enumerate(J)]
        Bs = [spec.matmul(q, B) for q in P]
        dec = D.Parafac2Tensor(A * a, B * b, C * c, [q * p for q in P], warning=False)
    want = spec.slices(A, Bs, C)
    for k, (s, t) in enumerate(zip(dec.construct_slices(), want)):
        ctx.eq(np.asarray(s) * out, t, 'slices%d' % k)
        ctx.eq(np.asarray(dec.construct_slice(k)) * out, t, 'slice%d' % k, observe=False)
        ctx.eq(np.asarray(dec.B[k]) * spec.ten(-units[1] - units[3]), Bs[k], 'evolving factor%d' % k, observe=False)
    ctx.eq(np.asarray(dec.construct_tensor()) * out, padded(want, J), 'tensor')
    if kind == 'parafac2':
        for r in range(rank):
            one = dec.get_single_component_decomposition(r)
            for s, t in zip(one.construct_slices(), spec.slices(A[:, r:r + 1], [np.asarray(x)[:, r:r + 1] for x in Bs], C[:, r:r + 1])):
                ctx.eq(np.asarray(s) * out, t, 'component%d' % r, observe=False)
