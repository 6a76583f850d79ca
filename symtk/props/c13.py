"""C13: a decomposition survives being stored and loaded."""
import numpy as np
from . import spec

BOUNDS = ('Kruskal: 2-12 modes (thorough 30) of length 1-3 (14), ranks 1-6 (11); evolving/PARAFAC2: 1-13, 101 and 1002 slices (thorough 1005) of widths 1-5 (10); '
          'files, groups and subgroups; every entry an arbitrary real')

KINDS = ('KruskalTensor', 'EvolvingTensor', 'Parafac2Tensor')
LAYOUTS = 'all'


def configs(tier):
    c = []
    ks = [((2, 3), 2), ((2, 1, 3), 2), ((1, 2, 2, 2), 1), ((3, 2, 2), 3), ((2, 1, 1, 2, 2), 2)]
    es = [(2, (2, 3), 2), (1, (2, 2, 2), 2), (3, (1,), 1), (2, (3, 1, 2, 2), 2), (2, (2, 2), 3), (1, (1,) * 12, 1)]
    ks += [((3, 3), 4), ((1,) * 12, 1), ((2, 2), 6)]
    es += [(4, (4, 5, 3), 4), (1, (1, 2) * 6 + (3,), 1)]
    es.append((1, (2,) * 101, 1))
    if tier == 'thorough':
        es.append((1, (1,) * 1005, 1))
        ks += [((3, 3, 3, 3), 4), ((2,) * 7, 2), ((1,) * 30, 2), ((12, 13, 14), 11)]
        es += [(1, (1, 2) * 13, 1), (8, (9, 10), 7)]
    for s, r in ks:
        for where in ('file', 'group'):
            c.append(dict(name='kruskal-%s-r%d-%s' % ('x'.join(map(str, s)), r, where), kind='KruskalTensor', I=0, J=s, rank=r, where=where))
    for I, J, r in es:
        for kind in KINDS[1:]:
            for where in ('file', 'group'):
                c.append(dict(name='%s-%d-%s-r%d-%s' % (kind, I, 'x'.join(map(str, J[:14])) + ('..%d' % len(J) if len(J) > 14 else ''), r, where),
                              kind=kind, I=I, J=J, rank=r, where=where))
    if tier != 'thorough':
        c += [dict(name='%s-1002' % kind, kind=kind, I=1, J=(1,) * 1002, rank=1, where='group', layout=None) for kind in KINDS[1:]]
    c.append(dict(name='array-B', kind='array', I=2, J=(2, 2, 2), rank=2, where='file'))
    c.append(dict(name='mixed', kind='mixed', I=2, J=(2, 2), rank=2, where='group'))
    return c


def build(ctx, kind, I, J, rank, tag='', warning=True):
    D = ctx.tk.decs
    if kind == 'KruskalTensor':
        U = [ctx.real('%sU%d' % (tag, n), (s, rank)) for n, s in enumerate(J)]
        w = ctx.real(tag + 'w', (rank,))
        return D.KruskalTensor(U, w), U + [w]
    A, C = ctx.real(tag + 'A', (I, rank)), ctx.real(tag + 'C', (len(J), rank))
    if kind == 'EvolvingTensor':
        B = [ctx.real('%sB%d' % (tag, k), (j, rank)) for k, j in enumerate(J)]
        return D.EvolvingTensor(A, B, C, warning=warning), [A] + B + [C]
    if kind == 'array':
        B = ctx.real(tag + 'B', (len(J), J[0], rank))
        return D.EvolvingTensor(A, B, C, warning=warning), [A, B, C]
    Bp = ctx.real(tag + 'Bp', (rank, rank))
    P = [ctx.real('%sP%d' % (tag, k), (j, rank)) for k, j in enumerate(J)]
    return D.Parafac2Tensor(A, Bp, C, P, warning=warning), [A, Bp, C] + P


def compare(ctx, dec, back, kind, parts, I, J, rank):
    D = ctx.tk.decs
    cls = getattr(D, kind if kind != 'array' else 'EvolvingTensor')
    ctx.check(type(back) is cls, 'same kind')
    ctx.check(back.rank == rank, 'rank')
    if kind == 'KruskalTensor':
        ctx.check(len(back.factor_matrices) == len(J), 'number of modes')
        for n, u in enumerate(back.factor_matrices):
            ctx.same(u, parts[n], 'factor %d' % n, observe=n < 3)
        ctx.same(back.weights, parts[-1], 'weights')
        if len(J) <= 5:
            ctx.eq(back.construct_tensor(), spec.kruskal(parts[:-1], parts[-1]), 'tensor', observe=False)
        return
    ctx.check(bool(back.warning) == bool(dec.warning), 'warning setting')
    ctx.check(bool(back.all_same_size) == (len(set(J)) == 1), 'all_same_size')
    ctx.check(len(back.B) == len(J), 'number of slices')
    ctx.same(back.A, parts[0], 'A')
    if kind == 'Parafac2Tensor':
        ctx.same(back.blueprint_B, parts[1], 'blueprint')
        ctx.same(back.C, parts[2], 'C')
        ctx.check(len(back.projection_matrices) == len(J), 'number of projection matrices')
        for k, p in enumerate(back.projection_matrices):
            ctx.same(p, parts[3 + k], 'projection', observe=k < 3)
    else:
        ctx.same(back.C, parts[-1], 'C')
        for k in range(len(J)):
            ctx.same(back.B[k], parts[1][k] if kind == 'array' else parts[1 + k], 'evolving factor', observe=k < 3)
    for k in range(len(J)):
        if k < 4:
            ctx.eq(back.construct_slice(k), dec.construct_slice(k), 'slice', observe=False)


def harness(ctx, kind, I, J, rank, where):
    D = ctx.tk.decs
    if kind == 'mixed':
        decs = [build(ctx, k, I, J, rank, k[0]) for k in KINDS]
        with ctx.h5py.File(ctx.path('m.h5'), 'w') as h:
            for k, (d, p) in zip(KINDS, decs):
                d.store_in_hdf5_group(h.create_group('g_' + k))
        with ctx.h5py.File(ctx.path('m.h5'), 'r') as h:
            for k, (d, p) in zip(KINDS, decs):
                for other in KINDS:
                    if other == k:
                        compare(ctx, d, getattr(D, k).load_from_hdf5_group(h['g_' + k]), k, p, I, J, rank)
                    else:
                        ctx.raises((Warning, ValueError, KeyError, TypeError), lambda: getattr(D, other).load_from_hdf5_group(h['g_' + k]),
                                   '%s read as %s' % (k, other))
        for k, (d, p) in zip(KINDS, decs):
            d.store(ctx.path(k + '.h5'))
            for other in KINDS:
                if other != k:
                    ctx.raises((Warning, ValueError, KeyError, TypeError), lambda: getattr(D, other).from_file(ctx.path(k + '.h5')),
                               'file of %s read as %s' % (k, other))
        # storing again replaces the file
        d2, p2 = build(ctx, 'KruskalTensor', I, (1, 2, 2), 1, 'again')
        d2.store(ctx.path('KruskalTensor.h5'))
        compare(ctx, d2, D.KruskalTensor.from_file(ctx.path('KruskalTensor.h5')), 'KruskalTensor', p2, I, (1, 2, 2), 1)
        return
    warnings = (True,) if kind == 'KruskalTensor' else (True, False)
    for w in warnings:
        dec, parts = build(ctx, kind, I, J, rank, 't' if w else 'f', warning=w)
        snap = ctx.copy(parts)
        cls = getattr(D, kind if kind != 'array' else 'EvolvingTensor')
        fn = ctx.path('d%d.h5' % w)
        if where == 'file':
            dec.store(fn)
            back = cls.from_file(fn)
        else:
            with ctx.h5py.File(fn, 'w') as h:
                dec.store_in_hdf5_group(h.create_group('a/b'))
            with ctx.h5py.File(fn, 'r') as h:
                back = cls.load_from_hdf5_group(h['a/b'])
        ctx.unchanged(parts, snap, 'storing leaves the decomposition alone')
        compare(ctx, dec, back, kind, snap, I, J, rank)
        # a loaded decomposition is stored and loaded once more
        fn2 = ctx.path('e%d.h5' % w)
        back.store(fn2)
        compare(ctx, dec, cls.from_file(fn2), kind, snap, I, J, rank)
        # what was loaded does not share memory with the original
        parts[0][0, 0] = parts[0][0, 0] + 1
        first = back.factor_matrices[0] if kind == 'KruskalTensor' else back.A
        ctx.same(first, snap[0], 'independent of the original', observe=False)
