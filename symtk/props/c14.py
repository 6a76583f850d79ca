"""C14: normalising gives unit components and leaves the tensor alone; sign helpers."""
import itertools
import numpy as np
from . import spec

BOUNDS = ('2-5 modes (thorough 7) of length 1-7 (20), ranks 1-4 (7), arbitrary real weights and nonzero columns, plus every pattern of identically zero '
          'columns for one small size; sign helpers: 1-2 factors with 1-4 entries per column')
ASSUMPTIONS = ['the 1e-15 added to norms is dropped for symbolic norms (below the resolution of the comparison)']
LIMITS = dict(max_paths=1200)
LAYOUTS = 'all'


def configs(tier):
    c = []
    ks = [((2, 3), 2), ((2, 1, 3), 2), ((3, 2, 2), 1), ((2, 2, 2, 2), 2), ((1, 1), 1), ((2, 2, 2), 3)]
    ks += [((3, 2), 4), ((2, 1, 2, 1, 2), 2), ((6, 2), 1), ((2, 7), 2)]
    if tier == 'thorough':
        ks += [((3, 3, 3), 3), ((4, 3), 3), ((2, 2, 2, 2, 2), 2), ((4, 5, 3), 2), ((2, 2), 7), ((20, 2), 1), ((2,) * 7, 1)]
    for s, r in ks:
        n = '%s-r%d' % ('x'.join(map(str, s)), r)
        for w in ('given', 'none', 'int'):
            c.append(dict(name='norm-%s-%s' % (n, w), what='norm', shape=s, rank=r, w=w, zero=None))
        c.append(dict(name='helper-' + n, what='helper', shape=s, rank=r, w=None, zero=None))
    for z in itertools.product((0, 1), repeat=4):
        if any(z):
            c.append(dict(name='norm-zero-%s' % ''.join(map(str, z)), what='norm', shape=(2, 2), rank=2, w='given', zero=z))
    for s, r in (((2, 2), 2), ((3, 2, 3), 1), ((2, 2, 2), 2)):
        c.append(dict(name='norm-shared-%s-r%d' % ('x'.join(map(str, s)), r), what='norm', shape=s, rank=r, w='given', zero=None, shared=True))
    for z in ((1, 0, 0, 0), (0, 0, 1, 1)):
        c.append(dict(name='helper-zero-%s' % ''.join(map(str, z)), what='helper', shape=(2, 2), rank=2, w=None, zero=z))
    for mags in ((-7, 7), (-7, 0), (0, 9), (-6, -6, 12)) + (((30, -7), (80, 80)) if tier == 'thorough' else ()):
        n = 'x'.join('1e%d' % m for m in mags)
        for what in ('norm', 'helper', 'prepare'):
            c.append(dict(name='%s-%s' % (what, n), what=what, shape=(2,) * len(mags), rank=1 if what == 'prepare' else 2,
                          w='given' if what == 'norm' else None, zero=None, mags=mags))
    fs = [((1,), 1), ((2,), 1), ((3,), 1), ((4,), 1), ((2, 3), 1), ((2,), 2)]
    if tier == 'thorough':
        fs += [((5,), 1), ((3, 3), 1), ((3,), 2), ((2, 2), 2)]
    for s, r in fs:
        for what in ('flip', 'prepare'):
            c.append(dict(name='%s-%s-r%d' % (what, 'x'.join(map(str, s)), r), what=what, shape=s, rank=r, w=None, zero=None))
    return c


def columns(ctx, shape, rank, zero, nonzero=True, unit=None):
    U = []
    for n, s in enumerate(shape):
        u = ctx.real('U%d' % n, (s, rank))
        for r in range(rank):
            if zero and zero[n * rank + r]:
                u[:, r] = 0
            elif nonzero:
                ctx.assume(spec.sumsq(u[:, r]), '>', 1e-3)
        U.append(u * unit[n] if unit else u)
    return U


def harness(ctx, what, shape, rank, w, zero, mags=None, shared=False):
    D, utils = ctx.tk.decs, ctx.tk.utils
    # every mode in its own unit of measurement: results are compared after dividing by it
    unit = [10.0**m for m in mags] if mags else None
    inv = [10.0**-m for m in mags] if mags else [1] * len(shape)
    every = 1
    for v in inv:
        every = every * v
    if what == 'norm':
        for update in (True, False):
            ctx_u = columns(ctx, shape, rank, zero, unit=unit) if update else [u.copy() for u in snap]
            if shared:
                # one array for the first and the last mode
                ctx_u[-1] = ctx_u[0]
            if update:
                snap = [u.copy() for u in ctx_u]
            if w == 'given':
                wt = ctx.real('w', (rank,)) if update else ws.copy()
                ws = wt.copy()
            elif w == 'int':
                wt = [3 - 2 * r for r in range(rank)]
                ws = np.array(wt)
            else:
                wt, ws = None, np.ones(rank, dtype=int)
            kt = D.KruskalTensor(ctx_u, wt)
            out = kt.normalize_components(update_weights=update) if not update else kt.normalize_components()
            ctx.check(out is kt, 'returns the decomposition')
            norms = [[ctx.sqrt(spec.sumsq(s[:, r])) for r in range(rank)] for s in snap]
            for n, u in enumerate(kt.factor_matrices):
                for r in range(rank):
                    z = zero and zero[n * rank + r]
                    ctx.eq(spec.sumsq(u[:, r]), 0 if z else 1, 'unit length')
                    ctx.eq([x * (norms[n][r] * inv[n]) for x in u[:, r]], snap[n][:, r] * inv[n], 'direction kept', observe=False)
            if update:
                for r in range(rank):
                    p = ws[r]
                    for n in range(len(shape)):
                        p = p * norms[n][r]
                    ctx.eq(kt.weights[r] * every, p * every, 'weight')
                ctx.eq(kt.construct_tensor() * every, spec.kruskal(snap, ws) * every, 'tensor unchanged')
                ctx.eq(spec.kruskal(kt.factor_matrices, kt.weights) * every, spec.kruskal(snap, ws) * every, 'denotation unchanged', observe=False)
            else:
                ctx.same(kt.weights, ws, 'weights untouched')
        # resetting the weights, whatever they were
        for weights in (ws, ctx.real('any', (rank,)), np.zeros(rank)):
            kt = D.KruskalTensor([u.copy() for u in snap], weights.copy())
            kt.reset_weights()
            ctx.eq(kt.weights, [1] * rank, 'weights reset', observe=False)
            for u, v in zip(kt.factor_matrices, snap):
                ctx.same(u, v, 'resetting weights leaves the factors')
    elif what == 'helper':
        U = columns(ctx, shape, rank, zero, unit=unit)
        snap = [u.copy() for u in U]
        F, N = utils.normalize_factors(U)
        ctx.check(len(F) == len(U) and len(N) == len(U), 'number of factors')
        ctx.unchanged(U, snap, 'input untouched')
        single = [utils.normalize_factor(u) for u in U]
        ctx.unchanged(U, snap, 'input untouched by the single one')
        for n in range(len(U)):
            for (f, nn) in ((F[n], N[n]), single[n]):
                nn = np.asarray(nn).reshape(-1)
                ctx.check(len(nn) == rank, 'one norm per column')
                for r in range(rank):
                    z = zero and zero[n * rank + r]
                    ctx.eq(nn[r] * inv[n], ctx.sqrt(spec.sumsq(snap[n][:, r] * inv[n])), 'norm')
                    ctx.eq(spec.sumsq(f[:, r]), 0 if z else 1, 'unit length')
                    ctx.eq([x * (nn[r] * inv[n]) for x in f[:, r]], snap[n][:, r] * inv[n], 'direction kept')
    else:
        U = columns(ctx, shape, rank, None, nonzero=what == 'prepare', unit=unit)
        snap = [u.copy() for u in U]
        if what == 'flip':
            F, S = utils.flip_factors(U)
            norms = None
        else:
            F, S, norms = utils.prepare_for_comparison(U)
        ctx.unchanged(U, snap, 'input untouched')
        ctx.check(len(F) == len(U) and len(S) == len(U), 'number of factors')
        for n, u in enumerate(snap):
            for r in range(rank):
                tot, first = 0, 0
                for x in u[:, r]:
                    s = 1 if x > 0 else (-1 if x < 0 else 0)
                    tot += s
                    first = first or s
                want = 1 if tot > 0 else (-1 if tot < 0 else first)
                if want == 0:
                    ctx.eq(F[n][:, r], u[:, r] * 0, 'zero column')
                    continue
                ctx.eq(S[n][r], want, 'sign')
                if what == 'flip':
                    ctx.eq(F[n][:, r], [x * want for x in u[:, r]], 'flipped column')
                else:
                    nr = ctx.sqrt(spec.sumsq(u[:, r]))
                    ctx.eq(np.asarray(norms[n]).reshape(-1)[r] * inv[n], nr * inv[n], 'norm')
                    ctx.eq([x * (nr * inv[n]) for x in F[n][:, r]], [x * (want * inv[n]) for x in u[:, r]], 'normalised column')
