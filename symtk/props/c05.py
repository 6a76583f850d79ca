"""C05: one CP-ALS factor update is optimal for its subproblem; a sweep updates every mode once."""
import numpy as np
from . import spec, normaleq
from .c04 import psd

BOUNDS = ('orders 2-4, mode lengths 1-3, rank 1-2 (3 thorough); single updates: arbitrary data, factors and penalty, every active set; '
          'sweeps: rank 1 with arbitrary positive data  and a fixed starting point; fits of one to three sweeps with the solvers reduced to '
          'their contracts: orders 2-6, lengths 1-7, ranks 1-5 (thorough 7), also from a start in which modes share one array')
ASSUMPTIONS = ['normal equations of full rank (or one component zero), singular values within a factor 1e6; orthonormal modes: cross product of full rank']
LIMITS = dict(max_paths=400, time=40)

KINDS = ['plain', 'ridge', 'ridge0', 'nonneg', 'ridgenonneg', 'orth', 'ridgeorth']


def configs(tier):
    c = []
    big = tier == 'thorough'

    def add(kind, shape, rank, mode, other='none', **k):
        if 'orth' in kind and shape[mode] < rank:
            return
        if 'nonneg' in kind and rank > 1 and len(shape) > 2:
            shape = shape[:mode] + (1,) + shape[mode + 1:]
        if 'nonneg' in kind and shape[mode] > 1 and (rank, mode) == (2, 1):
            return
        n = '%s-%s-r%d-m%d%s' % (kind, 'x'.join(map(str, shape)), rank, mode, '' if other == 'none' else '-others-' + other)
        if k:
            n += '-' + '-'.join('%s%s' % q for q in k.items())
        if any(q['name'] == n for q in c):
            return
        c.append(dict(name=n, what='update', kind=kind, shape=shape, rank=rank, mode=mode, other=other, zero=k.get('zero', 0)))
    for kind in KINDS:
        for m in range(2):
            add(kind, (2, 2), 2, m)
        for m in range(3):
            add(kind, (2, 2, 2), 2, m)
            add(kind, (2, 3, 1), 1, m)
        add(kind, (1, 2, 2, 1) if 'orth' not in kind else (2, 1, 2, 1), 2, 0)
        add(kind, (1, 2, 1, 2) if 'orth' not in kind else (1, 1, 2, 2), 2, 2)
        add(kind, (1, 2, 2, 2), 1, 3)
        if big:
            for m in range(3):
                add(kind, (3, 2, 2), 2, m)
                add(kind, (2, 3, 2), 2, m)
            for m in range(4):
                add(kind, (2, 2, 1, 2), 2, m)
            add(kind, (1, 3, 2), 3, 0)
            add(kind, (3, 1, 3), 3, 2)
    for kind in KINDS:
        for other in ('plain', 'ridge', 'nonneg', 'orth'):
            if other != kind:
                add(kind, (2, 2, 2), 2, 1, other)
    for m in range(3):
        add('plain', (2, 2, 2), 2, m, zero=1)
        add('ridge', (2, 2, 2), 2, m, zero=1)
    for kind, shape, rank in [('plain', (2, 2), 1), ('plain', (2, 1, 2), 1), ('ridge', (2, 2), 1), ('nonneg', (1, 2), 1), ('orth', (2, 2), 1),
                              ('plain', (1, 2, 1, 1), 1), ('nonneg', (2, 1, 1), 1), ('mixed', (2, 1, 2), 1)]:
        c.append(dict(name='sweep-%s-%s-r%d' % (kind, 'x'.join(map(str, shape)), rank), what='sweep', kind=kind, shape=shape, rank=rank,
                      mode=0, other='', zero=0))
    fits = [((5, 2), 5, 2), ((3, 4, 5), 4, 1), ((2, 2, 2, 2, 2), 3, 1), ((7, 2, 3), 2, 2), ((2, 3, 2, 2), 4, 1), ((6, 3, 2), 3, 1), ((1, 1, 1), 1, 3),
            ((2, 2, 2), 3, 2), ((2, 1, 2, 1, 2, 2), 2, 1), ((3, 3), 1, 3), ((4, 4, 4), 5, 1), ((3, 3, 3), 3, 1)]
    if big:
        fits += [((8, 9, 2), 5, 1), ((3, 3, 3, 3), 7, 1), ((2,) * 7, 2, 1), ((3, 4, 3), 2, 3), ((12, 2, 2), 6, 1), ((2, 15, 3), 4, 1)]
    for shape, rank, its in fits:
        for kind in KINDS + ['mixed', 'mixed2']:
            if kind == 'orth' or kind == 'ridgeorth':
                if shape[0] < rank:
                    continue
            c.append(dict(name='fit-%s-%s-r%d-%d' % (kind, 'x'.join(map(str, shape)), rank, its), what='fit', kind=kind, shape=shape, rank=rank,
                          mode=its, other='', zero=0))
    for shape, rank, its in [((3, 3, 2), 2, 1), ((2, 2, 2, 2), 3, 2), ((2, 3, 2), 1, 1)]:
        for kind in ('plain', 'ridge', 'nonneg', 'mixed'):
            c.append(dict(name='shared-%s-%s-r%d-%d' % (kind, 'x'.join(map(str, shape)), rank, its), what='fit', kind=kind, shape=shape, rank=rank,
                          mode=its, other='', zero=0, shared=True))
    return c


def model(ctx, shape, rank, kinds, lam, X):
    cp, D = ctx.tk.cp, ctx.tk.decs
    kw = {}
    if any('ridge' in k for k in kinds):
        kw['ridge_penalties'] = [(0 if k == 'ridge0' else l) if 'ridge' in k else 0 for k, l in zip(kinds, lam)]
    if any('nonneg' in k for k in kinds):
        kw['non_negativity_constraints'] = ['nonneg' in k for k in kinds]
    if any('orth' in k for k in kinds):
        kw['orthonormality_constraints'] = ['orth' in k for k in kinds]
    m = cp.CP_ALS(rank, max_its=3, init='precomputed', **kw)
    start = []
    for s in shape:
        f = ctx.zeros((s, rank))
        f[...] = np.eye(s, rank) if s >= rank else np.ones((s, rank))
        start.append(f)
    m._init_fit(X, None, D.KruskalTensor(start))
    return m


def optimal(ctx, X, factors, new, mode, kind, lam, label):
    """new minimises ||X - [[factors with new]]||^2 + lam ||new||^2 under the constraint of the mode"""
    rank = new.shape[1]
    V = np.empty((rank, rank), dtype=object)
    V[...] = 1
    for i, f in enumerate(factors):
        if i != mode:
            V = V * spec.gram(f)
    for r in range(rank):
        V[r, r] = V[r, r] + lam
    M = spec.mttkrp(X, factors, mode)
    if 'orth' in kind:
        N = ctx.named(M)
        ctx.eq(spec.matmul(new.T, new), spec.identity(rank), label + ': orthonormal')
        psd(ctx, spec.matmul(new.T, N), label + ': closest')
    elif 'nonneg' in kind:
        grad = spec.matmul(new, V) - M
        for i in range(grad.shape[0]):
            for r in range(rank):
                ctx.ge(new[i, r], 0, label + ': nonnegative')
                ctx.eq(new[i, r] * grad[i, r], 0, label + ': complementary')
                ctx.ge(grad[i, r], 0, label + ': no descent direction')
    else:
        grad = spec.matmul(new, ctx.named(V)) - M
        ctx.eq(grad, 0 * grad, label + ': stationary')


def harness(ctx, what, kind, shape, rank, mode, other, zero, shared=False):
    N = len(shape)
    X = ctx.real('X', shape, pos=what == 'sweep')
    if what == 'sweep':
        return sweep(ctx, X, kind, shape, rank)
    if what == 'fit':
        return fit(ctx, X, kind, shape, rank, mode, shared)
    kinds = [other] * N
    kinds[mode] = kind
    if other == 'orth':
        kinds = [k if s >= rank or i == mode else 'plain' for i, (k, s) in enumerate(zip(kinds, shape))]
    lam = [ctx.real('lam%d' % i, (), pos=True) if k.startswith('ridge') and k != 'ridge0' else 0 for i, k in enumerate(kinds)]
    m = model(ctx, shape, rank, kinds, lam, X)
    U = []
    for i, s in enumerate(shape):
        f = ctx.real('U%d' % i, (s, rank))
        if zero and i == (mode + 1) % N:
            f[:, 1] = 0
        U.append(f)
    for f, u in zip(m.factor_matrices, U):
        f[...] = u
    V = np.empty((rank, rank), dtype=object)
    V[...] = 1
    for i, f in enumerate(U):
        if i != mode:
            V = V * spec.gram(f)
    if zero:
        ctx.assume(V[0, 0], '>', 1e-2)
    elif 'orth' in kind and rank == 1:
        ctx.assume(spec.sumsq(spec.mttkrp(X, U, mode)), '>', 1e-2)
    elif 'orth' in kind:
        ctx.fullrank(spec.mttkrp(X, U, mode))
    elif kind in ('plain', 'ridge0', 'nonneg') and rank > 1:
        if not ctx.sym:
            ctx.assume_that(np.linalg.cond(np.asarray(V, dtype=float)) < 1e5)
        ctx.assume(spec.det(V), '!=')
    elif rank == 1 and kind in ('plain', 'ridge0', 'nonneg'):
        ctx.assume(V[0, 0], '>', 1e-2)
    snap = ctx.copy([X] + U)
    arrays = list(m.factor_matrices)
    m._update_als_factor(mode)
    for i in range(N):
        if i != mode:
            ctx.eq(m.factor_matrices[i], snap[1 + i], 'other factor untouched', observe=False)
        ctx.eq(m.decomposition.factor_matrices[i], m.factor_matrices[i], 'part of the decomposition', observe=False)
    w = m.decomposition.weights
    ctx.eq(w, np.ones(rank), 'weights untouched', observe=False)
    new = m.factor_matrices[mode]
    ctx.check(new.shape == (shape[mode], rank), 'shape')
    optimal(ctx, X, snap[1:], new, mode, kind, lam[mode], 'update')
    ctx.unchanged(X, snap[0], 'data untouched')


def sweep(ctx, X, kind, shape, rank):
    N = len(shape)
    kinds = [kind] * N
    if kind == 'mixed':
        kinds = ['ridge', 'nonneg', 'orth']
    elif kind == 'orth':
        kinds = ['plain'] * (N - 1) + ['orth']
    lam = [ctx.real('lam%d' % i, (), pos=True) if 'ridge' in k else 0 for i, k in enumerate(kinds)]
    m = model(ctx, shape, rank, kinds, lam, X)
    U = []
    for i, s in enumerate(shape):
        f = ctx.zeros((s, rank))
        f[:, 0] = np.arange(1, s + 1)
        U.append(f)
    for f, u in zip(m.factor_matrices, U):
        f[...] = u
    m._update_als_factors()
    new = [f.copy() for f in m.factor_matrices]
    # mode n was updated once, with the new factors of the modes before it and the old ones of the modes after it
    for n in range(N):
        optimal(ctx, X, new[:n] + [new[n]] + U[n + 1:], new[n], n, kinds[n], lam[n], 'sweep %d' % n)


def fit(ctx, X, kind, shape, rank, its, shared=False):
    """every update of a whole fit, for sizes beyond what the solvers can be executed on"""
    N = len(shape)
    if kind == 'mixed':
        kinds = [['ridge', 'nonneg', 'plain', 'ridgenonneg'][i % 4] for i in range(N)]
    elif kind == 'mixed2':
        kinds = [['nonneg', 'plain', 'ridge', 'plain'][i % 4] for i in range(N)]
    else:
        kinds = [kind if 'orth' not in kind else ('ridge' if 'ridge' in kind and i else 'plain' if i else kind) for i in range(N)]
    lam = [ctx.real('lam%d' % i, (), pos=True) if k.startswith('ridge') and k != 'ridge0' else 0 for i, k in enumerate(kinds)]
    cp, D = ctx.tk.cp, ctx.tk.decs
    calls, log = [], []
    ctx.assume_that(hasattr(cp.CP_ALS, '_update_als_factor'))

    class Model(cp.CP_ALS):
        # the error measures are decided elsewhere
        SSE = loss = property(lambda self: 1)

        def _update_als_factor(self, mode):
            before, n = [f.copy() for f in self.factor_matrices], len(calls)
            super()._update_als_factor(mode)
            log.append((mode, before, [f.copy() for f in self.factor_matrices], calls[n:]))
    kw = {}
    if any('ridge' in k for k in kinds):
        kw['ridge_penalties'] = [(0 if k == 'ridge0' else l) if 'ridge' in k else 0 for k, l in zip(kinds, lam)]
    if any('nonneg' in k for k in kinds):
        kw['non_negativity_constraints'] = ['nonneg' in k for k in kinds]
    if any('orth' in k for k in kinds):
        kw['orthonormality_constraints'] = ['orth' in k for k in kinds]
    m = Model(rank, max_its=its, init='precomputed', convergence_tol=-1, rel_loss_tol=-1, **kw)
    start = [ctx.real('U%d' % i, (s, rank)) if 'orth' not in k else ctx.orthonormal('U%d' % i, s, rank) for i, (s, k) in enumerate(zip(shape, kinds))]
    if ctx.sym:
        from .. import npshim
        for f, k in zip(start, kinds):
            if 'orth' in k:
                ctx.e.qr_known.append((f, f, npshim.eye(rank)))
    if shared:
        # one array for all modes of the same length
        start = [start[list(shape).index(s)] for s in shape]
    snap = ctx.copy(X)
    with normaleq.recorded(ctx, calls):
        m._init_fit(X, None, D.KruskalTensor(start))
        held = [f.copy() for f in m.factor_matrices]
        m.fit_transform(X, initial_decomposition=D.KruskalTensor([f.copy() for f in start])) if its == 1 and not shared else m.continue_fit()
    ctx.assume_that(len(log) > 0)
    ctx.check(len(log) == N * its, 'as many updates as modes and iterations')
    for q, (mode, before, after, used) in enumerate(log):
        label = 'update %d' % q
        if q % N == 0:
            ctx.check(sorted(l[0] for l in log[q:q + N]) == list(range(N)), 'one sweep updates every mode once')
        if ctx.sym or its > 1:
            for i in range(N):
                ctx.eq(before[i], held[i], label + ': nothing else changes the factors', observe=False)
                if i != mode:
                    ctx.eq(after[i], before[i], label + ': other factors untouched', observe=False)
        held = after
        normaleq.optimal(ctx, normaleq.normal(before, mode), spec.mttkrp(X, before, mode), lam[mode], kinds[mode], after[mode], used, label)
    for i in range(N):
        ctx.eq(m.factor_matrices[i], held[i], 'the factors are those of the last update', observe=False)
    ctx.unchanged(X, snap, 'data untouched')
