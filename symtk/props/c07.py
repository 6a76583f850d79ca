"""C07: PARAFAC2 updates: optimal orthonormal projections, then CP updates of the projected data on the returned decomposition itself."""
import numpy as np
from . import spec, normaleq
from .c04 import psd
from .c05 import optimal

BOUNDS = ('1-3 slices of 1-3 rows and widths rank..rank+2, rank 1-2 (3 for one projection); projection update: arbitrary data and factors; single factor '
          'updates: arbitrary data, factors, penalty, rank 1-2, under every constraint; whole iterations: rank 1, arbitrary positive data, fixed '
          'start and projections, 1-3 CP sweeps per iteration; also after an earlier fit to other data, or resumed from a checkpoint; all updates of fits of one or two iterations of 1-3 sweeps with the '
          'solvers reduced to their contracts: up to 6 slices of up to 6 rows, widths up to 7, ranks 1-5, also from a start in which outer modes or projections share one array')
ASSUMPTIONS = ['slice widths at least the rank; cross products and normal equations of full rank (singular values within a factor 1e6)']
LIMITS = dict(max_paths=200, time=60)

KINDS = ['plain', 'ridge', 'nonneg', 'orth', 'ridgenonneg', 'ridgeorth']


def configs(tier):
    c = []
    big = tier == 'thorough'
    for kind in ('plain', 'ridge', 'nonneg', 'mixed'):
        for I, J, r, its in [(2, (3, 3), 2, 1), (3, (2, 2, 2), 1, 2), (3, (4, 4, 4), 3, 1)]:
            c.append(dict(name='shared-%s-%dx%s-r%d-i%d' % (kind, I, '.'.join(map(str, J)), r, its), what='fit', I=I, J=J, rank=r, data='list', kind=kind,
                          mode=its, ups=1, shared=True))
    for I, J, r in [(1, (1,), 1), (2, (2, 2), 1), (2, (1, 2, 3), 1), (2, (2,), 2), (2, (2, 3), 2), (3, (3,), 2)] + \
            ([(2, (3, 2, 4), 2), (3, (4,), 2), (3, (3, 3), 2)] if big else []):
        for data in ('list', 'array'):
            if data == 'array' and (len(set(J)) > 1 or len(J) < 2):
                continue
            c.append(dict(name='project-%dx%s-r%d-%s' % (I, '.'.join(map(str, J)), r, data), what='project', I=I, J=J, rank=r, data=data, kind='plain',
                          mode=0, ups=1))
    for kind in KINDS:
        for mode in range(3):
            for I, J, r in [(2, (2, 3), 2), (2, (2, 2, 2), 1)] + ([(3, (2, 3), 2), (2, (2, 3, 4), 2)] if big else []):
                if 'orth' in kind and [I, r, len(J)][mode] < r:
                    continue
                if 'nonneg' in kind and r > 1:
                    # keep the active sets few
                    if mode == 0:
                        I = 1
                    elif mode == 1:
                        continue
                    else:
                        J = J[:1]
                n = 'factor-%s-m%d-%dx%s-r%d' % (kind, mode, I, '.'.join(map(str, J)), r)
                if any(q['name'] == n for q in c):
                    continue
                c.append(dict(name=n, what='factor', I=I, J=J, rank=r, data='list', kind=kind, mode=mode, ups=1))
    for kind in ('plain', 'ridge', 'nonneg', 'orthA', 'orthC', 'mixed'):
        for ups in (1, 2) if not big else (1, 2, 3):
            for data, J in (('list', (1, 2)), ('array', (2, 2))):
                if (kind, ups) in (('ridge', 2), ('mixed', 2)) and not big:
                    continue
                c.append(dict(name='iteration-%s-%s-u%d' % (kind, data, ups), what='iteration', I=2, J=J, rank=1, data=data, kind=kind, mode=0, ups=ups))
    for kind in ('plain', 'ridge', 'nonneg') + (('orthA', 'orthC', 'mixed') if big else ()):
        for before in ('refit', 'resume', 'reload'):
            c.append(dict(name='again-%s-%s' % (kind, before), what='iteration', I=2, J=(1, 2), rank=1, data='list', kind=kind, mode=0, ups=1, before=before))
    for I, J, r, data, ups, its in [(4, (5, 3, 4), 3, 'list', 1, 1), (3, (3,) * 6, 2, 'array', 1, 2), (6, (7, 6), 5, 'list', 1, 1), (2, (2, 3), 2, 'list', 3, 1),
                                    (3, (4, 4, 4), 4, 'array', 1, 1), (3, (4, 5, 6, 7), 3, 'list', 1, 1), (2, (1, 3), 1, 'list', 2, 2),
                                    (2, (3, 3), 2, 'array', 1, 2)] + \
            ([(7, (8, 9, 7), 6, 'list', 1, 1), (3, (4,) * 12, 2, 'list', 1, 1), (3, (3, 4, 3), 3, 'list', 2, 2)] if big else []):
        for kind in ('plain', 'ridge', 'nonneg', 'orthA', 'orthC', 'mixed'):
            if kind == 'orthA' and I < r or kind == 'orthC' and len(J) < r:
                continue
            c.append(dict(name='fit-%s-%s-%dx%s-r%d-u%d-i%d' % (kind, data, I, '.'.join(map(str, J)), r, ups, its), what='fit', I=I, J=J, rank=r, data=data,
                          kind=kind, mode=its, ups=ups))
    return c


def build(ctx, rank, kinds, lam, ups, loggers=()):
    kw = {}
    if any('ridge' in k for k in kinds):
        kw['ridge_penalties'] = list(lam)
    if any('nonneg' in k for k in kinds):
        kw['non_negativity_constraints'] = ['nonneg' in k for k in kinds]
    if any('orth' in k for k in kinds):
        kw['orthonormality_constraints'] = ['orth' in k for k in kinds]
    with ctx.quiet():
        return ctx.tk.parafac2.Parafac2_ALS(rank, max_its=1, convergence_tol=-1, init='precomputed', print_frequency=-1, cp_updates_per_it=ups,
                                            loggers=list(loggers), **kw)


def makedata(ctx, I, J, data, pos=False):
    if data == 'array':
        X = ctx.real('X', (I, J[0], len(J)), pos=pos)
        return X, [X[:, :, k] for k in range(len(J))]
    X = [ctx.real('X%d' % k, (I, j), pos=pos) for k, j in enumerate(J)]
    return X, X


def const(ctx, rows):
    a = ctx.zeros((len(rows), len(rows[0])))
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    return a


def eye(ctx, n, r):
    return const(ctx, np.eye(n, r, dtype=int).tolist())


def harness(ctx, what, I, J, rank, data, kind, mode, ups, before=None, shared=False):
    X, S = makedata(ctx, I, J, data, pos=what == 'iteration')
    snap = ctx.copy(list(S))
    if what == 'project':
        project(ctx, X, S, I, J, rank)
    elif what == 'fit':
        fit(ctx, X, S, I, J, rank, kind, ups, mode, shared)
    elif what == 'factor':
        factor(ctx, X, S, I, J, rank, kind, mode)
    else:
        iteration(ctx, X, S, I, J, rank, kind, ups, before)
    ctx.unchanged(list(S), snap, 'data untouched')


def start(ctx, m, X, I, J, rank, A=None, B=None, C=None, shared=False):
    D = ctx.tk.decs
    if shared:
        # one array for both outer modes and one for all projections
        d = D.Parafac2Tensor(A, B, A, [eye(ctx, J[0], rank)] * len(J))
        m._init_fit(X, None, d)
        return m.decomposition
    d = D.Parafac2Tensor(eye(ctx, I, rank) if I >= rank else const(ctx, [[1] * rank] * I), eye(ctx, rank, rank),
                         eye(ctx, len(J), rank) if len(J) >= rank else const(ctx, [[1] * rank] * len(J)), [eye(ctx, j, rank) for j in J])
    m._init_fit(X, None, d)
    d = m.decomposition
    for f, v in ((d.A, A), (d.blueprint_B, B), (d.C, C)):
        if v is not None:
            f[...] = v
    return d


def project(ctx, X, S, I, J, rank):
    m = build(ctx, rank, ['plain'] * 3, None, 1)
    A, B, C = ctx.real('A', (I, rank)), ctx.real('B', (rank, rank)), ctx.real('C', (len(J), rank))
    d = start(ctx, m, X, I, J, rank, A, B, C)
    snap = ctx.copy([A, B, C])
    M = []
    for k in range(len(J)):
        Y = spec.matmul(S[k].T, spec.matmul(A * C[k], B.T))
        if rank == 1:
            ctx.assume(spec.sumsq(Y), '>', 1e-2)
        else:
            if not ctx.sym:
                ctx.assume_that(np.linalg.cond(np.asarray(Y, dtype=float)) < 1e5)
            ctx.fullrank(Y)
        M.append(Y)
    m._update_projection_matrices()
    d = m.decomposition
    ctx.unchanged([d.A, d.blueprint_B, d.C], snap, 'factors untouched')
    BB = spec.gram(B)
    ctx.check(len(d.projection_matrices) == len(J), 'one projection per slice')
    for k in range(len(J)):
        P = d.projection_matrices[k]
        ctx.check(P.shape == (J[k], rank), 'shape')
        ctx.eq(spec.matmul(P.T, P), spec.identity(rank), 'orthonormal')
        psd(ctx, spec.matmul(P.T, ctx.named(M[k])), 'closest')
        if rank == 1:
            ctx.eq(spec.gram(np.asarray(d.B[k])), BB, 'common cross product', observe=False)


ROT = [[[0, 1], [1, 0]], [['3/5', '-4/5'], ['4/5', '3/5']], [['4/5', '3/5'], ['3/5', '-4/5']], [[1, 0], [0, -1]]]


def projections(ctx, J, rank):
    """fixed orthonormal matrices, different for every slice"""
    from fractions import Fraction
    out = []
    for k, j in enumerate(J):
        P = [[0] * rank for _ in range(j)]
        if rank == 1:
            if j == 1:
                P[0][0] = (-1)**k
            else:
                P[-1][0], P[-2][0] = (Fraction(3, 5), Fraction(4, 5)) if k % 2 else (Fraction(5, 13), Fraction(12, 13))
        else:
            R = ROT[k % len(ROT)]
            for i in range(2):
                for r in range(2):
                    P[j - 1 - i][r] = Fraction(R[i][r])
        if not ctx.sym:
            P = [[float(x) for x in row] for row in P]
        out.append(const(ctx, P))
    return out


def fixed(P):
    """a projection update that puts the given matrices in place"""
    def update(self):
        for q, p in zip(self.decomposition.projection_matrices, P):
            q[...] = p
    return update


def projected(S, P):
    I, R = len(S[0]), P[0].shape[1]
    Y = np.empty((I, R, len(S)), dtype=object)
    for k in range(len(S)):
        Y[:, :, k] = spec.matmul(S[k], P[k])
    return Y


def factor(ctx, X, S, I, J, rank, kind, mode):
    """one factor update inside an iteration of fit, everything else held still"""
    CP = ctx.tk.cp.CP_ALS
    ctx.assume_that(hasattr(CP, '_update_als_factors') and hasattr(ctx.tk.parafac2.Parafac2_ALS, '_update_projection_matrices'))
    kinds = ['plain'] * 3
    kinds[mode] = kind
    lam = [ctx.real('lam', (), pos=True) if 'ridge' in k else 0 for k in kinds]
    m = build(ctx, rank, kinds, lam, 1)
    shape = [I, rank, len(J)]
    U = [ctx.real('U%d' % n, (s, rank)) for n, s in enumerate(shape)]
    P = projections(ctx, J, rank)
    Y = projected(S, P)
    start(ctx, m, X, I, J, rank, *U)
    # the factor that is updated next starts at something simple
    f = [m.decomposition.A, m.decomposition.blueprint_B, m.decomposition.C][mode]
    U[mode] = eye(ctx, shape[mode], rank) if shape[mode] >= rank else const(ctx, [[1] * rank] * shape[mode])
    f[...] = U[mode]
    snap = ctx.copy(U)
    V = np.empty((rank, rank), dtype=object)
    V[...] = 1
    for i, u in enumerate(U):
        if i != mode:
            V = V * spec.gram(u)
    if 'orth' in kind and rank == 1:
        ctx.assume(spec.sumsq(spec.mttkrp(Y, U, mode)), '>', 1e-2)
    elif 'orth' in kind:
        ctx.fullrank(spec.mttkrp(Y, U, mode))
    elif kind in ('plain', 'nonneg') and rank > 1:
        if not ctx.sym:
            ctx.assume_that(np.linalg.cond(np.asarray(V, dtype=float)) < 1e5)
        ctx.assume(spec.det(V), '!=')
    elif kind in ('plain', 'nonneg'):
        ctx.assume(V[0, 0], '>', 1e-2)
    calls = []

    def sweep(self):
        calls.append(self)
        self._update_als_factor(mode)
    cls = type(m)
    old = cls._update_projection_matrices, CP._update_als_factors
    cls._update_projection_matrices, CP._update_als_factors = fixed(P), sweep
    try:
        # loss values only steer the stopping rule here
        real = cls.loss
        cls.loss = property(lambda self: 1)
        try:
            m.prev_loss = 1
            m.continue_fit(max_its=1)
        finally:
            cls.loss = real
    finally:
        cls._update_projection_matrices, CP._update_als_factors = old
    ctx.assume_that(len(calls) == 1)
    d = m.decomposition
    new = [d.A, d.blueprint_B, d.C]
    for i in range(3):
        if i != mode:
            ctx.eq(new[i], snap[i], 'other factor untouched', observe=False)
    for k in range(len(J)):
        ctx.eq(d.projection_matrices[k], P[k], 'projection in place', observe=False)
    optimal(ctx, Y, snap, new[mode], mode, kind, lam[mode], 'update')


SETTINGS = {'plain': ['plain'] * 3, 'ridge': ['ridge'] * 3, 'nonneg': ['nonneg', 'plain', 'nonneg'], 'orthA': ['orth', 'plain', 'plain'],
            'orthC': ['plain', 'plain', 'orth'], 'mixed': ['nonneg', 'ridge', 'plain']}


def iteration(ctx, X, S, I, J, rank, kind, ups, before=None):
    cls = ctx.tk.parafac2.Parafac2_ALS
    ctx.assume_that(hasattr(cls, '_update_projection_matrices'))
    kinds = SETTINGS[kind]
    lam = [ctx.real('lam%d' % n, (), pos=True) if 'ridge' in k else 0 for n, k in enumerate(kinds)]
    seen = []

    class Log:
        def log(self, model):
            d = model.decomposition
            seen.append(ctx.copy([d.A, d.blueprint_B, d.C]) + [list(d.projection_matrices)])

        def write_to_hdf5_group(self, h):
            pass
    m = build(ctx, rank, kinds, lam, ups, [Log()])
    P = [const(ctx, [[0]] * (j - 1) + [[1]]) for j in J]
    Y = projected(S, P)
    first = 0
    if before:
        # an earlier fit of the same model, to twice the data
        cls0 = cls.loss
        cls.loss = property(lambda self: 1)
        try:
            start(ctx, m, [2 * s for s in S], I, J, rank)
            m.continue_fit(max_its=0)
        finally:
            cls.loss = cls0
    start(ctx, m, X, I, J, rank)
    if before in ('resume', 'reload'):
        path = ctx.path('start.h5')
        first = 4
        with ctx.h5py.File(path, 'w') as h:
            h.attrs['checkpoint_its'] = [3]
            h.attrs['final_iteration'] = 3
            h.attrs['decomposition_type'] = 'Parafac2_ALS'
            m.decomposition.store_in_hdf5_group(h.create_group('checkpoint_00003'))
        if before == 'resume':
            m.init = 'from_checkpoint'
            m._init_fit(X, None, path)
        else:
            m.load_checkpoint(path)
    d = m.decomposition
    U = [const(ctx, [[1], [0]] if kind == 'orthA' else [[1], [2]]), const(ctx, [[1]]), const(ctx, [[3], [1]])]
    if kind == 'orthC':
        U[2] = const(ctx, [[1], [0]])
    for f, u in zip((d.A, d.blueprint_B, d.C), U):
        f[...] = u
    old = cls._update_projection_matrices
    cls._update_projection_matrices = fixed(P)
    real = cls.loss
    cls.loss = property(lambda self: 1)
    # the intermediate sweeps, computed from their definition
    try:
        m.prev_loss = 1
        m.continue_fit(max_its=first + 1)
    finally:
        cls._update_projection_matrices = old
        cls.loss = real
    ctx.check(len(seen) == 1, 'one iteration')
    new = [m.decomposition.A, m.decomposition.blueprint_B, m.decomposition.C]
    cur = [u.copy() for u in U]
    for u in range(ups - 1):
        for n in range(3):
            V = 1
            for i in range(3):
                if i != n:
                    V = V * spec.gram(cur[i])[0, 0]
            M = spec.mttkrp(Y, cur, n)
            if 'orth' in kinds[n]:
                l = ctx.sqrt(spec.sumsq(M))
                cur[n] = M / l
            else:
                cur[n] = M / (V + lam[n])
    for n in range(3):
        optimal(ctx, Y, new[:n] + [new[n]] + cur[n + 1:], new[n], n, kinds[n], lam[n], 'mode %d' % n)
    for k in range(len(J)):
        ctx.eq(m.decomposition.projection_matrices[k], P[k], 'projection in place', observe=False)
    for a, b in zip(seen[0][:3], new):
        ctx.eq(a, b, 'measured in fit', observe=False)


def fit(ctx, X, S, I, J, rank, kind, ups, its, shared=False):
    """every update of a whole fit, for sizes beyond what the solvers can be executed on"""
    P2, CP = ctx.tk.parafac2.Parafac2_ALS, ctx.tk.cp.CP_ALS
    ctx.assume_that(hasattr(P2, '_update_projection_matrices') and hasattr(CP, '_update_als_factor'))
    kinds = SETTINGS[kind]
    lam = [ctx.real('lam%d' % n, (), pos=True) if 'ridge' in k else 0 for n, k in enumerate(kinds)]
    calls, log = [], []
    m = build(ctx, rank, kinds, lam, ups)
    sizes = [I, rank, len(J)]
    A, B, C = [ctx.real(n, (s, rank)) if k != 'orth' else ctx.orthonormal(n, s, rank) for n, s, k in zip('ABC', sizes, kinds)]
    if ctx.sym:
        from .. import npshim
        for f, k in zip((A, B, C), kinds):
            if k == 'orth':
                ctx.e.qr_known.append((f, f, npshim.eye(rank)))

    def state():
        d = m.decomposition
        return [d.A.copy(), d.blueprint_B.copy(), d.C.copy()], [p.copy() for p in d.projection_matrices]

    def factor(self, mode):
        before, n = state(), len(calls)
        real['factor'](self, mode)
        log.append((mode, before, state(), calls[n:]))

    def project(self):
        before, n = state(), len(calls)
        real['project'](self)
        log.append(('P', before, state(), calls[n:]))
    # the error measures only steer the stopping rules here
    one = property(lambda self: 1)
    places = [(P2, 'loss', one), (P2, 'SSE', one), (CP, 'SSE', one), (CP, 'loss', one), (CP, '_update_als_factor', factor),
              (P2, '_update_projection_matrices', project)]
    old = [(c, n, c.__dict__.get(n)) for c, n, _ in places]
    real = dict(factor=CP._update_als_factor, project=P2._update_projection_matrices)
    for c, n, f in places:
        setattr(c, n, f)
    try:
        with normaleq.recorded(ctx, calls):
            d = start(ctx, m, X, I, J, rank, A, B, C, shared)
            first = state()
            m.continue_fit(max_its=its)
    finally:
        for c, n, f in old:
            if f is None:
                delattr(c, n)
            else:
                setattr(c, n, f)
    ctx.assume_that(len(log) > 0)
    per = 1 + 3 * ups
    ctx.check(len(log) == per * its, 'as many updates as iterations and sweeps')
    held = first
    for q, (mode, before, after, used) in enumerate(log):
        label = 'update %d' % q
        if q % per == 0:
            ctx.check(mode == 'P', 'an iteration starts with the projections')
            for s in range(q + 1, q + per, 3):
                ctx.check(sorted(map(str, (l[0] for l in log[s:s + 3]))) == ['0', '1', '2'], 'one sweep updates every mode once')
        U, P = before
        for a, b in zip(U + P, held[0] + held[1]):
            ctx.eq(a, b, label + ': nothing else changes the components', observe=False)
        held = after
        for i in range(3):
            if i != mode:
                ctx.eq(after[0][i], U[i], label + ': other factors untouched', observe=False)
        if mode == 'P':
            for k in range(len(J)):
                M = spec.matmul(S[k].T, spec.matmul(U[0] * U[2][k], U[1].T))
                normaleq.projection(ctx, M, after[1][k], used, label + ' slice %d' % k)
            continue
        for a, b in zip(after[1], P):
            ctx.eq(a, b, label + ': projections untouched', observe=False)
        Y = projected(S, P)
        normaleq.optimal(ctx, normaleq.normal(U, mode), spec.mttkrp(Y, U, mode), lam[mode], kinds[mode], after[0][mode], used, label)
    now = state()
    for a, b in zip(now[0] + now[1], held[0] + held[1]):
        ctx.eq(a, b, 'the components are those of the last update', observe=False)
