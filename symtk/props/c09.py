"""C09: CMTF: joint loss, optimal coupled updates, shared factors, normalisation."""
import numpy as np
from . import spec, normaleq

BOUNDS = ('tensors of order 2-3 with mode lengths 1-3, 0-3 coupled matrices of 1-3 columns on any modes (up to three on one mode), rank 1-2; arbitrary '
          'data, factors, matrices and penalties; single updates under every constraint and active set; error measures with updates that return '
          'arbitrary matrices; all updates of fits of one or two sweeps with the solvers reduced to their contracts: orders 2-4, lengths 1-6, ranks 1-5, '
          'up to three matrices of up to 6 columns')
ASSUMPTIONS = ['normal equations of full rank (singular values within a factor 1e6)']
LIMITS = dict(max_paths=200, time=60)
LIMITS_OPAQUE = dict(max_paths=300, time=60, opaque=('abs',))


def configs(tier):
    c = []
    big = tier == 'thorough'

    def add(what, shape, rank, coup, mode=0, kind='plain', hist=()):
        n = '%s-%s-r%d-%s%s' % (what, 'x'.join(map(str, shape)), rank, '.'.join('m%dw%d' % q for q in coup) or 'none',
                                '-m%d-%s' % (mode, kind) if what in ('update', 'matrix') else '')
        if hist:
            n += '-' + '-'.join(hist)
        if what not in ('update', 'matrix') and kind != 'plain':
            n += '-' + kind
        c.append(dict(name=n, what=what, shape=shape, rank=rank, coup=tuple(coup), mode=mode, kind=kind, hist=tuple(hist),
                      limits=LIMITS_OPAQUE if what == 'errors' else LIMITS, **(dict(layout=None) if 'same' in hist else {})))
    for r in (2,):
        # arbitrary active sets: one row, few columns
        add('update', (1, 2), r, [(0, 1)], 0, 'nonneg')
        add('matrix', (2, 2), r, [(0, 1)], 0, 'nonneg')
        add('matrix', (2, 3, 1), r, [(1, 1)], 1, 'nonneg')
        if big:
            add('update', (1, 2), r, [(0, 2)], 0, 'nonneg')
            add('update', (2, 1), r, [(1, 1), (1, 1)], 1, 'nonneg')
            add('update', (2, 1, 2), r, [(1, 1)], 1, 'nonneg')
            add('update', (1, 2), r, [(1, 1), (0, 2)], 0, 'nonneg')
            add('matrix', (2, 2), r, [(1, 1), (1, 1)], 1, 'nonneg')
    for kind in ('plain', 'nonneg', 'ridge'):
        s = 1 if kind == 'nonneg' else 2
        for r in (1, 2) if kind != 'nonneg' else (1,):
            add('update', (s, 2), r, [(0, 2)], 0, kind)
            add('update', (2, s, 2), r, [(1, 1)], 1, kind)
            add('update', (2, s), r, [(1, 1), (1, 2)], 1, kind)
            add('update', (s, 2), r, [(1, 1), (0, 2)], 0, kind)
            add('update', (s, 2, 1), r, [(1, 2)], 0, kind)
            add('update', (2, 2, s), r, [(0, 1), (2, 1), (1, 1)], 2, kind)
            if big:
                add('update', (2, s), r, [(1, 1), (0, 1), (1, 2), (1, 1)], 1, kind)
                add('update', (2, s, 2), r, [(1, 3), (0, 1), (1, 1)], 1, kind)
                add('update', (1, 2, s), r, [(2, 3)], 2, kind)
            if kind != 'ridge':
                add('matrix', (2, 2), r, [(0, s)], 0, kind)
                add('matrix', (2, 2), r, [(1, s), (1, 1)], 1, kind)
                add('matrix', (2, 2, 2), r, [(2, 1), (0, s)], 2, kind)
                add('matrix', (2, 3, 2), r, [(1, s)], 1, kind)
                if big:
                    add('matrix', (2, 2, 2), r, [(2, 1), (0, s), (2, s)], 2, kind)
    for coup in ([(0, 2)], [(1, 1), (1, 2)], [(1, 2), (0, 1)], [(0, 1), (1, 1), (0, 2)]):
        for kind in ('plain', 'nonneg', 'ridge'):
            add('errors', (2, 2), 1, coup, 0, kind, ['start'])
            add('errors', (2, 2), 1, coup, 0, kind, ['fit'])
        add('errors', (2, 2), 2, coup, 0, 'plain', ['start'])
        add('errors', (2, 1, 2), 2, coup, 0, 'plain', ['start', 'update0', 'update2'])
        add('errors', (2, 1, 2), 1, coup, 0, 'nonneg', ['start', 'update1'])
        if len(coup) == 1 or big:
            add('errors', (2, 2), 1, coup, 0, 'plain', ['fit', 'fit'])
            add('errors', (2, 2), 1, coup, 0, 'plain', ['fit', 'start', 'sweep'])
        add('errors', (2, 2), 1, coup, 0, 'plain', ['start', 'sweep', 'update1'])
        add('errors', (2, 2), 1, coup, 0, 'plain', ['start', 'same'])
        add('errors', (2, 2), 1, coup, 0, 'ridge', ['start', 'same', 'sweep'])
        for w in (0, 1):
            add('same', (2, 2), 1, coup, w)
            add('same', (2, 2), 1, coup, w, 'nonneg')
            if big or len(coup) == 1:
                add('same', (1, 2, 1), 2, coup, w)
        c[-1]['name'] += '-w'
    for shape, rank, coup, its in [((3, 4, 5), 4, [(0, 3), (2, 6)], 1), ((5, 2), 5, [(0, 3)], 2), ((2, 3, 2, 2), 3, [(3, 4), (3, 2), (1, 5)], 1),
                                   ((4, 4), 3, [(1, 2), (0, 1), (1, 3)], 2), ((6, 2, 2), 2, [(0, 1)], 2), ((3, 3, 3), 3, [(2, 2), (0, 4)], 1)] + \
            ([((4, 5, 3), 6, [(1, 7)], 1), ((3, 2, 2), 2, [(0, 3), (0, 2), (0, 1), (1, 1)], 3), ((2, 2, 2, 2, 2), 2, [(4, 2)], 1)] if big else []):
        for kind in ('plain', 'ridge', 'nonneg', 'mixed'):
            add('fit', shape, rank, coup, its, kind)
    for shape, rank, coup in [((2, 3), 1, [(0, 2)]), ((2, 2, 3), 2, [(1, 2)]), ((3, 2, 2), 1, [(0, 1), (2, 1)])] + \
            ([((2, 2), 2, [(1, 2)]), ((2, 2, 2, 1), 1, [(1, 1), (1, 2)])] if big else []):
        for kind in ('plain', 'mixed'):
            # the normalisation between the parts changes the factors
            add('fit', shape, rank, coup, 2, kind, ['continued'])
            for early in ('refit', 'moved'):
                add('fit', shape, rank, coup, 1, kind, [early])
    seen = {}
    for q in c:
        if q['what'] == 'same':
            q['name'] += '-its%d' % q['mode']
        k = seen[q['name']] = seen.get(q['name'], -1) + 1
        if k:
            q['name'] += '-%d' % k
    return c


class World:
    def __init__(self, ctx, shape, rank, coup, kinds, max_its):
        self.ctx, self.shape, self.rank, self.coup = ctx, shape, rank, coup
        self.modes = [m for m, _ in coup]
        self.lam = [ctx.real('lam%d' % n, (), pos=True) if k == 'ridge' else 0 for n, k in enumerate(kinds)]
        kw = {}
        if 'ridge' in kinds:
            kw['ridge_penalties'] = list(self.lam)
        if 'nonneg' in kinds:
            kw['non_negativity_constraints'] = [k == 'nonneg' for k in kinds]
        self.kinds = kinds
        self.inside = []
        w = self

        class Log:
            def log(self, model):
                w.in_fit(model)

            def write_to_hdf5_group(self, h):
                pass
        self.m = ctx.tk.cmtf.CMTF_ALS(rank, max_its=max_its, convergence_tol=-1, rel_loss_tol=-1, init='precomputed', loggers=[Log()], **kw)

    def in_fit(self, model):
        pass

    def data(self, tag, pos=False):
        ctx = self.ctx
        self.X = ctx.real(tag + 'X', self.shape, pos=pos)
        self.Y = [ctx.real('%sY%d' % (tag, i), (self.shape[m], n), pos=pos) for i, (m, n) in enumerate(self.coup)]
        self.given = list(self.Y)
        self.snap = ctx.copy([self.X] + self.Y)

    def unit(self, s):
        """columns of length one"""
        ctx, f = self.ctx, self.ctx.zeros((s, self.rank))
        for r in range(self.rank):
            f[r % s, r] = 1
        return f

    def again(self, tag):
        """other values in the same array and the same list"""
        X, Y = self.X, self.given
        self.data(tag)
        X[...] = self.X
        Y[:] = self.Y
        self.X = X

    def start(self, d=None):
        d = d or self.ctx.tk.decs.KruskalTensor([self.unit(s) for s in self.shape])
        self.m._init_fit(self.X, self.given, list(self.modes), None, d)

    def setall(self, tag):
        ctx, m = self.ctx, self.m
        self.U = [ctx.real('%sU%d' % (tag, n), (s, self.rank)) for n, s in enumerate(self.shape)]
        self.V = [ctx.real('%sV%d' % (tag, i), (n, self.rank)) for i, (_, n) in enumerate(self.coup)]
        for f, u in zip(m.factor_matrices, self.U):
            f[...] = u
        for i, v in enumerate(self.V):
            m.uncoupled_factor_matrices[i][...] = v

    def recon(self):
        m = self.m
        return spec.kruskal(list(m.decomposition.factor_matrices), m.decomposition.weights), \
            [spec.matmul(m.decomposition.factor_matrices[k], m.uncoupled_factor_matrices[i].T) for i, k in enumerate(self.modes)]

    def intact(self):
        self.ctx.unchanged([self.X] + self.Y, self.snap, 'data untouched')


def harness(ctx, what, shape, rank, coup, mode, kind, hist):
    dict(update=update, matrix=matrix, errors=errors, same=same, fit=fit)[what](ctx, shape, rank, coup, mode, kind, hist)


def normal(ctx, V, kind, rank):
    if kind == 'ridge':
        return
    if rank > 1:
        if not ctx.sym:
            ctx.assume_that(np.linalg.cond(np.asarray(V, dtype=float)) < 1e5)
        ctx.assume(spec.det(V), '!=')
    else:
        ctx.assume(V[0, 0], '>', 1e-2)


def optimal(ctx, new, V, M, kind, label):
    grad = spec.matmul(new, V if kind == 'nonneg' else ctx.named(V)) - M
    if kind == 'nonneg':
        for i, r in np.ndindex(*grad.shape):
            ctx.ge(new[i, r], 0, label + ': nonnegative')
            ctx.eq(new[i, r] * grad[i, r], 0, label + ': complementary')
            ctx.ge(grad[i, r], 0, label + ': no descent direction')
    else:
        ctx.eq(grad, 0 * grad, label + ': stationary')


def update(ctx, shape, rank, coup, mode, kind, hist):
    kinds = ['plain'] * len(shape)
    kinds[mode] = kind
    w = World(ctx, shape, rank, coup, kinds, 1)
    w.data('')
    w.start()
    w.setall('')
    U, V, m = w.U, w.V, w.m
    G = np.empty((rank, rank), dtype=object)
    G[...] = 1
    for i, f in enumerate(U):
        if i != mode:
            G = G * spec.gram(f)
    M = spec.mttkrp(w.X, U, mode)
    for i, k in enumerate(w.modes):
        if k == mode:
            G = G + spec.gram(V[i])
            M = M + spec.matmul(w.Y[i], V[i])
    for r in range(rank):
        G[r, r] = G[r, r] + w.lam[mode]
    normal(ctx, G, kind, rank)
    if ctx.sym and kind == 'plain' and rank > 1:
        # the solver contract may have named the entries of the left hand side instead of its Gram matrix
        A = np.concatenate([spec.khatri_rao([f for i, f in enumerate(U) if i != mode])] + [V[i] for i, k in enumerate(w.modes) if k == mode])
        B = np.concatenate([spec.unfold(w.X, mode)] + [w.Y[i] for i, k in enumerate(w.modes) if k == mode], axis=1)
    else:
        A = B = None
    snap = ctx.copy(U + V)
    m._update_als_factor(mode)
    n = len(U)
    for i in range(n):
        if i != mode:
            ctx.eq(m.decomposition.factor_matrices[i], snap[i], 'other factor untouched', observe=False)
    for i in range(len(V)):
        ctx.eq(m.uncoupled_factor_matrices[i], snap[n + i], 'uncoupled factors untouched', observe=False)
    new = m.decomposition.factor_matrices[mode]
    ctx.check(new.shape == (shape[mode], rank), 'shape')
    if A is not None:
        N = ctx.named(A)
        if any(x is not y and x.n != y.n for x, y in zip(N.reshape(-1), A.reshape(-1))):
            grad = spec.matmul(new, spec.gram(N)) - spec.matmul(B, N)
            ctx.eq(grad, 0 * grad, 'update: stationary')
            w.intact()
            return
    optimal(ctx, new, G, M, kind, 'update')
    w.intact()


def matrix(ctx, shape, rank, coup, mode, kind, hist):
    """the matrix-only factors, with the shared factors held still during the sweep"""
    kinds = ['plain'] * len(shape)
    for k, _ in coup:
        kinds[k] = kind
    w = World(ctx, shape, rank, coup, kinds, 1)
    w.data('')
    w.start()
    w.setall('')
    m = w.m
    for k in set(w.modes):
        normal(ctx, spec.gram(w.U[k]), 'plain', rank)
    snap = ctx.copy(w.U)
    m._update_als_factor = lambda mode: None
    m._update_als_factors()
    for i in range(len(shape)):
        ctx.eq(m.decomposition.factor_matrices[i], snap[i], 'tensor factors untouched', observe=False)
    for i, k in enumerate(w.modes):
        new = m.uncoupled_factor_matrices[i]
        A = snap[k]
        ctx.check(new.shape == (coup[i][1], rank), 'shape')
        N = ctx.named(A)
        G = spec.gram(A)
        if kind == 'plain' and ctx.sym and any(x is not y and x.n != y.n for x, y in zip(N.reshape(-1), A.reshape(-1))):
            G = spec.gram(N)
            A = N
        grad = spec.matmul(new, ctx.named(G) if A is not N else G) - spec.matmul(w.Y[i].T, A)
        if kind == 'nonneg':
            grad = spec.matmul(new, spec.gram(snap[k])) - spec.matmul(w.Y[i].T, snap[k])
            for a, r in np.ndindex(*grad.shape):
                ctx.ge(new[a, r], 0, 'matrix %d: nonnegative' % i)
                ctx.eq(new[a, r] * grad[a, r], 0, 'matrix %d: complementary' % i)
                ctx.ge(grad[a, r], 0, 'matrix %d: no descent direction' % i)
        else:
            ctx.eq(grad, 0 * grad, 'matrix %d: stationary' % i, observe=False)
    w.intact()


def look(ctx, w, label):
    m = w.m
    T, R = w.recon()
    sse = spec.sumsq(w.X - T)
    n = int(np.prod(w.shape))
    for y, r in zip(w.Y, R):
        sse = sse + spec.sumsq(y - r)
        n += int(np.prod(y.shape))
    ctx.assume(sse, '>', 1e-6)
    ctx.eq(m.SSE, sse, label + ': SSE')
    ctx.eq(m.MSE, sse / n, label + ': MSE')
    ctx.eq(m.RMSE, ctx.sqrt(sse / n), label + ': RMSE')
    loss = sse
    for l, f in zip(w.lam, m.decomposition.factor_matrices):
        loss = loss + l * spec.sumsq(f)
    ctx.eq(m.loss, loss, label + ': loss')
    for a, b in zip(m.reconstructed_coupled_matrices, R):
        ctx.eq(a, b, label + ': reconstructed matrix', observe=False)


def stub(ctx, base):
    old = {k: getattr(base, k) for k in ('rightsolve', 'non_negative_rightsolve', 'orthogonal_rightsolve')}
    cnt = [0]

    def anything(A, B):
        cnt[0] += 1
        return ctx.real('new%d' % cnt[0], (B.shape[0], A.shape[0]))
    for k in old:
        setattr(base, k, anything)
    return old


def errors(ctx, shape, rank, coup, mode, kind, hist):
    base = ctx.tk.base
    w = World(ctx, shape, rank, coup, [kind] + ['plain'] * (len(shape) - 1), 1)
    w.in_fit = lambda model: look(ctx, w, 'in fit')
    old = stub(ctx, base)
    try:
        for step, ev in enumerate(hist):
            tag = 'e%d' % step
            final = False
            if ev in ('start', 'fit', 'same'):
                if ev == 'same':
                    held = w.given
                    w.again(tag)
                    w.given = held
                    ev = 'start'
                else:
                    w.data(tag)
                for r in range(1):
                    ctx.assume(spec.sumsq(w.X), '>', 1e-3)
                d = ctx.tk.decs.KruskalTensor([w.unit(s) for s in shape])
                if ev == 'start':
                    w.start(d)
                    w.setall(tag)
                else:
                    dec, pairs = w.m.fit_transform(w.X, list(w.Y), list(w.modes), max_its=1, initial_decomposition=d)
                    ctx.check(len(pairs) == len(coup), tag + ': one pair per matrix')
                    for (A, V), k, i in zip(pairs, w.modes, range(len(coup))):
                        ctx.eq(A, dec.factor_matrices[k], tag + ': factor of the coupled mode', observe=False)
                        ctx.eq(V, w.m.uncoupled_factor_matrices[i], tag + ': matrix factor', observe=False)
                        # the pair is the very reconstruction the error refers to
                        ctx.eq(spec.matmul(A, V.T), w.m.reconstructed_coupled_matrices[i], tag + ': returned matrix', observe=False)
                    final = True
            elif ev.startswith('update'):
                w.m._update_als_factor(int(ev[6:]))
            elif ev == 'sweep':
                w.m._update_als_factors()
            look(ctx, w, tag)
            w.intact()
    finally:
        for k, f in old.items():
            setattr(base, k, f)


def same(ctx, shape, rank, coup, its, kind, hist):
    """the rescaling to unit components before and after the iterations changes neither tensor nor matrices"""
    base = ctx.tk.base
    w = World(ctx, shape, rank, coup, [kind] * len(shape), its)
    w.data('')
    old = stub(ctx, base)
    seen = []
    cls = type(w.m)
    sse = cls.SSE
    # the error only steers the stopping rule here
    cls.SSE = property(lambda self: 1)
    ctx.assume(spec.sumsq(w.X), '>', 1e-3)

    def grab(model):
        for n, f in enumerate(model.decomposition.factor_matrices):
            for r in range(rank):
                ctx.assume(spec.sumsq(f[:, r]), '>', 1e-2)
        seen.append(w.recon())
    w.in_fit = grab
    try:
        U = []
        for n, s in enumerate(shape):
            f = ctx.zeros((s, rank))
            for r in range(rank):
                f[:, r] = ctx.real('l%d_%d' % (n, r), (), pos=True) * ctx.orthonormal('u%d_%d' % (n, r), s, 1)[:, 0]
            U.append(f)
        wt = ctx.real('w', (rank,), pos=True)
        d = ctx.tk.decs.KruskalTensor(U, wt)
        before = spec.kruskal(U, wt)
        w.start(d)
        for i, (_, n) in enumerate(coup):
            w.m.uncoupled_factor_matrices[i][...] = ctx.real('V%d' % i, (n, rank))
        T, R = w.recon()
        ctx.eq(T, before, 'tensor at the start')
        w.m.continue_fit(max_its=its)
        if its:
            ctx.check(len(seen) == 1, 'one iteration')
            T, R = seen[0]
        T2, R2 = w.recon()
        ctx.eq(T2, T, 'tensor')
        for a, b in zip(R2, R):
            ctx.eq(a, b, 'matrix')
        for n, f in enumerate(w.m.decomposition.factor_matrices):
            for r in range(rank):
                ctx.eq(spec.sumsq(f[:, r]), 1, 'unit')
        w.intact()
    finally:
        cls.SSE = sse
        for k, f in old.items():
            setattr(base, k, f)


def fit(ctx, shape, rank, coup, its, kind, hist):
    """every update of a whole fit, for sizes beyond what the solvers can be executed on"""
    cls = ctx.tk.cmtf.CMTF_ALS
    ctx.assume_that(hasattr(cls, '_update_als_factor') and hasattr(cls, '_update_uncoupled_matrix_factors'))
    N = len(shape)
    kinds = [kind] * N if kind != 'mixed' else [['nonneg', 'plain', 'ridge'][i % 3] for i in range(N)]
    calls, log = [], []

    def state(m):
        return [f.copy() for f in m.factor_matrices], [v.copy() for v in m.uncoupled_factor_matrices]

    class Model(cls):
        # the error measures are decided elsewhere
        SSE = loss = property(lambda self: 1)

        def _update_als_factor(self, mode):
            before, n = state(self), len(calls)
            super()._update_als_factor(mode)
            log.append((mode, before, state(self), calls[n:]))

        def _update_uncoupled_matrix_factors(self):
            before, n = state(self), len(calls)
            super()._update_uncoupled_matrix_factors()
            log.append((None, before, state(self), calls[n:]))
    old = ctx.tk.cmtf.CMTF_ALS
    ctx.tk.cmtf.CMTF_ALS = Model
    try:
        w = World(ctx, shape, rank, coup, kinds, its)
    finally:
        ctx.tk.cmtf.CMTF_ALS = old
    early = hist[0] if hist and hist[0] != 'continued' else None
    hist = () if early else hist
    if early:
        # an earlier fit, maybe to matrices coupled to other modes
        now = w.coup, w.modes
        if early == 'moved':
            w.coup = tuple(((k + 1) % N, n) for k, n in coup[:1]) + tuple(coup)
            w.modes = [k for k, _ in w.coup]
        w.data('old')
        w.start()
        w.coup, w.modes = now
    w.data('')
    w.start()
    w.setall('')
    m = w.m
    final = []
    with normaleq.recorded(ctx, calls):
        def in_fit(model):
            final.append(state(model))
            if len(final) == its or hist:
                # the normalisation that follows is decided elsewhere
                for f in final[-1][0]:
                    for r in range(rank):
                        ctx.assume((f[:, r]**2).sum(), '>', 1e-6)
        w.in_fit = in_fit
        for i in range(1, its + 1) if hist else [its]:
            m.continue_fit(max_its=i)
    ctx.assume_that(len(log) > 0)
    ctx.check(len(final) == its, 'as many iterations as asked for')
    per = N + 1
    ctx.check(len(log) == per * its, 'as many updates as modes and iterations')
    held = None
    for q, (mode, before, after, used) in enumerate(log):
        label = 'update %d' % q
        if q % per == 0:
            ctx.check({l[0] for l in log[q:q + per]} == set(range(N)) | {None}, 'one sweep updates everything once')
        U, V = before
        if held and not (hist and q % per == 0):
            for a, b in zip(U + V, held[0] + held[1]):
                ctx.eq(a, b, label + ': nothing else changes the factors', observe=False)
        held = after
        for i in range(N):
            if i != mode:
                ctx.eq(after[0][i], U[i], label + ': other factors untouched', observe=False)
        if mode is None:
            for i, k in enumerate(w.modes):
                normaleq.optimal(ctx, spec.gram(U[k]), spec.matmul(w.Y[i].T, U[k]), 0, 'nonneg' if kinds[k] == 'nonneg' else 'plain', after[1][i],
                                 used, label + ' matrix %d' % i)
            continue
        for i in range(len(V)):
            ctx.eq(after[1][i], V[i], label + ': the matrices of the coupled data untouched', observe=False)
        G, M = normaleq.normal(U, mode), spec.mttkrp(w.X, U, mode)
        for i, k in enumerate(w.modes):
            if k == mode:
                G = G + spec.gram(V[i])
                M = M + spec.matmul(w.Y[i], V[i])
        normaleq.optimal(ctx, G, M, w.lam[mode], kinds[mode], after[0][mode], used, label)
    for a, b in zip(final[-1][0] + final[-1][1], held[0] + held[1]):
        ctx.eq(a, b, 'the factors are those of the last update', observe=False)
    w.intact()
