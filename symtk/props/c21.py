"""C21: initialisations yield valid starting points."""
import numpy as np
from . import spec

BOUNDS = ('random Kruskal and PARAFAC2 tensors, CP / CMTF / PARAFAC2 models with every init: 1-3 modes (4 thorough) of length 1-3, ranks 1-3, slice widths 1-3 (not less '
          'than the rank); every random draw; SVD init with arbitrary 2x2 to 3x2x1 data of full rank; CP init of PARAFAC2 with whatever the inner CP fit returns; '
          'all combinations of non-negative and orthonormal modes; given and stored decompositions arbitrary, weights included; generated data')
ASSUMPTIONS = ['random draws are not zero (probability zero)', 'singular values of the unfoldings distinct from zero (within a factor 1e6)']
LIMITS = dict(max_paths=400, time=60, opaque=('abs',))
EXACT = dict(max_paths=200, time=60)


def configs(tier):
    big = tier == 'thorough'
    c = []

    def add(name, limits=LIMITS, **k):
        c.append(dict(name=name, limits=limits, **k))
    for shape in [(2,), (2, 3), (1, 2), (3, 2, 2)] + ([(2, 1, 2, 2), (4, 3)] if big else []):
        for r in (1, 2) + ((3,) if len(shape) == 2 else ()):
            for method in ('normal', 'uniform', 'default'):
                add('kruskal-%s-r%d-%s' % ('x'.join(map(str, shape)), r, method), what='kruskal', shape=shape, rank=r, method=method)
    for J, r in [((2, 2), 1), ((2, 2), 2), ((1, 3), 1), ((3, 2, 2), 2), (2, 1), (2, 2), (3, 2)] + ([((3, 3), 3), ((4, 2), 2), ((1, 2, 3, 1), 1)] if big else []):
        add('parafac2-%s-r%d' % ('.'.join(map(str, J)) if isinstance(J, tuple) else 'all%d' % J, r), what='parafac2', J=J, rank=r)
    for shape, r in [((2, 2), 1), ((2, 3), 2), ((2, 1, 2), 1), ((2, 2, 3), 2)]:
        for kind in ('cp', 'cmtf'):
            if kind == 'cmtf' and len(shape) == 3 and not big:
                continue
            add('random-%s-%s-r%d' % (kind, 'x'.join(map(str, shape)), r), what='random', kind=kind, shape=shape, rank=r)
    for r in (1, 2):
        add('random-parafac2-r%d' % r, what='random', kind='parafac2', shape=(2, (2, 3)), rank=r)
        add('random-parafac2-array-r%d' % r, what='random', kind='parafac2', shape=(2, (2, 2)), rank=r)
    for shape, r in [((2, 2), 1), ((2, 2), 2), ((2, 1), 1), ((3, 2), 1), ((1, 2, 2), 1), ((2, 3), 2)] + ([((3, 2), 2), ((3, 3), 1), ((3, 3), 2), ((2, 2, 1), 1)] if big else []):
        add('svd-%s-r%d' % ('x'.join(map(str, shape)), r), EXACT, what='svd', shape=shape, rank=r)
    for shape, r in [((2, 2), 1), ((2, 2), 2), ((3, 2), 1)]:
        add('svd-again-%s-r%d' % ('x'.join(map(str, shape)), r), EXACT, what='svd', shape=shape, rank=r, again=True)
    for I, J, r in [(1, (1, 2), 1), (2, (2, 2), 1), (2, (1, 3), 1), (2, (2, 2), 2), (2, (2, 3), 2)] + ([(3, (2, 3), 2), (3, (2, 1), 1)] if big else []):
        add('svd-parafac2-%dx%s-r%d' % (I, '.'.join(map(str, J)), r), EXACT, what='svdp2', I=I, J=J, rank=r)
    for I, J, r in [(2, (2, 2), 1), (2, (1, 3), 1)]:
        add('svd-parafac2-again-%dx%s-r%d' % (I, '.'.join(map(str, J)), r), EXACT, what='svdp2', I=I, J=J, rank=r, again=True)
    for form in ('list', 'array'):
        add('cp-parafac2-again-%s' % form, EXACT, what='cpp2', I=2, J=2, K=2, rank=1, form=form, again=True)
    for I, J, K, r in [(2, 2, 2, 1), (2, 2, 2, 2), (1, 3, 2, 1), (2, 3, 3, 2)]:
        for form in ('list', 'array'):
            add('cp-parafac2-%dx%dx%d-r%d-%s' % (I, J, K, r, form), EXACT, what='cpp2', I=I, J=J, K=K, rank=r, form=form)
    for kind in ('cp', 'cmtf'):
        for how in ('given', 'stored', 'file'):
            for shape, r in [((2, 2), 1), ((2, 3), 2), ((2, 1, 2), 2)]:
                if kind == 'cmtf' and len(shape) == 3 and not big:
                    continue
                add('%s-%s-%s-r%d' % (how, kind, 'x'.join(map(str, shape)), r), what='given', kind=kind, how=how, shape=shape, rank=r)
    for orth in (0, 1):
        for kind in ('cp', 'cmtf'):
            add('given-%s-shared%d' % (kind, orth), what='given', kind=kind, how='given', shape=[(2, 3, 2), (2, 2)][orth], rank=2 - orth, shared=True)
        add('given-cp-orth%d' % orth, what='given', kind='cp', how='given', shape=(2, 3), rank=2, orth=orth)
    for how in ('given', 'stored', 'file'):
        for J, r in [((2, 2), 1), ((2, 3), 2), ((1, 2, 3), 1)]:
            add('%s-parafac2-%s-r%d' % (how, '.'.join(map(str, J)), r), what='givenp2', how=how, J=J, rank=r)
    for shape, r in [((2, 2), 1), ((2, 3), 2), ((2, 1, 2), 1)]:
        for fn in ('create_data', 'create_non_negative_data'):
            add('%s-%s-r%d' % (fn, 'x'.join(map(str, shape)), r), what='create', fn=fn, shape=shape, rank=r)
    return c


def harness(ctx, what, **k):
    globals()['h_' + what](ctx, **k)


def unit(ctx, F, label):
    for r in range(F.shape[1]):
        ctx.eq(spec.sumsq(F[:, r]), 1, label + ': unit columns')


def orthonormal(ctx, F, label):
    ctx.eq(spec.gram(F), spec.identity(F.shape[1]), label + ': orthonormal columns')


def nonneg(ctx, F, label):
    ctx.ge(F, 0, label + ': non-negative')


def sizes(ctx, dec, shape, rank, label):
    ctx.check(dec.rank == rank and [f.shape for f in dec.factor_matrices] == [(s, rank) for s in shape], label + ': sizes and rank')


def h_kruskal(ctx, shape, rank, method):
    K = ctx.tk.decs.KruskalTensor
    d = K.random_init(shape, rank) if method == 'default' else K.random_init(shape, rank, random_method=method)
    sizes(ctx, d, shape, rank, 'random')
    for f in d.factor_matrices:
        unit(ctx, f, 'random')
        if method == 'uniform':
            nonneg(ctx, f, 'uniform')
    ctx.eq(d.weights, np.ones(rank, dtype=int), 'unit weights')


def h_parafac2(ctx, J, rank):
    widths = (J, J) if isinstance(J, int) else tuple(J)
    d = ctx.tk.decs.Parafac2Tensor.random_init([2, J if isinstance(J, int) else list(J), len(widths)], rank)
    check_p2(ctx, d, 2, widths, rank, 'random')


def check_p2(ctx, d, I, widths, rank, label):
    ctx.check(d.rank == rank and d.A.shape == (I, rank) and d.blueprint_B.shape == (rank, rank) and d.C.shape == (len(widths), rank), label + ': sizes and rank')
    ctx.check([p.shape for p in d.projection_matrices] == [(w, rank) for w in widths], label + ': projections of the right size')
    for p in d.projection_matrices:
        orthonormal(ctx, p, label + ': projections')
    # the updates write into the arrays: every slice has its own
    held = [ctx.copy(p) for p in d.projection_matrices]
    for k, p in enumerate(d.projection_matrices):
        p[...] = p * (k + 2)
    for k, (p, q) in enumerate(zip(d.projection_matrices, held)):
        ctx.eq(p, q * (k + 2), label + ': updating one projection matrix leaves the others alone')
        p[...] = q


def h_random(ctx, kind, shape, rank):
    N = 3 if kind == 'parafac2' else len(shape)
    rows = (shape[0], rank, len(shape[1])) if kind == 'parafac2' else shape
    # a mode cannot be both; an orthonormal one needs as many rows as columns
    kinds = [ctx.choice('mode%d' % i, ['free', 'nn'] + (['orth'] if rows[i] >= rank and not (kind == 'parafac2' and i == 1) else [])) for i in range(N)]
    nn, orth = [k == 'nn' for k in kinds], [k == 'orth' for k in kinds]
    given = ctx.choice('lists', [True, False]) if not any(nn) and not any(orth) else True
    kw = dict(non_negativity_constraints=list(nn), orthonormality_constraints=list(orth)) if given else {}
    cls = dict(cp=ctx.tk.cp.CP_ALS, cmtf=ctx.tk.cmtf.CMTF_ALS, parafac2=ctx.tk.parafac2.Parafac2_ALS)[kind]

    class Model(cls):
        # the error measures are decided elsewhere
        SSE = loss = property(lambda self: 1)
    with ctx.quiet():
        m = Model(rank, init='random' if any(nn) or any(orth) else ctx.choice('init', ['random', 'Random']), max_its=0, print_frequency=-1, **kw)
    if kind == 'parafac2':
        X = [ctx.const(np.ones((shape[0], j), dtype=int)) for j in shape[1]]
        if len(set(shape[1])) == 1:
            X = ctx.const(np.ones((shape[0], shape[1][0], len(shape[1])), dtype=int))
        m.fit(X)
        d = m.decomposition
        check_p2(ctx, d, shape[0], shape[1], rank, 'random')
        F = [d.A, d.blueprint_B, d.C]
    else:
        X = ctx.const(np.ones(shape, dtype=int))
        if kind == 'cmtf':
            modes = [0, 1]
            Y = [ctx.const(np.ones((shape[k], 2 + k), dtype=int)) for k in modes]
            m.fit(X, Y, modes)
            for k, v in zip(modes, m.uncoupled_factor_matrices):
                ctx.check(v.shape == (2 + k, rank), 'uncoupled matrices: sizes')
                unit(ctx, v, 'uncoupled matrices')
                if nn[k]:
                    nonneg(ctx, v, 'uncoupled matrices')
        else:
            m.fit(X)
        d = m.decomposition
        sizes(ctx, d, shape, rank, 'random')
        F = d.factor_matrices
        ctx.eq(d.weights, np.ones(rank, dtype=int), 'random: unit weights')
        for f in F:
            unit(ctx, f, 'random')
    for f, a, b in zip(F, nn, orth):
        if a:
            nonneg(ctx, f, 'non-negative mode')
        if b:
            orthonormal(ctx, f, 'orthonormal mode')
    ctx.check(m.current_iteration == 0, 'no iteration made')


def h_svd(ctx, shape, rank, again=False):
    # data with at most two modes longer than one, built from its singular value decomposition
    m, n = ([s for s in shape if s > 1] + [1, 1])[:2]
    k = min(m, n)
    U, V = ctx.orthonormal('U', m, k), ctx.orthonormal('V', n, k)
    S = ctx.zeros(k)
    for i in range(k - 1, -1, -1):
        S[i] = ctx.real('s%d' % i, (), pos=True)
        if i + 1 < k:
            ctx.assume(S[i] - S[i + 1], '>', 1e-3)
    M = ctx.zeros((m, n))
    M[:, :] = spec.matmul(U * S, V.T)
    ctx.svd_known(M, U, S, V.T)
    ctx.assume(spec.sumsq(M), '>', 1e-3)
    X = ctx.zeros(shape)
    X[...] = M.reshape(shape)
    snap = X.copy()

    class Model(ctx.tk.cp.CP_ALS):
        SSE = loss = property(lambda self: 1)
    mod = Model(rank, init=ctx.choice('init', ['svd', 'SVD']), max_its=0, print_frequency=-1)
    if again:
        # an earlier fit to other data of the same size
        E = [ctx.zeros((s, k)) for s in (m, n)]
        T = ctx.zeros(k)
        for i in range(k):
            E[0][m - 1 - i, i] = E[1][n - 1 - i, i] = 1
            T[i] = k + 1 - i
        M0 = ctx.zeros((m, n))
        M0[:, :] = spec.matmul(E[0] * T, E[1].T)
        ctx.svd_known(M0, E[0], T, E[1].T)
        X0 = ctx.zeros(shape)
        X0[...] = M0.reshape(shape)
        mod.fit(X0)
    mod.fit(X)
    d = mod.decomposition
    sizes(ctx, d, shape, rank, 'svd')
    ctx.eq(d.weights, np.ones(rank, dtype=int), 'svd: unit weights')
    for n, f in enumerate(d.factor_matrices):
        orthonormal(ctx, f, 'svd')
        if len(f) == 1:
            continue
        G = spec.matmul(spec.unfold(snap, n), spec.unfold(snap, n).T)
        for r in range(rank):
            # the leading singular vectors, in order
            v = spec.matmul(G, f[:, r:r + 1])
            ctx.eq(v[:, 0], S[r] * S[r] * f[:, r], 'svd: leading left singular vectors', observe=False)
    ctx.unchanged(X, snap, 'data untouched')


def h_svdp2(ctx, I, J, rank, again=False):
    X = [ctx.real('X%d' % k, (I, j)) for k, j in enumerate(J)]
    snap = ctx.copy(X)
    P2 = ctx.tk.parafac2
    ctx.assume_that(hasattr(P2, 'get_pca_loadings'))
    old = P2.get_pca_loadings
    seen = []
    A = ctx.real('A', (I, rank))

    def loadings(Y, r):
        seen.append((Y, r))
        return A.copy()

    class Model(P2.Parafac2_ALS):
        SSE = loss = property(lambda self: 1)
    # decided elsewhere: what the loadings are; here whatever they are
    P2.get_pca_loadings = loadings
    for x in snap:
        M = spec.matmul(A.T, x)
        ctx.fullrank(M if M.shape[0] == M.shape[1] else M.T)
    try:
        m = Model(rank, init=ctx.choice('init', ['svd', 'SVD']), max_its=0, print_frequency=-1)
        if again:
            m.fit([2 * x for x in X])
            seen.clear()
        m.fit(X)
    finally:
        P2.get_pca_loadings = old
    d = m.decomposition
    check_p2(ctx, d, I, J, rank, 'svd')
    ctx.check(len(seen) == 1 and seen[0][1] == rank, 'svd: loadings of the model\'s rank')
    want = 0
    for x in snap:
        want = want + spec.matmul(x, x.T)
    ctx.eq(seen[0][0], want, 'svd: loadings of the summed cross products')
    ctx.eq(d.A, A, 'svd: first factor')
    ctx.unchanged(X, snap, 'data untouched')


def h_cpp2(ctx, I, J, K, rank, form, again=False):
    P2, CP = ctx.tk.parafac2, ctx.tk.cp
    ctx.assume_that(hasattr(CP.CP_ALS, 'fit'))
    X = ctx.real('X', (I, J, K))
    S = [X[:, :, k] for k in range(K)]
    arg = [s.copy() for s in S] if form == 'list' else X
    snap = ctx.copy(S)
    U = [ctx.real('U%d' % n, (s, rank)) for n, s in enumerate((K, I))]
    # the third factor by its QR decomposition
    Q, R = ctx.orthonormal('Q', J, rank), ctx.zeros((rank, rank))
    for i in range(rank):
        for j in range(i, rank):
            R[i, j] = ctx.real('R%d%d' % (i, j), (), pos=i == j)
    U.append(spec.matmul(Q, R))
    if ctx.sym:
        ctx.e.qr_known.append((U[2], Q, R))
    seen = []

    def fit(self, Y, *a, **k):
        seen.append((Y, self.rank))
        self.decomposition = ctx.tk.decs.KruskalTensor([u.copy() for u in U])

    class Model(P2.Parafac2_ALS):
        SSE = loss = property(lambda self: 1)
    old = {n: CP.BaseCP.__dict__.get(n) for n in ('fit', 'fit_transform')}
    CP.BaseCP.fit = fit
    CP.BaseCP.fit_transform = lambda self, *a, **k: (fit(self, *a, **k), self.decomposition)[1]
    try:
        m = Model(rank, init=ctx.choice('init', ['cp', 'CP']), max_its=0, print_frequency=-1)
        if again:
            m.fit([2 * s for s in S] if form == 'list' else 2 * X)
            seen.clear()
        m.fit(arg)
    finally:
        for n, f in old.items():
            if f is not None:
                setattr(CP.BaseCP, n, f)
    d = m.decomposition
    check_p2(ctx, d, I, (J,) * K, rank, 'cp')
    ctx.check(len(seen) == 1 and seen[0][1] == rank and np.shape(seen[0][0]) == (K, I, J), 'cp: fits the data at the model\'s rank')
    ctx.eq(seen[0][0], np.stack(snap), 'cp: fits the data')
    C, A, B = U
    got = [spec.matmul(d.A * d.C[k], spec.matmul(d.projection_matrices[k], d.blueprint_B).T) for k in range(K)]
    for g, s in zip(got, spec.slices(A, [B] * K, C)):
        ctx.eq(g, s, 'cp: starts at the tensor of the CP model', observe=False)


def put(ctx, dec, path, kind):
    with ctx.h5py.File(path, 'w') as h:
        h.attrs['checkpoint_its'] = [1, 4]
        h.attrs['final_iteration'] = 4
        h.attrs['decomposition_type'] = kind
        dec.store_in_hdf5_group(h.create_group('checkpoint_00004'))


def h_given(ctx, kind, how, shape, rank, orth=None, shared=False):
    D = ctx.tk.decs
    U = []
    for n, s in enumerate(shape):
        if n == orth:
            U.append(ctx.orthonormal('U%d' % n, s, rank))
            if ctx.sym:
                q = ctx.zeros((rank, rank))
                q[...] = np.eye(rank, dtype=int)
                ctx.e.qr_known.append((U[-1], U[-1], q))
        else:
            U.append(ctx.real('U%d' % n, (s, rank)))
            if kind == 'cmtf':
                for r in range(rank):
                    ctx.assume(spec.sumsq(U[-1][:, r]), '>', 1e-3)
    # components of an orthonormal mode keep their length, so no weights go there
    w = ctx.real('w', (rank,)) if orth is None else ctx.const(np.ones(rank, dtype=int))
    if kind == 'cmtf':
        for r in range(rank):
            ctx.assume(w[r], '!=', 1e-3)
    if shared:
        U[-1] = U[0]
    want = spec.kruskal(ctx.copy(U), w.copy())
    dec = D.KruskalTensor(U, w)
    cls = ctx.tk.cp.CP_ALS if kind == 'cp' else ctx.tk.cmtf.CMTF_ALS

    class Model(cls):
        SSE = loss = property(lambda self: 1)
    kw = dict(orthonormality_constraints=[n == orth for n in range(len(shape))]) if orth is not None else {}
    path = ctx.path('start.h5')
    init, start = dict(given=(ctx.choice('init', ['precomputed', 'Precomputed']) if how == 'given' else '', dec), stored=('from_checkpoint', path), file=(path, None))[how]
    if how != 'given':
        put(ctx, dec, path, 'CP_ALS')
    m = Model(rank, init=init, max_its=0, print_frequency=-1, **kw)
    X = ctx.const(np.ones(shape, dtype=int))
    if kind == 'cmtf':
        m.fit(X, [ctx.const(np.ones((shape[0], 2), dtype=int))], [0], initial_decomposition=start)
    else:
        m.fit(X, initial_decomposition=start)
    sizes(ctx, m.decomposition, shape, rank, 'start')
    got = spec.kruskal(list(m.decomposition.factor_matrices), m.decomposition.weights)
    ctx.eq(got, want, 'starts at the given tensor')
    ctx.eq(m.reconstructed_X, want, 'reconstruction of the start')
    if orth is not None:
        orthonormal(ctx, m.decomposition.factor_matrices[orth], 'orthonormal mode')


def h_givenp2(ctx, how, J, rank):
    D = ctx.tk.decs
    A, B, C = ctx.real('A', (2, rank)), ctx.real('B', (rank, rank)), ctx.real('C', (len(J), rank))
    P = [ctx.real('P%d' % k, (j, rank)) for k, j in enumerate(J)]
    snap = ctx.copy([A, B, C, P])
    dec = D.Parafac2Tensor(A, B, C, P)

    class Model(ctx.tk.parafac2.Parafac2_ALS):
        SSE = loss = property(lambda self: 1)
    path = ctx.path('start.h5')
    init, start = dict(given=(ctx.choice('init', ['precomputed', 'Precomputed']) if how == 'given' else '', dec), stored=('from_checkpoint', path), file=(path, None))[how]
    if how != 'given':
        put(ctx, dec, path, 'Parafac2_ALS')
    m = Model(rank, init=init, max_its=0, print_frequency=-1)
    m.fit([ctx.const(np.ones((2, j), dtype=int)) for j in J], initial_decomposition=start)
    d = m.decomposition
    ctx.check(d.rank == rank and len(d.projection_matrices) == len(J), 'sizes and rank')
    want = spec.slices(snap[0], [spec.matmul(p, snap[1]) for p in snap[3]], snap[2])
    got = spec.slices(d.A, [spec.matmul(p, d.blueprint_B) for p in d.projection_matrices], d.C)
    for g, s in zip(got, want):
        ctx.eq(g, s, 'starts at the given slices')


def h_create(ctx, fn, shape, rank):
    U = ctx.tk.utils
    c = ctx.real('c', ())
    size = list(shape) if ctx.choice('sizes', ['list', 'tuple']) == 'list' else shape
    if ctx.choice('noise', [True, False]):
        X, F, norms, noise = getattr(U, fn)(size, rank, noise_factor=c)
    else:
        X, F, norms, noise = getattr(U, fn)(size, rank)
        c = 0
    ctx.check([f.shape for f in F] == [(s, rank) for s in shape] and X.shape == tuple(shape) and noise.shape == tuple(shape), 'sizes')
    for f in F:
        unit(ctx, f, 'generated')
        if fn != 'create_data':
            nonneg(ctx, f, 'generated')
    clean = spec.kruskal(F)
    ctx.eq(X, clean + c * noise, 'data is the tensor of the factors plus scaled noise')
    ctx.eq(spec.sumsq(noise), spec.sumsq(clean), 'noise as large as the tensor')
    for f, n in zip(F, norms):
        ctx.check(n.size == rank, 'norms')
        ctx.ge(n, 0, 'norms')
