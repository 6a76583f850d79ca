"""C22: nothing the caller passes in is modified; the decomposition returned is the one the error measures describe."""
import numpy as np
from . import spec

BOUNDS = ('CP, CMTF (0-2 coupled matrices) and PARAFAC2 (list and array data) with 2x2 to 2x2x2 data, rank 1 (2 for starts), every kind of constraint; fits of 0-2 '
          'iterations, continued and repeated, given, random and stored starts, with all loggers and a checkpoint file; updates return arbitrary matrices; single '
          'updates by the real solvers from arbitrary states; scores, signs, single components and storing of decompositions; arbitrary data')
ASSUMPTIONS = ['data and starting error not zero']
LIMITS = dict(max_paths=80, time=60, opaque=('abs',))

PENS = ('none', 'ridge', 'nonneg', 'orth')


def configs(tier):
    c = []
    big = tier == 'thorough'

    def add(kind, pen, hist, start='given', form='', rank=1):
        n = '-'.join([kind + form, pen, '.'.join(hist), start] + (['r%d' % rank] if rank > 1 else []))
        c.append(dict(name=n, what='fit', kind=kind, pen=pen, hist=tuple(hist), start=start, form=form, rank=rank,
                      limits=LIMITS))
    forms = dict(cp=('2', '3'), cmtf=('0', '1', '2'), parafac2=('list', 'array'))
    for kind in ('cp', 'cmtf', 'parafac2'):
        for f in forms[kind]:
            light = kind != 'cmtf' or f == '1'
            for pen in PENS:
                add(kind, pen, ['fit1'], form=f)
                if big or light and pen == 'none' or pen == 'nonneg' and f in ('2', 'array'):
                    add(kind, pen, ['fit1', 'cont'], form=f)
                if pen in ('none', 'ridge') or big:
                    add(kind, pen, ['fit0'], form=f)
                if pen == 'none' and light or big:
                    add(kind, pen, ['fit1', 'fit1'], form=f)
                if big and light:
                    add(kind, pen, ['fit1', 'cont', 'fit1'], form=f)
            add(kind, 'none', ['fit1'], 'random', form=f)
            add(kind, 'nonneg', ['fit0'], 'random', form=f)
            if kind != 'cmtf':
                add(kind, 'none', ['fit1'], 'stored', form=f)
            add(kind, 'none', ['fit0'], form=f, rank=2)
            for pen in PENS[:3]:
                n = '-'.join(['update', kind + f, pen])
                c.append(dict(name=n, what='update', kind=kind, pen=pen, form=f, limits=dict(max_paths=200, time=60)))
    for e in ('cp-score', 'cp-signs', 'cp-core', 'cp-store', 'cp-single', 'parafac2-score', 'parafac2-store', 'parafac2-single', 'evolving-store', 'base', 'create'):
        c.append(dict(name='use-' + e, what='use', kind=e, limits=LIMITS if e == 'create' else dict(max_paths=300, time=60)))
    return c


def harness(ctx, what, kind, **k):
    if what == 'use':
        use(ctx, kind)
    elif what == 'update':
        update(ctx, kind, **k)
    else:
        fit(ctx, kind, **k)


def total(S):
    t = 0
    for s in S:
        t = t + spec.sumsq(s)
    return t


def fit(ctx, kind, pen, hist, start, form, rank):
    base, D = ctx.tk.base, ctx.tk.decs
    L = ctx.tk.loggers
    kw, lists = {}, []
    N = 3 if kind == 'parafac2' or form == '3' else 2
    if pen == 'ridge':
        kw['ridge_penalties'] = [ctx.real('lam%d' % n, (), pos=True) for n in range(N)]
    if pen == 'nonneg':
        kw['non_negativity_constraints'] = [True, False, True][:N]
    if pen == 'orth':
        kw['orthonormality_constraints'] = [False, False, True] if kind == 'parafac2' else [False, True, False][:N]
    lists = [kw[k] for k in kw]
    path = ctx.path('run.h5')
    box = {}

    class Look(L.BaseLogger):
        def _log(self, model):
            box['look'](model)
            self.log_metrics.append(0)
    loggers = [Look()] + [getattr(L, n)() for n in ('LossLogger', 'MSELogger', 'SSELogger', 'RMSELogger', 'ExplainedVarianceLogger')]
    cls = dict(cp=ctx.tk.cp.CP_ALS, cmtf=ctx.tk.cmtf.CMTF_ALS, parafac2=ctx.tk.parafac2.Parafac2_ALS)[kind]
    if kind != 'parafac2':
        kw['rel_loss_tol'] = -1
    else:
        kw['cp_updates_per_it'] = 1
    init = {'given': 'precomputed', 'random': 'random', 'stored': 'from_checkpoint'}[start]

    def model(**more):
        return cls(rank, max_its=1, convergence_tol=-1, print_frequency=-1, **kw, **more)
    m = model(init=init, loggers=loggers, checkpoint_path=path, checkpoint_frequency=1)
    w = Data(ctx, kind, form, rank, pen)
    w.lam = kw.get('ridge_penalties', [])
    old = {k: getattr(base, k) for k in ('rightsolve', 'non_negative_rightsolve', 'orthogonal_rightsolve', 'orthogonal_solve')}
    cnt = [0]

    def right(A, B):
        cnt[0] += 1
        r = ctx.real('new%d' % cnt[0], (B.shape[0], A.shape[0]))
        for q in range(A.shape[0]):
            ctx.assume(spec.sumsq(r[:, q]), '>', 1e-3)
        return r

    def left(A, B):
        cnt[0] += 1
        return ctx.real('new%d' % cnt[0], (A.shape[1], B.shape[1]))
    ctx.loose_svd()
    for k in old:
        setattr(base, k, left if k == 'orthogonal_solve' else right)
    try:
        snaps = ctx.copy(lists)
        for step, ev in enumerate(hist):
            tag = '%d%s' % (step, ev)
            if ev.startswith('fit'):
                its = int(ev[3:])
                args = w.new('d%d' % step)
                box['look'] = lambda md: w.positive(w.sse(md), md)
                dec = None
                if start == 'given':
                    dec = w.start('d%d' % step)
                    w.positive(w.sse_of(dec), None, dec)
                elif start == 'stored':
                    other = model(init='precomputed', checkpoint_path=ctx.path('stored.h5'))
                    other.set_target(ctx.copy(args[0]))
                    other.decomposition = w.start('d%d' % step)
                    w.positive(w.sse_of(other.decomposition), None, other.decomposition)
                    other.store_checkpoint(0)
                    dec = ctx.path('stored.h5')
                    its += 1
                if step:
                    # a new fit logs to a new file
                    m.checkpoint_path = ctx.path('run%d.h5' % step)
                    for lg in m.loggers:
                        lg.prev_checkpoint_it = len(lg.log_metrics)
                ret = m.fit_transform(*args, max_its=its, initial_decomposition=dec)
                if kind == 'cmtf':
                    dec, pairs = ret
                    ctx.check(len(pairs) == len(w.Y), tag + ': one pair of matrices per coupled matrix')
                    w.pairs = pairs
                else:
                    dec = ret
                ctx.check(dec is m.decomposition, tag + ': the decomposition returned is the model\'s')
            else:
                m.continue_fit(max_its=m.current_iteration + 1)
                dec = m.decomposition
                if kind == 'cmtf':
                    w.pairs = [[a, v] for a, v in zip(m.coupled_factor_matrices, m.uncoupled_factor_matrices)]
            w.intact(tag)
            ctx.unchanged(lists, snaps, tag + ': constraint and penalty lists')
            e = w.sse_of(dec, True)
            w.positive(e, m)
            if rank == 1 or kind != 'cmtf':
                ctx.eq(m.SSE, e, tag + ': reported error is that of the returned decomposition and the data')
                ctx.eq(m.MSE, e / w.elements(), tag + ': reported mean error')
    finally:
        for k, f in old.items():
            setattr(base, k, f)


class Data:
    """what the caller holds, and the error of a decomposition against it"""

    def __init__(self, ctx, kind, form, rank, pen):
        self.ctx, self.kind, self.form, self.rank, self.pen = ctx, kind, form, rank, pen
        self.Y, self.pairs, self.lam = [], [], []

    def new(self, tag):
        ctx = self.ctx
        if self.kind == 'parafac2':
            if self.form == 'array':
                self.arg = ctx.real(tag + 'X', (2, 2, 2))
                self.S = [self.arg[:, :, 0], self.arg[:, :, 1]]
            else:
                self.S = [ctx.real(tag + 'X0', (2, 1)), ctx.real(tag + 'X1', (2, 2))]
                self.arg = list(self.S)
            ctx.assume(total(self.S), '>', 1e-3)
            self.args = [self.arg]
        else:
            shape = (2, 1, 2) if self.form == '3' else (2, 2)
            X = ctx.real(tag + 'X', shape)
            ctx.assume(spec.sumsq(X), '>', 1e-3)
            self.S = [X]
            self.args = [X]
            if self.kind == 'cmtf':
                n = int(self.form)
                self.modes = [1, 0][:n]
                self.Y = [ctx.real('%sY%d' % (tag, i), (2, 1 + i)) for i in range(n)]
                self.args = [X, list(self.Y), list(self.modes)]
        self.snap = ctx.copy(self.args)
        self.snapS, self.snapY = ctx.copy(self.S), ctx.copy(self.Y)
        self.kept = [list(a) if isinstance(a, list) else a for a in self.args]
        return self.args

    def start(self, tag):
        ctx, r, D = self.ctx, self.rank, self.ctx.tk.decs

        def factor(name, n, orth=False):
            if orth:
                f = ctx.orthonormal(name, n, r)
                if ctx.sym:
                    q = ctx.zeros((r, r))
                    q[...] = np.eye(r, dtype=int)
                    ctx.e.qr_known.append((f, f, q))
                return f
            f = ctx.real(name, (n, r), nonneg=self.pen == 'nonneg')
            for q in range(r):
                ctx.assume(spec.sumsq(f[:, q]), '>', 1e-3)
            return f
        if self.kind == 'parafac2':
            return D.Parafac2Tensor(factor(tag + 'A', 2), factor(tag + 'B', r), factor(tag + 'C', 2, self.pen == 'orth'),
                                    [ctx.real('%sP%d' % (tag, k), (s.shape[1], r)) for k, s in enumerate(self.S)])
        U = [factor('%sU%d' % (tag, n), s, self.pen == 'orth' and n == 1) for n, s in enumerate(self.S[0].shape)]
        return D.KruskalTensor(U, None if self.kind == 'cmtf' else ctx.real(tag + 'w', (r,)))

    def sse_of(self, dec, coupled=False):
        """squared error against the data as it was"""
        if self.kind == 'parafac2':
            rec = [spec.matmul(dec.A * dec.C[k], spec.matmul(dec.projection_matrices[k], dec.blueprint_B).T) for k in range(len(self.S))]
            return total([x - y for x, y in zip(self.snapS, rec)])
        e = spec.sumsq(self.snapS[0] - spec.kruskal(list(dec.factor_matrices), dec.weights))
        if coupled:
            for y, (a, v) in zip(self.snapY, self.pairs):
                e = e + spec.sumsq(y - spec.matmul(a, v.T))
        return e

    def sse(self, m):
        if self.kind == 'cmtf':
            self.pairs = [[a, v] for a, v in zip(m.coupled_factor_matrices, m.uncoupled_factor_matrices)]
        return self.sse_of(m.decomposition, True)

    def positive(self, e, m, dec=None):
        """true for sums of squares; spares the solver the sign of expanded ones"""
        ctx = self.ctx
        ctx.assume(e, '>', 1e-6)
        ctx.assume(e + total(self.snapS), '>')
        if self.lam:
            dec = dec or m.decomposition
            fs = [dec.A, dec.blueprint_B, dec.C] if self.kind == 'parafac2' else dec.factor_matrices
            for l, f in zip(self.lam, fs):
                e = e + l * spec.sumsq(f)
            ctx.assume(e, '>')

    def elements(self):
        return sum(int(np.prod(s.shape)) for s in self.S + self.Y)

    def intact(self, tag):
        ctx = self.ctx
        for a, s, k in zip(self.args, self.snap, self.kept):
            ctx.unchanged(a, s, tag + ': data untouched')
            if isinstance(a, list):
                ctx.check(len(a) == len(k) and all(x is y for x, y in zip(a, k)), tag + ': list untouched')
        for x, y in zip(self.S + self.Y, self.snapS + self.snapY):
            ctx.unchanged(x, y, tag + ': arrays untouched')


def update(ctx, kind, pen, form):
    """one update by the real solver from an arbitrary state"""
    kw = {}
    N = 3 if kind == 'parafac2' or form == '3' else 2
    if pen == 'ridge':
        kw['ridge_penalties'] = [ctx.real('lam%d' % n, (), pos=True) for n in range(N)]
    if pen == 'nonneg':
        kw['non_negativity_constraints'] = [True] * N if kind != 'parafac2' else [True, False, True]
    lists = [kw[k] for k in kw]
    lsnap = ctx.copy(lists)
    cls = dict(cp=ctx.tk.cp.CP_ALS, cmtf=ctx.tk.cmtf.CMTF_ALS, parafac2=ctx.tk.parafac2.Parafac2_ALS)[kind]
    w = Data(ctx, kind, form, 1, pen)

    class Model(cls):
        # the error measures are decided elsewhere
        SSE = loss = property(lambda self: 1)
    with ctx.quiet():
        m = Model(1, init='precomputed', print_frequency=-1, **kw)
    args = w.new('d')
    m._init_fit(*args, None, w.start('d')) if kind == 'cmtf' else m._init_fit(args[0], None, w.start('d'))
    w.intact('start')
    if kind == 'parafac2':
        for k in range(2):
            for x in w.S[k].reshape(-1):
                ctx.assume(x, '!=')
        what = ctx.choice('what', ['project', 'A', 'C'])
        if what == 'project':
            m._update_projection_matrices()
        else:
            m._prepare_cp_decomposer()
            m.cp_decomposer.set_target(m.projected_X)
            mode = dict(A=0, C=2)[what]
            full(ctx, m.cp_decomposer.factor_matrices, mode)
            m.cp_decomposer._update_als_factor(mode)
    else:
        mode = int(ctx.int('mode', 0, N - (kind == 'cp')))
        if mode == N:
            for f in m.factor_matrices:
                ctx.assume(spec.sumsq(f), '>', 1e-3)
            m._update_uncoupled_matrix_factors()
        else:
            full(ctx, m.factor_matrices, mode)
            m._update_als_factor(mode)
    w.intact('update')
    ctx.unchanged(lists, lsnap, 'constraint and penalty lists')


def full(ctx, factors, mode):
    for i, f in enumerate(factors):
        if i != mode:
            ctx.assume(spec.sumsq(f), '>', 1e-3)


def use(ctx, kind):
    D, M, B, U = ctx.tk.decs, ctx.tk.metrics, ctx.tk.base, ctx.tk.utils
    one, two = (2, 1), (2, 2)

    def cols(*fs):
        for f in fs:
            for q in range(f.shape[1]):
                ctx.assume(spec.sumsq(f[:, q]), '>', 1e-3)
        return list(fs)
    what, _, how = kind.partition('-')
    if what == 'create':
        sizes = [2, 1, 2]
        snap = list(sizes)
        U.create_data(sizes, 1, noise_factor=ctx.real('noise', ()))
        U.create_non_negative_data(sizes, 1)
        D.KruskalTensor.random_init(sizes, 1)
        s2 = [2, [1, 2], 2]
        D.Parafac2Tensor.random_init(s2, 1)
        s3 = [2, 1, 2]
        D.Parafac2Tensor.random_init(s3, 1)
        ctx.check(sizes == snap and s3 == snap and s2 == [2, [1, 2], 2], 'sizes untouched')
        return
    if what == 'base':
        X = ctx.real('X', (2, 2, 2))
        F = [ctx.real('F%d' % i, two) for i in range(3)]
        args = [X] + F
        snap = ctx.copy(args)
        for n in range(3):
            u = B.unfold(X, n)
            B.fold(u, n, shape=X.shape)
            B.matrix_khatri_rao_product(X, F, n)
        k = B.khatri_rao(*F)
        k2 = B.khatri_rao(*F, skip=1)
        B.kron(F[0], F[1])
        k[...] = 0
        k2[...] = 0
        ctx.unchanged(args, snap, 'arguments untouched')
        for sizes in ((2, 1, 2), (1, 2, 1), (2, 1, 1), (1, 1, 2)):
            G = [ctx.real('G%d%d%d-%d' % (sizes + (i,)), (n, 2)) for i, n in enumerate(sizes)]
            Z = ctx.real('Z%d%d%d' % sizes, sizes)
            wts = ctx.real('w%d%d%d' % sizes, (2,), pos=True)
            some = [Z, wts] + G
            old = ctx.copy(some)
            outs = [B.khatri_rao(*G), B.kron(*G[:2]), B.kron(*G[1:])]
            for n in range(3):
                outs += [B.khatri_rao(*G, skip=n), B.matrix_khatri_rao_product(Z, G, n), D.KruskalTensor(G, wts).construct_tensor()]
            for a, b in ((0, 1), (1, 2), (0, 2)):
                outs += [B.khatri_rao(G[a], G[b]), B.khatri_rao_binary(G[a], G[b]), B.kron(G[a], G[b])]
            for o in outs:
                o[...] = 0
            ctx.unchanged(some, old, 'arguments of size %dx%dx%d untouched' % sizes)
        u = B.unfold(X, 1).copy()
        s = u.copy()
        y = B.fold(u, 1, shape=(2, 2, 2))
        ctx.unchanged(u, s, 'unfolded tensor untouched')
        ctx.eq(y, X, 'folded back')
        return
    if what == 'cp':
        X = ctx.real('X', (2, 2, 2) if how in ('core',) else (2, 2))
        ctx.assume(spec.sumsq(X), '>', 1e-3)
        r = 2 if how in ('store', 'single') else 1
        if how == 'signs':
            X = X[:, :1].copy()
        F = cols(*[ctx.real('F%d' % i, (s, r)) for i, s in enumerate(X.shape)])
        G = cols(*[ctx.real('G%d' % i, (s, r)) for i, s in enumerate(X.shape)])
        w, v = ctx.real('w', (r,), pos=True), ctx.real('v', (r,), pos=True)
        dec, other = D.KruskalTensor(F, w), D.KruskalTensor(G, v)
        args = [X, F, G, w, v]
        parts = [dec.factor_matrices, dec.weights, other.factor_matrices, other.weights]
    else:
        X = [ctx.real('X%d' % k, (2, j)) for k, j in enumerate((1, 2))]
        r = 1
        A, C = cols(ctx.real('A', (2, r)), ctx.real('C', (2, r)))
        Bp = ctx.real('B', (r, r), pos=True)
        P = [ctx.real('P%d' % k, (j, r), pos=True) for k, j in enumerate((1, 2))]
        if what == 'evolving':
            dec = D.EvolvingTensor(A, list(P), C, warning=False)
        else:
            dec = D.Parafac2Tensor(A, Bp, C, P, warning=False)
        args = [X, A, C, Bp, P]
        parts = [dec.A, dec.C] + ([list(dec.projection_matrices), dec.blueprint_B] if what == 'parafac2' else [list(dec.B)])
    snap, psnap = ctx.copy(args), ctx.copy(parts)

    def look(tag):
        ctx.unchanged(args, snap, tag + ': arguments untouched')
        ctx.unchanged(parts, psnap, tag + ': decomposition untouched')
    if what == 'cp':
        if how == 'score':
            dec.factor_match_score(other, weight_penalty=False)
            look('score')
            M.factor_match_score(F, G, weight_penalty=False)
            dec.seperate_mode_factor_match_score(other)
            look('mode score')
            dec.degeneracy()
            M.percent_explained(X, dec.construct_tensor())
            look('degeneracy')
        elif how == 'signs':
            s = dec.get_signs(X)
            look('signs')
            s[0][...] = 5
            look('signs written')
        elif how == 'core':
            dec.core_consistency(X)
            look('core consistency')
            M.core_consistency(X, *F)
            M.core_consistency(X, *F, normalized=True)
            look('core consistency of factors')
        elif how == 'store':
            dec.store(ctx.path('k.h5'))
            look('store')
            new = D.KruskalTensor.from_file(ctx.path('k.h5'))
            new.factor_matrices[0][...] = 0
            new.weights[...] = 0
            look('loaded copy written')
            dec.construct_tensor()[...] = 0
            look('reconstruction written')
        else:
            s = dec.get_single_component_decomposition(1)
            s.construct_tensor()
            look('single component')
            U.normalize_factors(F)
            U.permute_factors((1, 0), F)
            look('normalised and permuted')
    else:
        if how == 'score':
            dec.factor_match_score(dec, weight_penalty=False)
            look('score')
            dec.degeneracy()
            look('degeneracy')
            M.core_consistency_parafac2(X, P, A, Bp, C)
            look('core consistency')
        elif how == 'store':
            dec.store(ctx.path('e.h5'))
            look('store')
            new = type(dec).from_file(ctx.path('e.h5'))
            new.A[...] = 0
            new.C[...] = 0
            look('loaded copy written')
            for s in dec.construct_slices():
                s[...] = 0
            dec.construct_tensor()[...] = 0
            look('slices written')
        else:
            s = dec.get_single_component_decomposition(0)
            s.construct_slices()
            look('single component')
