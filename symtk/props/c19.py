"""C19: what is accepted and what is refused."""
import numpy as np
from . import spec
from .c10 import num

BOUNDS = ('Kruskal construction: 1-3 factors, each with 1-3 columns and 1-2 rows, no weights or 0-4 of them; CP and CMTF start: tensors of order 2 and 3, components of '
          'order 1-4 with 0-3 rows (1-4 thorough) and 1-3 columns against model ranks 1-2, given, stored and in a named file; PARAFAC2 start: slices 2x1 and 2x2 '
          '(also a 2x2x2 tensor), every number of rows, columns, slices and projection matrices from 1 to 3; sizes chosen by the solver; contents arbitrary reals; '
          'the component check itself also for every size up to 10^6 (symbolic sizes); option names from a list of valid, misspelt and differently capitalised ones; SVD start: sizes 1-3, ranks 1-4; all combinations of constraints')
ASSUMPTIONS = ['option names are drawn from a finite list', 'least squares solvers return arbitrary matrices where only acceptance is asked']
LIMITS = dict(max_paths=3000, time=100)
LIMITS_THOROUGH = dict(max_paths=20000, time=400)
ERR = (Exception, Warning)


def configs(tier):
    big = tier == 'thorough'
    c = []
    for n in (1, 2, 3):
        c.append(dict(name='build-%d' % n, what='build', n=n, top=3 if n < 3 or big else 2))
    for kind in ('cp', 'cmtf'):
        for how in ('given', 'stored', 'file', 'load'):
            for order in (2, 3):
                if kind == 'cmtf' and (how not in ('given', 'stored') or order == 3 and not big):
                    continue
                c.append(dict(name='%s-%s-%d' % (kind, how, order), what='cp', kind=kind, how=how, order=order, top=3 if order == 2 else 2))
        c.append(dict(name=kind + '-ranks', what='ranks', kind=kind))
    for how in ('given', 'stored', 'file', 'load', 'tensor'):
        for vary in ('rows', 'columns', 'slices'):
            c.append(dict(name='parafac2-%s-%s' % (how, vary), what='parafac2', how=how, vary=vary))
    for kind in ('cp', 'cmtf', 'parafac2'):
        c.append(dict(name='init-name-' + kind, what='init', kind=kind))
        c.append(dict(name='constraints-' + kind, what='constraints', kind=kind))
    c.append(dict(name='constraints-cp-2', what='constraints', kind='cp', order=2))
    for order in (1, 2, 3):
        c.append(dict(name='anysize-cp-%d' % order, what='anysize', kind='cp', order=order))
    for order in (1, 2) + ((3,) if big else ()):
        c.append(dict(name='anysize-parafac2-%d' % order, what='anysize', kind='parafac2', order=order))
    for kind in ('cp', 'cmtf'):
        c.append(dict(name='ignored-' + kind, what='ignored', kind=kind))
    for e in ('score', 'separate', 'kruskal', 'kruskal-mode', 'evolving', 'evolving-mode', 'parafac2'):
        c.append(dict(name='reduction-' + e, what='reduction', entry=e))
    c.append(dict(name='random-method', what='method'))
    for order in (2, 3):
        c.append(dict(name='svd-rank-%d' % order, what='svd', order=order, top=3 if order < 3 or big else 2))
    return c


def harness(ctx, what, **k):
    globals()['h_' + what](ctx, **k)


def outcome(ctx, f, accept, label):
    """f succeeds exactly when accept"""
    if accept:
        try:
            f()
        except ERR as ex:
            ctx.check(False, label + ': consistent input accepted')
            return False
        ctx.check(True, label + ': consistent input accepted')
        return True
    ctx.raises(ERR, f, label + ': inconsistent input refused')
    return False


def h_build(ctx, n, top):
    D = ctx.tk.decs
    ranks = [int(ctx.int('r%d' % i, 1, top)) for i in range(n)]
    rows = [1 + (i + ranks[0]) % 2 for i in range(n)]
    U = [ctx.real('U%d' % i, (rows[i], ranks[i])) for i in range(n)]
    wn = int(ctx.int('weights', -1, top + 1))
    w = None if wn < 0 else ctx.real('w', (wn,))
    if w is not None and ctx.choice('aslist', [False, True]):
        w = list(w)
    ok = len(set(ranks)) == 1 and (w is None or wn == ranks[0])
    box = []
    if outcome(ctx, lambda: box.append(D.KruskalTensor(U, w)), ok, 'construction'):
        k = box[0]
        ctx.check(k.rank == ranks[0], 'rank')
        ctx.check(list(k.shape) == rows, 'shape')
        ctx.eq(k.weights, np.ones(ranks[0], dtype=int) if w is None else np.array(list(w), dtype=object), 'weights')
        for a, b in zip(k.factor_matrices, U):
            ctx.same(a, b, 'factors')


def cp_model(ctx, kind, rank, **kw):
    cls = ctx.tk.cp.CP_ALS if kind == 'cp' else ctx.tk.cmtf.CMTF_ALS
    kw.setdefault('init', 'precomputed')
    return cls(rank, max_its=0, print_frequency=-1, **kw)


def cp_fit(ctx, kind, m, X, start):
    if kind == 'cmtf':
        m.fit(X, [num(ctx, [[1, 2]] * X.shape[0])], [0], initial_decomposition=start)
    else:
        m.fit(X, initial_decomposition=start)


def nonzero(ctx, X):
    ctx.assume(spec.sumsq(X), '>', 1e-3)


def cp_start(ctx, kind, how, shape, rank, U):
    """a fit of a tensor of the given shape started from the factors U"""
    D = ctx.tk.decs
    X = num(ctx, [[2] * int(np.prod(shape))]).reshape(shape)
    dec = D.KruskalTensor(U)
    if how == 'given':
        m = cp_model(ctx, kind, rank)
        return m, lambda: cp_fit(ctx, kind, m, X, dec)
    path = ctx.path('start.h5')
    with ctx.h5py.File(path, 'w') as h:
        h.attrs['checkpoint_its'] = [3]
        h.attrs['final_iteration'] = 3
        h.attrs['decomposition_type'] = 'CP_ALS'
        dec.store_in_hdf5_group(h.create_group('checkpoint_00003'))
    if how == 'stored':
        m = cp_model(ctx, kind, rank, init='from_checkpoint')
        return m, lambda: cp_fit(ctx, kind, m, X, path)
    if how == 'file':
        m = cp_model(ctx, kind, rank, init=path)
        return m, lambda: cp_fit(ctx, kind, m, X, None)
    m = cp_model(ctx, kind, rank)
    m.set_target(X)
    return m, lambda: m.load_checkpoint(path)


def h_cp(ctx, kind, how, order, top):
    shape = (2, 3, 1)[:order]
    n = int(ctx.int('order', 1, order + 1))
    rows = [int(ctx.int('rows%d' % i, 1, max(top, s))) if i < order else 1 for i, s in enumerate((shape + (1,))[:n])]
    U = [ctx.real('U%d' % i, (r, 1)) for i, r in enumerate(rows)]
    ok = n == order and tuple(rows) == shape
    m, f = cp_start(ctx, kind, how, shape, 1, U)
    if ok:
        for u in U:
            nonzero(ctx, u)
    if outcome(ctx, f, ok, 'components'):
        ctx.check([x.shape for x in m.decomposition.factor_matrices] == [(s, 1) for s in shape], 'components of the right size')


def h_ranks(ctx, kind):
    how = ctx.choice('how', ['given', 'stored', 'file', 'load'])
    rank, r = int(ctx.int('rank', 1, 3)), int(ctx.int('r', 1, 3))
    shape = (1, 2)
    U = [num(ctx, [[1 + i + j for j in range(r)] for i in range(s)]) for s in shape]
    m, f = cp_start(ctx, kind, how, shape, rank, U)
    if outcome(ctx, f, rank == r, 'rank'):
        ctx.check(all(x.shape[1] == rank for x in m.decomposition.factor_matrices), 'components of the right rank')


def h_parafac2(ctx, how, vary):
    D = ctx.tk.decs
    tensor = how == 'tensor'
    widths = (2, 2) if tensor else (1, 2)
    K, I = 2, 2
    rank = int(ctx.int('rank', 1, 2)) if vary == 'columns' else 1
    a = b = c = p = rank
    rows, krows, pw = I, K, list(widths)
    if vary == 'rows':
        rows = int(ctx.int('I', 1, 3))
        pw = [int(ctx.int('J%d' % k, 1, 3)) for k in range(K)]
    elif vary == 'columns':
        a, b, c, p = [int(ctx.int(x, 1, 2)) for x in 'abcp']
        # projections with another number of columns, made up for by the blueprint: neither promised nor refused
        ctx.assume_that(p == rank or not a == b == c == rank)
    else:
        krows = int(ctx.int('K', 1, 3))
        pw = (list(widths) + [1])[:int(ctx.int('P', 1, 3))]
    A, B, C = ctx.real('A', (rows, a)), ctx.real('B', (p, b)), ctx.real('C', (krows, c))
    P = [ctx.real('P%d' % k, (j, p)) for k, j in enumerate(pw)]
    dec = D.Parafac2Tensor(A, B, C, P)
    X = [num(ctx, [[3 + i - j for j in range(w)] for i in range(I)]) for w in widths]
    if tensor:
        Y = ctx.zeros((I, 2, K))
        for k, x in enumerate(X):
            Y[:, :, k] = x
        X = Y
    cls = ctx.tk.parafac2.Parafac2_ALS
    ok = rows == I and krows == K and pw == list(widths) and a == b == c == p == rank

    def model(**kw):
        return cls(rank, max_its=0, print_frequency=-1, **kw)
    if ok:
        for f in (A, B, C):
            nonzero(ctx, f)
        W = X if not tensor else [X[:, :, k] for k in range(K)]
        Bs = [spec.matmul(q, B) for q in P]
        ctx.assume(spec.sumsq(*[x - s for x, s in zip(W, spec.slices(A, Bs, C))]), '>', 1e-6)
    if how in ('given', 'tensor'):
        m = model(init='precomputed')
        f = lambda: m.fit(X, initial_decomposition=dec)
    else:
        path = ctx.path('p2.h5')
        with ctx.h5py.File(path, 'w') as h:
            h.attrs['checkpoint_its'] = [2]
            h.attrs['final_iteration'] = 2
            h.attrs['decomposition_type'] = 'Parafac2_ALS'
            dec.store_in_hdf5_group(h.create_group('checkpoint_00002'))
        if how == 'stored':
            m = model(init='from_checkpoint')
            f = lambda: m.fit(X, initial_decomposition=path)
        elif how == 'file':
            m = model(init=path)
            f = lambda: m.fit(X)
        else:
            m = model(init='precomputed')
            m.set_target(X)

            def f():
                m.load_checkpoint(path)
                if p != rank:
                    m.continue_fit()
    if outcome(ctx, f, ok, 'components'):
        ctx.check(m.decomposition.A.shape == (I, rank) and m.decomposition.C.shape == (K, rank), 'components of the right size')
        ctx.check([q.shape for q in m.decomposition.projection_matrices] == [(w, rank) for w in widths], 'projections of the right size')


NAMES = ['random', 'svd', 'cp', 'precomputed', 'from_checkpoint', 'RANDOM', 'Svd', 'CP', 'Precomputed', 'From_Checkpoint', 'rand', 'randomly', 'sv',
         'from-checkpoint', 'checkpoint', 'none', '', 'nonsense', 'svd ', 'no/such/file.h5', 'from_file', 'hosvd', 'pre', 'nvecs']


def h_init(ctx, kind):
    name = ctx.choice('name', NAMES)
    low = name.lower()
    valid = low in ('random', 'svd', 'precomputed', 'from_checkpoint') or (kind == 'parafac2' and low == 'cp')
    D = ctx.tk.decs
    path = ctx.path('i.h5')
    X = [num(ctx, [[2, 0], [0, 1]]), num(ctx, [[1, 0], [0, 3]])] if kind == 'parafac2' else num(ctx, [[3, 0], [0, 4]])
    if kind == 'parafac2':
        cls = ctx.tk.parafac2.Parafac2_ALS
        e = num(ctx, [[1], [0]])
        dec = D.Parafac2Tensor(num(ctx, [[1], [2]]), num(ctx, [[1]]), num(ctx, [[3], [1]]), [e, e])
    else:
        cls = ctx.tk.cp.CP_ALS if kind == 'cp' else ctx.tk.cmtf.CMTF_ALS
        dec = D.KruskalTensor([num(ctx, [[1], [2]]), num(ctx, [[1], [1]])])
    start = None
    if low == 'precomputed':
        start = dec
    if low == 'from_checkpoint':
        start = path
        with ctx.h5py.File(path, 'w') as h:
            h.attrs['final_iteration'] = 0
            dec.store_in_hdf5_group(h.create_group('checkpoint_00000'))
    called = []

    class Model(cls):
        # what the initialisations compute is decided elsewhere
        SSE = loss = property(lambda self: 1)

        def init_random(self):
            called.append('random')
            self.decomposition = dec

        def init_svd(self):
            called.append('svd')
            self.decomposition = dec

        def init_cp(self):
            called.append('cp')
            self.decomposition = dec

        def load_checkpoint(self, *a, **k):
            called.append('from_checkpoint')
            super().load_checkpoint(*a, **k)
    m = Model(1, init=name, max_its=0, print_frequency=-1)
    if kind == 'cmtf':
        f = lambda: m.fit(X, [num(ctx, [[1, 2], [0, 1]])], [0], initial_decomposition=start)
    else:
        f = lambda: m.fit(X, initial_decomposition=start)
    if outcome(ctx, f, valid, 'initialisation'):
        ctx.check(called == ([] if low == 'precomputed' else [low]), 'the initialisation asked for')


def h_ignored(ctx, kind):
    D = ctx.tk.decs
    path = ctx.path('other.h5')
    dec = D.KruskalTensor([num(ctx, [[1], [2]]), num(ctx, [[1], [1]])])
    with ctx.h5py.File(path, 'w') as h:
        h.attrs['final_iteration'] = 0
        dec.store_in_hdf5_group(h.create_group('checkpoint_00000'))
    name = ctx.choice('name', ['random', 'svd', 'Random', 'SVD', path])
    given = ctx.choice('given', ['decomposition', 'path'])
    X = num(ctx, [[3, 0], [0, 4]])
    m = cp_model(ctx, kind, 1, init=name)
    ctx.raises(ERR, lambda: cp_fit(ctx, kind, m, X, dec if given == 'decomposition' else path), 'initial components that would be ignored refused')


def h_constraints(ctx, kind, order=3):
    base, D = ctx.tk.base, ctx.tk.decs
    bits = [(bool(ctx.choice('nn%d' % i, [False, True])), bool(ctx.choice('orth%d' % i, [False, True]))) for i in range(order)]
    nn, orth = [b[0] for b in bits], [b[1] for b in bits]
    if ctx.choice('nopenalty', [True, False]):
        ridge = None
    else:
        ridge = [1] * order
    names = ('rightsolve', 'non_negative_rightsolve', 'orthogonal_rightsolve', 'orthogonal_solve')
    old = {k: getattr(base, k) for k in names}

    def ones(A, B):
        return num(ctx, [[1] * A.shape[0]] * B.shape[0])
    for k in names[:3]:
        setattr(base, k, ones)
    base.orthogonal_solve = lambda A, B: num(ctx, [[1] * B.shape[1]] * A.shape[1])
    cls = dict(cp=ctx.tk.cp.CP_ALS, cmtf=ctx.tk.cmtf.CMTF_ALS, parafac2=ctx.tk.parafac2.Parafac2_ALS)[kind]
    try:
        class Model(cls):
            SSE = loss = property(lambda self: 1)
        kw = dict(cp_updates_per_it=1) if kind == 'parafac2' else dict(rel_loss_tol=-1)
        e = num(ctx, [[1], [0]])
        if kind == 'parafac2':
            X = [num(ctx, [[2, 0], [0, 1]]), num(ctx, [[1, 0], [0, 3]])]
            dec = D.Parafac2Tensor(e.copy(), num(ctx, [[1]]), e.copy(), [e.copy(), e.copy()])
        else:
            shape = (2, 2, 2)[:order]
            X = num(ctx, [[2] * int(np.prod(shape))]).reshape(shape)
            dec = D.KruskalTensor([e.copy() for _ in shape])
        with ctx.quiet():
            m = Model(1, init='precomputed', max_its=1, convergence_tol=-1, print_frequency=-1, non_negativity_constraints=nn,
                      orthonormality_constraints=orth, ridge_penalties=ridge, **kw)
            if kind == 'cmtf':
                f = lambda: m.fit(X, [num(ctx, [[1, 2], [0, 1]])], [0], initial_decomposition=dec)
            else:
                f = lambda: m.fit(X, initial_decomposition=dec)
            outcome(ctx, f, not any(a and b for a, b in bits), 'constraints')
    finally:
        for k, f in old.items():
            setattr(base, k, f)


def h_reduction(ctx, entry):
    D, M = ctx.tk.decs, ctx.tk.metrics
    name = ctx.choice('name', ['min', 'mean', 'max', 'median', 'minimum', 'average', '', 'sum', 'avg', 'm'])
    ok = name in ('min', 'mean')
    F = [num(ctx, [[1], [0]]), num(ctx, [[0], [1]]), num(ctx, [[1], [0]])]
    E = D.EvolvingTensor(F[0], [F[1], F[1]], F[2])
    P = D.Parafac2Tensor(F[0], num(ctx, [[1]]), F[2], [F[1], F[1]])
    kt = D.KruskalTensor(F)
    f = {'score': lambda: M.factor_match_score(F, F, fms_reduction=name),
         'separate': lambda: M.separate_mode_factor_match_score(F, F, fms_reduction=name),
         'kruskal': lambda: kt.factor_match_score(kt, fms_reduction=name),
         'kruskal-mode': lambda: kt.seperate_mode_factor_match_score(kt, fms_reduction=name),
         'evolving': lambda: E.factor_match_score(E, fms_reduction=name),
         'evolving-mode': lambda: E.separate_mode_factor_match_score(E, fms_reduction=name),
         'parafac2': lambda: P.factor_match_score(P, fms_reduction=name)}[entry]
    outcome(ctx, f, ok, 'reduction')


def h_method(ctx):
    name = ctx.choice('name', ['normal', 'uniform', 'Normal', 'UNIFORM', 'gaussian', 'norm', '', 'rand', 'unif', 'randn', 'exponential'])
    ok = name.lower() in ('normal', 'uniform')
    box = []
    if outcome(ctx, lambda: box.append(ctx.tk.decs.KruskalTensor.random_init((2, 1), 2, random_method=name)), ok, 'random method'):
        ctx.check([f.shape for f in box[0].factor_matrices] == [(2, 2), (1, 2)], 'sizes')


def h_svd(ctx, order, top):
    shape = tuple(int(ctx.int('s%d' % i, 1, top)) for i in range(order))
    rank = int(ctx.int('rank', 1, top + 1))
    X = num(ctx, [list(range(1, 1 + int(np.prod(shape))))]).reshape(shape)

    class Model(ctx.tk.cp.CP_ALS):
        SSE = loss = property(lambda self: 1)
    m = Model(rank, init='svd', max_its=0, print_frequency=-1)
    if ctx.sym:
        n = [0]

        def anysvd(A, full_matrices=True, **k):
            # acceptance does not depend on the values
            n[0] += 1
            a, b = A.shape
            r = min(a, b)
            return (ctx.real('svdu%d' % n[0], (a, a if full_matrices else r)), ctx.real('svds%d' % n[0], (r,)), ctx.real('svdv%d' % n[0], (b if full_matrices else r, b)))
        mod = ctx.tk.cp.np.linalg
        old = mod.svd
        mod.svd = anysvd
        try:
            ok = outcome(ctx, lambda: m.fit(X), rank <= min(shape), 'rank')
        finally:
            mod.svd = old
    else:
        ok = outcome(ctx, lambda: m.fit(X), rank <= min(shape), 'rank')
    if ok:
        ctx.check([f.shape for f in m.decomposition.factor_matrices] == [(s, rank) for s in shape], 'sizes')


class Sized:
    """an array of which only the shape matters"""

    def __init__(self, *shape):
        self.shape = shape
        self.ndim = len(shape)


def h_anysize(ctx, kind, order):
    top = 10 ** 6
    cls = ctx.tk.cp.CP_ALS if kind == 'cp' else ctx.tk.parafac2.Parafac2_ALS
    ctx.assume_that(hasattr(cls, '_check_valid_components'))
    rank = ctx.int('rank', 1, top)
    m = cls(rank, init='precomputed', print_frequency=-1)
    if kind == 'cp':
        sizes = [ctx.int('x%d' % i, 1, top) for i in range(order)]
        m.X = Sized(*sizes)
        r = ctx.int('r', 1, top)
        rows = [ctx.int('u%d' % i, 1, top) for i in range(order)]
        dec = Holder(factor_matrices=[Sized(x, r) for x in rows], rank=r, shape=rows)
        pairs = list(zip(rows, sizes)) + [(r, rank)]
    else:
        I, J = ctx.int('I', 1, top), [ctx.int('J%d' % k, 1, top) for k in range(order)]
        m.X = [Sized(I, j) for j in J]
        m.X_shape = [I, J, order]
        a, b, c = [ctx.int(x, 1, top) for x in 'abc']
        A, C = Sized(ctx.int('rA', 1, top), a), Sized(ctx.int('rC', 1, top), c)
        B = [Sized(ctx.int('rB%d' % k, 1, top), b) for k in range(order)]
        dec = Holder(A=A, B=B, C=C, rank=a)
        pairs = [(A.shape[0], I), (C.shape[0], order), (a, rank), (b, rank), (c, rank)] + [(x.shape[0], j) for x, j in zip(B, J)]
    ok = True
    for x, y in pairs:
        if x != y:
            ok = False
            break

    def f():
        try:
            m._check_valid_components(dec)
        except (AttributeError, TypeError, IndexError, KeyError):
            # the check wants more than shapes
            ctx.assume_that(False)
    outcome(ctx, f, ok, 'sizes')


class Holder:
    def __init__(self, **k):
        self.__dict__.update(k)
