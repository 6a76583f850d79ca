"""C24: relabelling samples, slices, components (or modes) relabels the results and changes nothing else."""
import contextlib
import itertools
import numpy as np
from . import spec

BOUNDS = ('CP (order 2 to 4), CMTF (0-2 coupled matrices) and PARAFAC2 (2-3 slices, equal or different widths), lengths 1-3, rank 1-2, no constraint, penalties or '
          'non-negativity, 0-2 iterations from arbitrary starts; every transposition and rotation of the rows of one mode, of the slices, of the columns of a coupled '
          'matrix, of the coupled matrices, of the components; reordered modes for error measures and reconstruction')
ASSUMPTIONS = ['the linear solvers treat rows and columns alike (any such function of the equations)', 'no stopping by tolerances', 'the error is positive']
LIMITS = dict(max_paths=60, time=80, opaque=('abs',))
INF = float('inf')


def configs(tier):
    c, seen = [], set()
    big = tier == 'thorough'

    def add(kind, form, pen, what, rank=1, its=1, cp=1):
        name = '-'.join([kind + form, pen, what, 'r%d' % rank, 'i%d' % its] + (['u%d' % cp] if cp > 1 else []))
        if name not in seen:
            seen.add(name)
            c.append(dict(name=name, kind=kind, form=form, pen=pen, what=what, rank=rank, its=its, cp=cp))
    for pen in ('none', 'ridge', 'nonneg'):
        for form in ('2', '3'):
            for m in range(int(form)):
                add('cp', form, pen, 'rows%d' % m)
                if form == '2':
                    add('cp', form, pen, 'rows%d' % m, rank=2)
            add('cp', form, pen, 'components', rank=2)
            add('cp', form, pen, 'modes', rank=2, its=0)
        for form in ('0', '1', '2', '2s'):
            for m in range(2):
                add('cmtf', form, pen, 'rows%d' % m)
            if form != '0':
                add('cmtf', form, pen, 'columns')
            add('cmtf', form, pen, 'components', rank=2)
            if form[0] == '2':
                add('cmtf', form, pen, 'matrices')
        for form in ('list', 'array'):
            for what in ('rows', 'slices', 'within'):
                add('parafac2', form, pen, what)
            add('parafac2', form, pen, 'components', rank=2)
        add('parafac2', 'list', pen, 'slices', its=2)
        add('parafac2', 'three', pen, 'slices')
        if pen != 'ridge':
            add('parafac2', 'list', pen, 'slices', rank=2)
            add('parafac2', 'list', pen, 'slices', cp=2)
    add('cp', '4', 'none', 'modes', its=0)
    add('cp', '4', 'none', 'rows2')
    add('cp', '2', 'none', 'rows0', its=2)
    add('cp', '3', 'none', 'rows1', its=2)
    for n, r in ((2, 2), (3, 2), (3, 3), (2, 4)):
        c.append(dict(name='permute-%d-r%d' % (n, r), kind='permute', form=str(n), pen='', what='', rank=r, its=0, cp=1))
    if big:
        for pen in ('none', 'ridge', 'nonneg'):
            for form in ('2', '3', '4'):
                for m in range(int(form)):
                    add('cp', form, pen, 'rows%d' % m, rank=2)
                    add('cp', form, pen, 'rows%d' % m, its=2)
                add('cp', form, pen, 'components', rank=2, its=2)
                add('cp', form, pen, 'modes', rank=2, its=0)
            for form in ('1', '2', '2s'):
                for what in ('rows0', 'rows1', 'columns') + (('matrices',) if form != '1' else ()):
                    add('cmtf', form, pen, what, rank=2)
                    add('cmtf', form, pen, what, its=2)
            for form in ('list', 'array', 'three'):
                for what in ('rows', 'slices', 'within', 'components'):
                    add('parafac2', form, pen, what, rank=2)
                    add('parafac2', form, pen, what, rank=2 if what == 'components' else 1, its=2, cp=2)
    return c


def harness(ctx, kind, form, pen, what, rank, its, cp):
    if kind == 'permute':
        return permute(ctx, int(form), rank)
    w = World(ctx, kind, form, pen, rank, its, cp)
    with w.solvers():
        w.run(what)


def perms(n):
    """transpositions of neighbours generate all permutations; a rotation is not its own inverse"""
    out = []
    for i in range(n - 1):
        p = list(range(n))
        p[i], p[i + 1] = p[i + 1], p[i]
        out.append(p)
    if n > 2:
        out.append(list(range(1, n)) + [0])
    return out


def permute(ctx, n, rank):
    U, D, M = ctx.tk.utils, ctx.tk.decs, ctx.tk.metrics
    F = [ctx.real('F%d' % i, (2 + i % 2, rank)) for i in range(n)]
    w = ctx.real('w', (rank,))
    snap = ctx.copy([F, [w]])
    T = D.KruskalTensor(ctx.copy(F), w.copy()).construct_tensor()
    for p in itertools.permutations(range(rank)):
        for perm in (p, list(p), np.array(p)):
            G, v = U.permute_factors_and_weights(perm, F, w)
            H = U.permute_factors(perm, F)
            ctx.check(len(G) == n and len(H) == n, 'as many factors')
            for f, g, h in zip(F, G, H):
                ctx.same(g, f[:, list(p)], 'factors permuted')
                ctx.same(h, g, 'same with and without weights')
            ctx.same(v, w[list(p)], 'weights permuted alike')
        ctx.eq(D.KruskalTensor(ctx.copy(G), v.copy()).construct_tensor(), T, 'same tensor')
    ctx.unchanged([F, [w]], snap, 'arguments untouched')


class World:
    opts = {}
    unit = 1    # of the error

    def __init__(self, ctx, kind, form, pen, rank, its, cp):
        self.ctx, self.kind, self.form, self.pen, self.rank, self.its, self.cp = ctx, kind, form, pen, rank, its, cp
        self.N = 3 if kind == 'parafac2' else 2 if kind == 'cmtf' else int(form)
        world = self
        self.lam = [ctx.real('lam%d' % i, (), pos=True) for i in range(self.N)] if pen == 'ridge' else None
        cls = dict(cp=ctx.tk.cp.CP_ALS, cmtf=ctx.tk.cmtf.CMTF_ALS, parafac2=ctx.tk.parafac2.Parafac2_ALS)[kind]

        class Model(cls):
            @property
            def SSE(self):
                s = cls.SSE.__get__(self)
                ctx.assume(s / world.unit, '>', 1e-6)
                return s

            @property
            def loss(self):
                s = cls.loss.__get__(self)
                ctx.assume(s / world.unit, '>', 1e-6)
                return s
        self.Model = Model

    # ---- a problem: data, start, further options
    def problem(self):
        ctx, r = self.ctx, self.rank
        q = {}
        if self.kind == 'parafac2':
            J = dict(list=[r, r + 1], array=[r + 1] * 2, three=[1, 2, 2])[self.form]
            q['X'] = [ctx.real('X%d' % k, (2, j)) for k, j in enumerate(J)]
            q['A'], q['B'], q['C'] = ctx.real('A', (2, r)), ctx.real('B', (r, r)), ctx.real('C', (len(J), r))
            q['P'] = [ctx.orthonormal('P%d' % k, j, r) for k, j in enumerate(J)]
            for f in (q['A'], q['B'], q['C']):
                for i in range(r):
                    ctx.assume(spec.sumsq(f[:, i]), '>', 1e-2)
            for x in q['X']:
                ctx.assume(spec.sumsq(x), '>', 1e-2)
        else:
            shape = {'2': (3, 2), '3': (2, 3, 2), '4': (2, 1, 2, 2)}[self.form] if self.kind == 'cp' else (3, 2)
            q['X'] = ctx.real('X', shape)
            q['F'] = [ctx.real('U%d' % i, (s, r)) for i, s in enumerate(shape)]
            q['w'] = ctx.real('w', (r,), pos=True)
            ctx.assume(spec.sumsq(q['X']), '>', 1e-2)
            for f in q['F']:
                for i in range(r):
                    ctx.assume(spec.sumsq(f[:, i]), '>', 1e-2)
            if self.kind == 'cmtf':
                modes = {'0': [], '1': [0], '2': [0, 1], '2s': [0, 0]}[self.form]
                q['modes'] = modes
                q['Y'] = [ctx.real('Y%d' % i, (shape[m], 2)) for i, m in enumerate(modes)]
                q['V'] = [ctx.real('V%d' % i, (2, r)) for i, m in enumerate(modes)]
        if self.lam:
            q['lam'] = list(self.lam)
        return q

    def relabel(self, q, what, p):
        """the same problem with other labels"""
        q = dict(q)
        if what == 'components':
            for k in ('A', 'B', 'C'):
                if k in q:
                    q[k] = q[k][:, p]
            if 'F' in q:
                q['F'] = [f[:, p] for f in q['F']]
                q['w'] = q['w'][p]
            if 'V' in q:
                q['V'] = [v[:, p] for v in q['V']]
        elif what == 'modes':
            q['X'] = q['X'].transpose(p).copy()
            q['F'] = [q['F'][i] for i in p]
            if 'lam' in q:
                q['lam'] = [q['lam'][i] for i in p]
        elif what.startswith('rows') and self.kind != 'parafac2':
            m = int(what[4:])
            q['X'] = np.take(q['X'], p, axis=m)
            q['F'] = [f[p] if i == m else f for i, f in enumerate(q['F'])]
            if 'Y' in q:
                q['Y'] = [y[p] if i == m else y for i, y in zip(q['modes'], q['Y'])]
        elif what == 'rows':
            q['X'] = [x[p] for x in q['X']]
            q['A'] = q['A'][p]
        elif what == 'slices':
            q['X'] = [q['X'][i] for i in p]
            q['P'] = [q['P'][i] for i in p]
            q['C'] = q['C'][p]
        elif what == 'within':
            # in the last slice (in all slices when the data are an array)
            ks = range(len(q['X'])) if self.form == 'array' else [len(q['X']) - 1]
            q['X'] = [x[:, p] if k in ks else x for k, x in enumerate(q['X'])]
            q['P'] = [x[p] if k in ks else x for k, x in enumerate(q['P'])]
        elif what == 'columns':
            q['Y'] = q['Y'][:-1] + [q['Y'][-1][:, p]]
            q['V'] = q['V'][:-1] + [q['V'][-1][p]]
        elif what == 'matrices':
            for k in ('Y', 'V', 'modes'):
                q[k] = [q[k][i] for i in p]
        return q

    def length(self, q, what):
        if what == 'components':
            return self.rank
        if what == 'modes':
            return len(q['F'])
        if what == 'rows':
            return 2
        if what.startswith('rows'):
            return q['X'].shape[int(what[4:])]
        return {'slices': len(q['X']), 'within': q['X'][-1].shape[-1], 'columns': 2, 'matrices': 2}[what]

    def solve(self, q):
        """fit, and give back the result in the form of a problem"""
        ctx, D = self.ctx, self.ctx.tk.decs
        kw = dict(max_its=self.its, convergence_tol=-INF, init='precomputed', print_frequency=-1)
        if 'lam' in q:
            kw['ridge_penalties'] = list(q['lam'])
        if self.pen == 'nonneg':
            kw['non_negativity_constraints'] = [True, False, True][:self.N] + [True] * (self.N - 3)
        if self.pen == 'orth':
            kw['orthonormality_constraints'] = [False, False, True] if self.kind == 'parafac2' else [i == 1 for i in range(self.N)]
        kw.update(self.opts)
        if self.kind == 'parafac2':
            kw['cp_updates_per_it'] = self.cp
            m = self.Model(self.rank, **kw)
            X = ctx.copy(q['X'])
            if self.form == 'array':
                T = ctx.zeros(X[0].shape + (len(X),))
                for k, x in enumerate(X):
                    T[:, :, k] = x
                X = T
            with ctx.quiet():
                d = D.Parafac2Tensor(*[q[k].copy() for k in 'ABC'], ctx.copy(q['P']))
            m.fit(X, initial_decomposition=d if kw['init'] == 'precomputed' else None)
            d = m.decomposition
            out = dict(q, A=d.A.copy(), B=d.blueprint_B.copy(), C=d.C.copy(), P=ctx.copy(list(d.projection_matrices)))
        else:
            kw.setdefault('rel_loss_tol', -INF)
            m = self.Model(self.rank, **kw)
            d = D.KruskalTensor(ctx.copy(q['F']), q['w'].copy())
            X = q['X'].copy()
            if self.kind == 'cmtf':
                m.fit(X, ctx.copy(q['Y']), list(q['modes']), max_its=0, initial_decomposition=d)
                for v, new in zip(m.uncoupled_factor_matrices, q['V']):
                    v[...] = new
                m.continue_fit(max_its=self.its)
            else:
                m.fit(X, initial_decomposition=d if kw['init'] == 'precomputed' else None)
            d = m.decomposition
            out = dict(q, F=ctx.copy(list(d.factor_matrices)), w=d.weights.copy())
            if self.kind == 'cmtf':
                out['V'] = ctx.copy(list(m.uncoupled_factor_matrices))
        nums = [m.SSE, m.loss, m.MSE, m.explained_variance]
        self.steps = m.current_iteration
        if self.kind == 'parafac2':
            rec = ctx.copy(list(m.reconstructed_X))
            out['R'] = rec
        return out, nums

    def run(self, what):
        ctx = self.ctx
        q = self.problem()
        # error of the unrelabelled problem first: the assumptions made on it serve the relabelled ones
        with spec.generic(ctx):
            out, nums = self.solve(q)
        n = self.length(q, what)
        ctx.assume_that(n > 1)
        for p in perms(n):
            got, gnums = self.solve(self.relabel(q, what, p))
            if what == 'modes':
                want = self.relabel(out, what, p)
                if self.its == 0:
                    # the weights go to the first mode, whichever that is
                    D = ctx.tk.decs
                    a, b = [D.KruskalTensor(ctx.copy(x['F']), x['w'].copy()).construct_tensor() for x in (got, want)]
                    ctx.eq(a, b, 'modes: tensor', observe=False)
                if self.pen != 'ridge':
                    ctx.eq(gnums[1], nums[1], 'modes: loss', observe=False)
                nums_, gn_ = [nums[0]] + nums[2:], [gnums[0]] + gnums[2:]
            else:
                want = self.relabel(out, what, p)
                if 'R' in want:
                    R = out['R']
                    R = [x[p] for x in R] if what == 'rows' else [R[i] for i in p] if what == 'slices' else R
                    if what != 'within':
                        for a, b in zip(got['R'], R):
                            ctx.eq(a, b, what + ': reconstruction', observe=False)
                for k in ('A', 'B', 'C', 'w'):
                    if k in want:
                        ctx.eq(got[k], want[k], what + ': ' + k, observe=False)
                for k in ('F', 'V', 'P'):
                    for i, x in enumerate(want.get(k, [])):
                        ctx.eq(got[k][i], x, '%s: %s%d' % (what, k, i), observe=False)
                nums_, gn_ = nums, gnums
            for i, (x, y) in enumerate(zip(gn_, nums_)):
                ctx.eq(x, y, what + ': error measure %d' % i, observe=False)

    @contextlib.contextmanager
    def solvers(self):
        """in the symbolic run: arbitrary functions of the equations that do not look at the order of rows, columns and unknowns"""
        ctx, base = self.ctx, self.ctx.tk.base
        if not ctx.sym:
            yield
            return
        from collections import Counter
        from .. import npshim
        from ..sym import lift
        memo = {}
        names = ('rightsolve', 'non_negative_rightsolve', 'orthogonal_solve')
        old = {k: getattr(base, k) for k in names}

        def key(x):
            x = lift(x)
            return frozenset(x.n.items()), x.d

        def fresh(k):
            if k not in memo:
                memo[k] = ctx.real('new%d' % len(memo), ())
            return memo[k]

        def right(kind):
            def f(A, B):
                ctx.assume_that(A.shape[0] <= 2)
                A = [[key(x) for x in row] for row in A]
                B = [[key(x) for x in row] for row in B]
                out = ctx.zeros((len(B), len(A)))
                for i, b in enumerate(B):
                    for r, a in enumerate(A):
                        rest = [A[s] for s in range(len(A)) if s != r]
                        cols = Counter(zip(a, *rest, b))
                        out[i, r] = fresh((kind, frozenset(cols.items())))
                for r in range(len(A)):
                    ctx.assume(spec.sumsq(out[:, r]), '>', 1e-3)
                return out
            return f

        def orth(A, B):
            # the solution belongs to B^T A: row j of it to row j
            M = [tuple(key(x) for x in row) for row in npshim.asarray(B.T @ A)]
            out = ctx.zeros((len(M), A.shape[1]))
            every = frozenset(Counter(M).items())
            for j, row in enumerate(M):
                for r in range(A.shape[1]):
                    out[j, r] = fresh(('orth', row, r, every))
            return out.T
        base.rightsolve = right('r')
        base.non_negative_rightsolve = right('n')
        base.orthogonal_solve = orth
        try:
            yield
        finally:
            for k, f in old.items():
                setattr(base, k, f)
