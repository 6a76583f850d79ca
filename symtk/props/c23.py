"""C23: the result of a fit is a function of data, start and options, however the fit is carried out."""
import contextlib
import io
import math
import numpy as np
from . import c10, spec

BOUNDS = ('CP (order 2 and 3), CMTF (order 2 and 3, one coupled matrix) and PARAFAC2 (list and array data), lengths 1-3, rank 1-2, every kind of constraint; given and random starts '
          'with arbitrary values; runs of 0-3 iterations in one go, in parts, resumed from a file, after another fit of the same model (of other data, '
          'sizes, number of modes and length), with another model fitted in between, with and without loggers, checkpoints and printing; a used model against a new one where tolerances stop the fit, for limits 0-2 and arbitrary errors')
ASSUMPTIONS = ['the linear solvers are functions of their arguments (any such function)', 'no stopping by tolerances other than where the errors are arbitrary', 'the error is positive']
LIMITS = dict(max_paths=40, time=80, opaque=('abs',))

PENS = ('none', 'ridge', 'nonneg', 'orth')
INF = math.inf


def configs(tier):
    c = []
    big = tier == 'thorough'

    def add(what, kind, form, pen, rank=1, start='given', n=(1, 1), cp=1):
        name = '-'.join([what, kind + form, pen, start, 'r%d' % rank, '.'.join(map(str, n))] + (['u%d' % cp] if cp > 1 else []))
        if name not in seen:
            seen.add(name)
            c.append(dict(name=name, what=what, kind=kind, form=form, pen=pen, rank=rank, start=start, n=tuple(n), cp=cp,
                          **(dict(limits=dict(LIMITS, max_paths=1000)) if what in ('stops', 'printed') else {})))
    seen = set()
    for kind, forms in (('cp', ('2', '3')), ('cmtf', ('1', '3')), ('parafac2', ('list', 'array'))):
        for f in forms:
            for pen in PENS:
                add('refit', kind, f, pen, n=(1, 1))
                if pen in ('none', 'nonneg'):
                    add('refit', kind, f, pen, n=(2, 1))
                add('watch', kind, f, pen, n=(2,))
                if kind != 'cmtf':
                    add('parts', kind, f, pen, n=(1, 1))
                    add('resume', kind, f, pen, n=(1, 1))
                    add('between', kind, f, pen, n=(1, 1))
            if kind != 'cmtf':
                add('parts', kind, f, 'none', n=(1, 0, 2))
                add('parts', kind, f, 'none', n=(0, 2))
                add('parts', kind, f, 'nonneg', n=(1, 1), start='random')
                add('resume', kind, f, 'none', n=(2, 1))
                add('resume', kind, f, 'none', n=(1, 1, 1))
                add('file', kind, f, 'none', n=(1, 1))
                add('resume', kind, f, 'ridge', rank=2, n=(1, 1))
                add('parts', kind, f, 'none', rank=2, n=(1, 1))
                add('parts', kind, f, 'nonneg', rank=2, n=(1, 1))
            if kind != 'parafac2':
                add('modes', kind, f, 'none', n=(1, 1))
                add('modes', kind, f, 'none', n=(1, 1), start='random')
            add('refit', kind, f, 'none', n=(1, 1), start='random')
            add('same', kind, f, 'none', n=(1, 1), start='random')
            add('same', kind, f, 'none', n=(0, 1), start='random')
            add('same', kind, f, 'none', n=(1, 1))
            add('same', kind, f, 'nonneg', n=(1, 2))
            add('refit', kind, f, 'nonneg', n=(1, 1), start='random')
            add('refit', kind, f, 'none', rank=2, n=(1, 1))
            add('watch', kind, f, 'none', rank=2, n=(1,))
            add('watch', kind, f, 'none', n=(2,), start='random')
        add('stops', kind, 'any', 'none', n=(2, 2) if not big else (2, 3))
        add('printed', kind, 'any', 'none', n=(3,) if not big else (4,))
        if kind == 'parafac2':
            add('parts', kind, 'list', 'none', n=(1, 1), cp=2)
            add('resume', kind, 'list', 'ridge', n=(1, 1), cp=2)
            add('refit', kind, 'list', 'none', n=(1, 1), cp=2)
        if big:
            for f in forms:
                for pen in PENS:
                    add('refit', kind, f, pen, rank=2, n=(1, 1))
                    add('refit', kind, f, pen, n=(0, 2))
                    add('watch', kind, f, pen, rank=2, n=(2,))
                    if kind != 'cmtf':
                        for what in ('parts', 'resume', 'between'):
                            add(what, kind, f, pen, n=(1, 2))
                            add(what, kind, f, pen, n=(2, 1))
                            add(what, kind, f, pen, rank=2, n=(1, 1))
                        add('parts', kind, f, pen, n=(1, 1, 1, 1))
                        add('resume', kind, f, pen, n=(1, 1, 1))
                        add('file', kind, f, pen, n=(1, 1))
                        add('parts', kind, f, pen, n=(2, 1), start='random')
    return c


def harness(ctx, what, kind, form, pen, rank, start, n, cp):
    if what == 'printed':
        return printed(ctx, kind, n)
    if what == 'stops':
        return stops(ctx, kind, n)
    w = World(ctx, kind, form, pen, rank, start, cp)
    with w.solvers(), contextlib.redirect_stdout(io.StringIO()):
        getattr(w, what)(n)


def stops(ctx, kind, n):
    """stopping by tolerances: errors are arbitrary functions of the number of sweeps since the start of the fit"""
    used = c10.Run(ctx, kind, n[0], 'sym')
    used.fit(used.limit)
    limit = ctx.int('again', 0, n[1])
    used.fit(limit)
    new = c10.Run(ctx, kind, n[0], 'sym', like=used)
    new.fit(limit)
    ctx.ieq(used.m.current_iteration, new.m.current_iteration, 'used model: iterations')
    ctx.check(used.state - used.born == new.state - new.born, 'used model: sweeps')
    ctx.check(len(used.logs) == len(new.logs), 'used model: log entries')


def printed(ctx, kind, n):
    """stopping by tolerances with and without printing, checkpoints and loggers"""
    plain = c10.Run(ctx, kind, n[0], 'sym')
    plain.fit(plain.limit)
    for freq in (1, 2):
        more = dict(loggers=[], checkpoint_path=ctx.path('run.h5'), checkpoint_frequency=1) if freq == 2 else {}
        other = c10.Run(ctx, kind, n[0], 'sym', like=plain, print_frequency=freq, **more)
        with contextlib.redirect_stdout(io.StringIO()):
            other.fit(plain.limit)
        ctx.ieq(other.m.current_iteration, plain.m.current_iteration, 'printing every %d: iterations' % freq)
        ctx.check(other.state - other.born == plain.state - plain.born, 'printing every %d: sweeps' % freq)


class World:
    def __init__(self, ctx, kind, form, pen, rank, start, cp):
        self.ctx, self.kind, self.form, self.pen, self.rank, self.how, self.cp = ctx, kind, form, pen, rank, start, cp
        self.N = 3 if kind == 'parafac2' or form == '3' else 2
        self.lam = [ctx.real('lam%d' % i, (), pos=True) for i in range(self.N)] if pen == 'ridge' else None
        self.nf = 0
        cls = dict(cp=ctx.tk.cp.CP_ALS, cmtf=ctx.tk.cmtf.CMTF_ALS, parafac2=ctx.tk.parafac2.Parafac2_ALS)[kind]

        class Model(cls):
            @property
            def SSE(self):
                s = cls.SSE.__get__(self)
                ctx.assume(s, '>', 1e-6)
                return s

            @property
            def loss(self):
                s = cls.loss.__get__(self)
                ctx.assume(s, '>', 1e-6)
                return s
        Model.__name__ = cls.__name__
        self.Model = Model

    def model(self, **kw):
        if self.pen == 'ridge':
            kw['ridge_penalties'] = list(self.lam)
        if self.pen == 'nonneg':
            kw['non_negativity_constraints'] = [True, False, True][:self.N]
        if self.pen == 'orth':
            kw['orthonormality_constraints'] = [False, False, True] if self.kind == 'parafac2' else [False, True, False][:self.N]
        if self.kind == 'parafac2':
            kw['cp_updates_per_it'] = self.cp
        else:
            kw['rel_loss_tol'] = -INF
        kw.setdefault('init', 'precomputed' if self.how == 'given' else 'random')
        kw.setdefault('print_frequency', -1)
        return self.Model(self.rank, convergence_tol=-INF, **kw)

    # ---- data and starts
    def data(self, tag, other=False):
        """other: of another size, or with another number of modes"""
        ctx = self.ctx
        r = self.rank
        if self.kind == 'parafac2':
            if self.form == 'array':
                X = ctx.real('X' + tag, (2, r + (not other), 2))
            else:
                J = [r, r + 1] if not other else [r + 1, r, r]
                X = [ctx.real('X%s%d' % (tag, k), (2, j)) for k, j in enumerate(J)]
                for x in X:
                    ctx.assume(spec.sumsq(x), '>', 1e-3)
                return [X]
            ctx.assume(spec.sumsq(X), '>', 1e-3)
            return [X]
        if other == 'modes':
            shape = (1, 2) if self.form == '3' else (2, 1, 2)
        elif self.form == '3':
            shape = (2, r, 2) if not other else (r, 2, 1)
        else:
            shape = (2, 3) if not other else (3, 2)
        X = ctx.real('X' + tag, shape)
        ctx.assume(spec.sumsq(X), '>', 1e-3)
        if self.kind == 'cmtf':
            return [X, [ctx.real('Y' + tag, (shape[0], 2 if not other else 1))], [0]]
        return [X]

    def start(self, tag, args):
        """arbitrary parts of a start; build() makes a new decomposition of them"""
        if self.how != 'given':
            return None
        ctx, r = self.ctx, self.rank
        if self.kind == 'parafac2':
            I, J, K = self.sizes(args[0])
            parts = [ctx.real('A' + tag, (I, r)), ctx.real('B' + tag, (r, r)), ctx.real('C' + tag, (K, r))]
            P = [ctx.orthonormal('P%s%d' % (tag, k), j, r) for k, j in enumerate(J)]
        else:
            parts = [ctx.real('U%s%d' % (tag, i), (s, r)) for i, s in enumerate(args[0].shape)]
            P = ctx.real('w' + tag, (r,), pos=True)
        for f in parts:
            for q in range(r):
                ctx.assume(spec.sumsq(f[:, q]), '>', 1e-3)
        if self.pen == 'orth':
            # this mode is made orthonormal when the fit starts
            i = 2 if self.kind == 'parafac2' else 1
            parts[i] = ctx.orthonormal('Q' + tag, parts[i].shape[0], r) if parts[i].shape[0] >= r else parts[i]
            if ctx.sym:
                from .. import npshim
                ctx.e.qr_known.append((parts[i], parts[i], npshim.eye(r)))
        return parts, P

    def sizes(self, X):
        if isinstance(X, list):
            return len(X[0]), [x.shape[1] for x in X], len(X)
        return X.shape[0], [X.shape[1]] * X.shape[2], X.shape[2]

    def build(self, s):
        if s is None:
            return None
        D, parts, P = self.ctx.tk.decs, [self.ctx.copy(f) for f in s[0]], self.ctx.copy(s[1])
        if self.kind == 'parafac2':
            return D.Parafac2Tensor(*parts, P)
        return D.KruskalTensor(parts, P)

    @contextlib.contextmanager
    def solvers(self):
        """in the symbolic run every solver is an arbitrary function of its arguments"""
        ctx, base = self.ctx, self.ctx.tk.base
        if not ctx.sym:
            yield
            return
        from .. import npshim
        memo = {}
        cnt = [0]
        names = ('rightsolve', 'non_negative_rightsolve', 'orthogonal_rightsolve', 'orthogonal_solve')
        old = {k: getattr(base, k) for k in names}

        def stub(kind):
            def f(A, B):
                key = (kind, npshim.matkey(npshim.asarray(A)), npshim.matkey(npshim.asarray(B)))
                if key not in memo:
                    cnt[0] += 1
                    name = 'new%d' % cnt[0]
                    left = kind == 'orthogonal_solve'
                    sh = (A.shape[1], B.shape[1]) if left else (B.shape[0], A.shape[0])
                    if kind.startswith('orth'):
                        # orthonormal rows (left: A X = B) or columns
                        wide = sh[0] < sh[1]
                        Q = ctx.orthonormal(name, max(sh), min(sh))
                        ctx.e.qr_known.append((Q, Q, npshim.eye(min(sh))))
                        r = Q.T if wide else Q
                    else:
                        r = ctx.real(name, sh)
                        for q in range(sh[1]):
                            ctx.assume(spec.sumsq(r[:, q]), '>', 1e-3)
                    memo[key] = r
                return memo[key].copy()
            return f
        ctx.loose_svd()
        for k in names:
            setattr(base, k, stub(k))
        try:
            yield
        finally:
            for k, f in old.items():
                setattr(base, k, f)

    # ---- comparing
    def result(self, m):
        d = m.decomposition
        if self.kind == 'parafac2':
            parts = [d.A, d.blueprint_B, d.C] + list(d.projection_matrices)
        else:
            parts = list(d.factor_matrices) + [d.weights]
        if self.kind == 'cmtf':
            parts = parts + list(m.uncoupled_factor_matrices) + list(m.coupled_factor_matrices)
        return self.ctx.copy(parts) + [m.current_iteration, m.loss, m.MSE]

    def compare(self, a, b, tag):
        ctx = self.ctx
        ctx.check(len(a) == len(b), tag + ': same parts')
        for i, (x, y) in enumerate(zip(a, b)):
            if i == len(a) - 3:
                ctx.ieq(x, y, tag + ': iterations')
            else:
                ctx.eq(x, y, tag + ': part %d' % i, observe=False)

    def fit(self, m, args, s, its):
        m.fit(*args, max_its=its, initial_decomposition=self.build(s) if not isinstance(s, str) else s)

    def plain(self, args, s, its, state=None):
        m = self.model()
        if state is not None:
            self.ctx.reseed(state)
        self.fit(m, args, s, its)
        return self.result(m)

    # ---- ways to carry out a fit
    def same(self, n):
        self.refit(n, False)

    def modes(self, n):
        self.refit(n, 'modes')

    def refit(self, n, other=True):
        ctx = self.ctx
        m = self.model()
        for k, its in enumerate(n):
            args = self.data('d%d' % k, other=other if k == 0 else False)
            s = self.start('s%d' % k, args)
            state = ctx.rand_state()
            self.fit(m, args, s, its)
        got = self.result(m)
        self.compare(got, self.plain(args, s, n[-1], state), 'used model')

    def watch(self, n):
        ctx = self.ctx
        L = ctx.tk.loggers
        args = self.data('d')
        s = self.start('s', args)
        state = ctx.rand_state()
        want = self.plain(args, s, n[0])
        ctx.reseed(state)
        m = self.model(loggers=[getattr(L, k)() for k in ('LossLogger', 'MSELogger', 'SSELogger', 'RMSELogger', 'ExplainedVarianceLogger')],
                       checkpoint_path=ctx.path('run.h5'), checkpoint_frequency=1, print_frequency=1)
        self.fit(m, args, s, n[0])
        self.compare(self.result(m), want, 'watched')
        if self.how == 'given':
            for freq in (None, -1):
                ctx.reseed(state)
                m = self.model(print_frequency=freq, checkpoint_frequency=0)
                self.fit(m, args, s, n[0])
                self.compare(self.result(m), want, 'print frequency %s' % freq)

    def parts(self, n, between=False):
        ctx = self.ctx
        args = self.data('d')
        s = self.start('s', args)
        state = ctx.rand_state()
        total = sum(n)
        m = self.model()
        done = 0
        for k, its in enumerate(n):
            done += its
            if k == 0:
                self.fit(m, args, s, its)
            else:
                m.continue_fit(max_its=done)
            if between and k == 0:
                o = self.data('o', other=True)
                other = self.model()
                self.fit(other, o, self.start('o', o), 1)
        got = self.result(m)
        self.compare(got, self.plain(args, s, total, state), 'parts')

    def between(self, n):
        self.parts(n, True)

    def resume(self, n, init=None):
        ctx = self.ctx
        args = self.data('d')
        s = self.start('s', args)
        state = ctx.rand_state()
        path = ctx.path('run.h5')
        done = 0
        for k, its in enumerate(n):
            done += its
            kw = dict(checkpoint_path=path, checkpoint_frequency=1)
            if k == 0:
                m = self.model(**kw)
                self.fit(m, args, s, done)
            else:
                m = self.model(init=init(path) if init else 'from_checkpoint', **kw)
                self.fit(m, args, None if init else path, done)
        got = self.result(m)
        self.compare(got, self.plain(args, s, sum(n), state), 'resumed')

    def file(self, n):
        self.resume(n, lambda p: p)
