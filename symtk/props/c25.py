"""C25: results do not depend on the units of the data: scaling the data scales the fit, and relative scores stay as they are."""
import contextlib
import numpy as np
from . import spec
from .c24 import World as Base

BOUNDS = ('CP (order 2 to 4), CMTF (0-2 coupled matrices) and PARAFAC2 (2-3 slices, equal or different widths), lengths 1-3, rank 1-2, no constraint, non-negativity or '
          'orthonormality, 0-3 iterations from arbitrary starts, with and without tolerances, every mode taking the unit; scores of 2-4 modes, rank 1-2; any positive factor')
ASSUMPTIONS = ['the linear solvers commute with scaling their arguments (any such function)', 'the error is positive',
               'no ridge penalties (they carry units themselves)']
LIMITS = dict(max_paths=120, time=80, opaque=('abs',))
INF = float('inf')


def configs(tier):
    c, seen = [], set()
    big = tier == 'thorough'

    def add(kind, form, pen, what, rank=1, its=1, cp=1, tol=False, mag=0):
        if pen == 'nonneg':
            mag = max(-5, min(mag, 5))   # scipy's nnls stops at an absolute tolerance of about 1e-15
        name = '-'.join([kind + form, pen, what, 'r%d' % rank, 'i%d' % its] + (['u%d' % cp] if cp > 1 else []) + (['tol'] if tol else []) + (['1e%d' % mag] if mag else []))
        if name not in seen:
            seen.add(name)
            c.append(dict(name=name, kind=kind, form=form, pen=pen, what=what, rank=rank, its=its, cp=cp, tol=tol, mag=mag))
    for pen in ('none', 'nonneg', 'orth'):
        for form in ('2', '3'):
            for m in range(int(form)):
                if pen == 'orth' and m == 1:
                    continue
                add('cp', form, pen, 'unit%d' % m)
                add('cp', form, pen, 'unit%d' % m, its=2)
                if form == '2' or pen == 'none':
                    add('cp', form, pen, 'unit%d' % m, rank=2)
            if pen != 'orth':
                add('cp', form, pen, 'move01', its=2)
                add('cp', form, pen, 'move10', rank=2)
            add('cp', form, pen, 'unit0', its=2, tol=True)
        for form in ('0', '1', '2s') if pen != 'orth' else ():
            add('cmtf', form, pen, 'same')
            add('cmtf', form, pen, 'same', rank=2)
            add('cmtf', form, pen, 'same', its=2)
        for form in ('list', 'array'):
            for m in range(3):
                if pen == 'orth' and m == 2:
                    continue
                add('parafac2', form, pen, 'unit%d' % m)
                add('parafac2', form, pen, 'unit%d' % m, rank=2)
            add('parafac2', form, pen, 'unit0', its=2, cp=2)
            add('parafac2', form, pen, 'move01')
            add('parafac2', form, pen, 'unit0', its=2, tol=True)
        add('parafac2', 'three', pen, 'unit1')
    add('cp', '4', 'none', 'unit3')
    for init in ('random', 'svd'):
        for form in ('2', '3'):
            add('cp', form, 'none', init)
        for form in ('list', 'array'):
            add('parafac2', form, 'none', init)
    for n in (2, 3, 4):
        for r in (1, 2):
            add('scores', str(n), 'none', '', rank=r, its=0)
    for mag in (-6, 9) + ((-7, 30) if big else ()):
        for pen in ('none', 'nonneg', 'orth'):
            add('cp', '3', pen, 'unit0', mag=mag)
            add('cp', '2', pen, 'unit0', its=2, tol=True, mag=mag)
            add('parafac2', 'list', pen, 'unit0', mag=mag)
            add('parafac2', 'array', pen, 'unit0', its=2, tol=True, mag=mag)
        for pen in ('none', 'nonneg'):
            add('cmtf', '1', pen, 'same', its=2, mag=mag)
        add('cp', '2', 'none', 'unit0', rank=2, mag=mag)
        add('cp', '3', 'none', 'move01', its=2, mag=mag)
        add('parafac2', 'list', 'none', 'move01', mag=mag)
        add('cp', '3', 'none', 'svd', mag=mag)
        add('parafac2', 'list', 'none', 'svd', mag=mag)
        for n in (2, 3):
            add('scores', str(n), 'none', '', rank=2, its=0, mag=max(-5, min(mag, 5)))
    if big:
        for pen in ('none', 'nonneg', 'orth'):
            for form in ('2', '3', '4'):
                for m in range(int(form)):
                    if not (pen == 'orth' and m == 1):
                        add('cp', form, pen, 'unit%d' % m, rank=2, its=2)
                        add('cp', form, pen, 'unit%d' % m, its=3, tol=True)
            for form in ('0', '1', '2s') if pen != 'orth' else ():
                add('cmtf', form, pen, 'same', its=3)
            for form in ('list', 'array', 'three'):
                for m in range(3):
                    if not (pen == 'orth' and m == 2):
                        add('parafac2', form, pen, 'unit%d' % m, its=2, cp=2)
                        add('parafac2', form, pen, 'unit%d' % m, its=3, tol=True)
    return c


def harness(ctx, kind, form, pen, what, rank, its, cp, tol, mag=0):
    if kind == 'scores':
        return scores(ctx, int(form), rank, mag)
    w = World(ctx, kind, form, pen, rank, its, cp, tol, mag)
    with w.solvers():
        w.run(what)


class World(Base):
    def __init__(self, ctx, kind, form, pen, rank, its, cp, tol, mag=0):
        super().__init__(ctx, kind, form, pen, rank, its, cp)
        self.mag = mag
        if mag:
            self.c = 10.0**mag
            if ctx.sym:
                from ..sym import lift
                self.c = lift(self.c)
        else:
            self.c = ctx.real('unit', (), pos=True)
            ctx.assume(self.c, '>', 1e-1)
            ctx.assume(10, '>', self.c)
        self.opts = {}
        if tol:
            self.opts['convergence_tol'] = ctx.real('tol', (), pos=True)
            if kind != 'parafac2':
                self.opts['rel_loss_tol'] = ctx.real('rtol', (), pos=True)

    def problem(self):
        ctx = self.ctx
        q = super().problem()
        if self.pen == 'orth':
            # the start meets the constraint
            f = q['C'] if self.kind == 'parafac2' else q['F'][1]
            Q = ctx.orthonormal('Q', *f.shape)
            if self.kind == 'parafac2':
                q['C'] = Q
            else:
                q['F'][1] = Q
            if ctx.sym:
                from .. import npshim
                ctx.e.qr_known.append((Q, Q, npshim.eye(self.rank)))
        return q

    def scaled(self, q, powers, data):
        """the problem with mode i of the components (and the data) multiplied by powers of the unit"""
        c = self.c
        q = dict(q)

        def times(x, n):
            x = x.copy()
            for _ in range(n):
                x = x * c
            for _ in range(-n):
                x = x / c
            return x
        if data:
            q['X'] = [times(x, 1) for x in q['X']] if isinstance(q['X'], list) else times(q['X'], 1)
            if 'Y' in q:
                q['Y'] = [times(y, 1) for y in q['Y']]
        if self.kind == 'parafac2':
            for k, n in zip('ABC', powers):
                q[k] = times(q[k], n)
        else:
            q['F'] = [times(f, n) for f, n in zip(q['F'], powers)]
        return q

    def run(self, what):
        ctx = self.ctx
        q = self.problem()
        data = not what.startswith('move')
        N = self.N
        if what.startswith('unit'):
            powers = [int(i == int(what[4:])) for i in range(N)]
        elif what.startswith('move'):
            powers = [0] * N
            powers[int(what[4])], powers[int(what[5])] = 1, -1
        elif what == 'same':
            # the first mode is the coupled one and is updated first
            powers = [0] * N
        else:
            # the start does not depend on the unit: the mode updated first takes it
            self.opts = dict(self.opts, init=what)
            powers = [1] + [0] * (N - 1)
            for x in q['X'] if isinstance(q['X'], list) else [q['X']]:
                ctx.assume(spec.sumsq(x), '>', 1e-1)
        self.compare(q, powers, data)
        if ctx.sym or 'convergence_tol' not in self.opts:
            return
        # replays of a counterexample also use tolerances at which this start is about to stop
        its, opts = self.its, self.opts
        self.opts = {k: v for k, v in opts.items() if 'tol' not in k}
        trace = []
        state = ctx.rand_state()
        for self.its in range(its + 1):
            ctx.reseed(state)
            trace.append(self.solve(q)[1])
        self.its = its
        for near in (0.99, 1.01):
            for t, u in zip(trace, trace[1:]):
                for tol in ({'convergence_tol': near * (t[1] - u[1]) / t[1]},) + (({'rel_loss_tol': near * (1 - t[3])},) if self.kind != 'parafac2' else ()):
                    if min(tol.values()) > 1e-6:
                        self.opts = dict({k: v for k, v in opts.items() if 'tol' not in k}, **tol)
                        ctx.reseed(state)
                        self.compare(q, powers, data, 'near: ')

    def compare(self, q, powers, data, tag=''):
        ctx = self.ctx
        state = ctx.rand_state()
        with spec.generic(ctx):
            out, nums = self.solve(q)
        steps = self.steps
        ctx.reseed(state)
        self.unit = self.c * self.c if data and self.mag else 1
        got, gnums = self.solve(self.scaled(q, powers, data))
        self.unit = 1
        ctx.ieq(self.steps, steps, tag + 'as many iterations')
        # compared in the original unit
        raw, got, want = got, self.scaled(got, [-n for n in powers], False), out
        if self.kind == 'cmtf' or (self.kind != 'parafac2' and steps == 0):
            # the unit is in the weights, or in the first mode
            D = ctx.tk.decs
            a, b = [D.KruskalTensor(ctx.copy(x['F']), x['w'].copy()).construct_tensor() for x in (raw, out)]
            ctx.eq(a / self.c if data else a, b, tag + 'tensor', observe=False)
            for i, v in enumerate(out.get('V', [])):
                m = q['modes'][i]
                ctx.eq((got['F'][m] @ got['V'][i].T) / self.c, out['F'][m] @ v.T, tag + 'matrix %d' % i, observe=False)
        else:
            for k in ('A', 'B', 'C', 'w'):
                if k in want:
                    ctx.eq(got[k], want[k], tag + 'scaled: ' + k, observe=False)
            for k in ('F', 'P'):
                for i, x in enumerate(want.get(k, [])):
                    ctx.eq(got[k][i], x, tag + 'scaled: %s%d' % (k, i), observe=False)
        unit = self.c * self.c if data else 1
        for x, y, f, label in zip(gnums, nums, (unit, unit, unit, 1), ('SSE', 'loss', 'MSE', 'explained variance')):
            ctx.eq(x / f, y, tag + label, observe=False)

    @contextlib.contextmanager
    def solvers(self):
        """in the symbolic run: arbitrary functions that commute with scaling their arguments"""
        ctx, base = self.ctx, self.ctx.tk.base
        if not ctx.sym:
            yield
            return
        from .. import npshim
        from ..sym import lift
        memo = {}
        names = ('rightsolve', 'non_negative_rightsolve', 'orthogonal_rightsolve', 'orthogonal_solve')
        old = {k: getattr(base, k) for k in names}
        c = lift(self.c)
        pw = {0: lift(1)}
        for k in range(1, 5):
            pw[k] = pw[k - 1] * c
            pw[-k] = pw[1 - k] / c

        def power(A, B):
            """n with A = c^n B"""
            if A.shape != B.shape:
                return None
            A, B = [lift(x) for x in A.reshape(-1)], [lift(x) for x in B.reshape(-1)]
            for n in (0, 1, -1, 2, -2, 3, -3, 4, -4):
                if all((a - b * pw[n]).is_zero() for a, b in zip(A, B)):
                    return n
            return None

        def times(X, n):
            return X * pw[n] if n else X.copy()

        def seen(kind, A, B):
            for A0, B0, X in memo.setdefault(kind, []):
                m = power(A, A0)
                n = power(B, B0) if m is not None else None
                if n is not None:
                    return X, n - m
            return None, 0

        def stub(kind):
            def f(A, B):
                A, B = npshim.asarray(A), npshim.asarray(B)
                X, n = seen(kind, A, B)
                if X is None:
                    name = 'new%d%s' % (len(memo[kind]), kind)
                    sh = (A.shape[1], B.shape[1]) if kind == 'orthogonal_solve' else (B.shape[0], A.shape[0])
                    if kind.startswith('orth'):
                        wide = sh[0] < sh[1]
                        Q = ctx.orthonormal(name, max(sh), min(sh))
                        ctx.e.qr_known.append((Q, Q, npshim.eye(min(sh))))
                        X = Q.T if wide else Q
                    else:
                        X = ctx.real(name, sh)
                        for q in range(sh[1]):
                            ctx.assume(spec.sumsq(X[:, q]), '>', 1e-3)
                    memo[kind].append((A.copy(), B.copy(), X))
                return X.copy() if kind.startswith('orth') else times(X, n)
            return f
        for k in names:
            setattr(base, k, stub(k))
        old_svd, known = npshim._svd, []

        def svd(A, *sizes):
            for A0, U, S, V in known:
                n = power(A, A0)
                if n is not None:
                    return U, times(S, n), V
            known.append((A.copy(),) + tuple(old_svd(A, *sizes)))
            return known[-1][1:]
        npshim._svd = svd
        try:
            yield
        finally:
            npshim._svd = old_svd
            for k, f in old.items():
                setattr(base, k, f)


def scores(ctx, n, r, mag=0):
    tk = ctx.tk
    if mag:
        c, d = 10.0**mag, 10.0**-mag
    else:
        c, d = ctx.real('c', (), pos=True), ctx.real('d', (), pos=True)
        for x in (c, d):
            ctx.assume(x, '>', 1e-1)
            ctx.assume(10, '>', x)
    shape = [2, 3, 2, 2][:n]
    X, Z = ctx.real('X', tuple(shape)), ctx.real('Z', tuple(shape))
    ctx.assume(spec.sumsq(X), '>', 1e-2)
    F = [ctx.real('F%d' % i, (s, r)) for i, s in enumerate(shape)]
    G = [ctx.real('G%d' % i, (s, r)) for i, s in enumerate(shape)]
    for f in F + G:
        for i in range(r):
            ctx.assume(spec.sumsq(f[:, i]), '>', 1e-2)
    M, D = tk.metrics, tk.decs
    ctx.eq(M.percent_explained(X * c, Z * c), M.percent_explained(X, Z), 'explained fraction')
    W = ctx.zeros(tuple(shape))
    W[(0,) * n] = 1
    ctx.assume(spec.sumsq((1 - W) * X), '>', 1e-2)
    ctx.eq(M.tensor_completion_score(X * c, Z * c, W), M.tensor_completion_score(X, Z, W), 'completion score')
    a, b = ctx.real('a', (), pos=True), ctx.real('b', (), pos=True)
    bool(a >= b)
    ctx.eq(M.weight_score(a * c, b * c), M.weight_score(a, b), 'weight score')
    K = D.KruskalTensor(ctx.copy(F))
    S = D.KruskalTensor([F[0] * c] + [F[1] * d] + ctx.copy(F[2:]))
    ctx.eq(S.degeneracy(), K.degeneracy(), 'degeneracy')
    x, p = M.factor_match_score(F, G, weight_penalty=False)
    y, q = M.factor_match_score([F[0] * c] + ctx.copy(F[1:]), ctx.copy(G[:-1]) + [G[-1] * d], weight_penalty=False)
    ctx.eq(y, x, 'match score')
    if r == 1:
        ctx.eq(M.leverage(F[1] * c), M.leverage(F[1]), 'leverage')
