"""C06: SSE, MSE, RMSE, explained variance and loss of the CP decomposer describe the current decomposition and data."""
import numpy as np
from . import spec

BOUNDS = ('orders 2-4, mode lengths 1-3, rank 1-2; arbitrary data, factors, weights, penalties; updates return arbitrary matrices '
          '(so the identities hold for whatever the solver returns); histories of up to 5 events: start, updates of any mode, sweeps inside fit, '
          'refitting on other data, loading a checkpoint, normalising or scaling the returned decomposition')
LIMITS = dict(max_paths=60, time=40, opaque=('abs',))


def configs(tier):
    c = []
    big = tier == 'thorough'

    def add(shape, rank, hist, pen='none'):
        c.append(dict(name='%s-r%d-%s%s' % ('x'.join(map(str, shape)), rank, '-'.join(hist), '' if pen == 'none' else '-' + pen),
                      shape=shape, rank=rank, hist=tuple(hist), pen=pen, **(dict(layout=None) if any(h.startswith('same') for h in hist) else {})))
    for s, r in [((2, 2), 2), ((2, 1, 2), 2), ((1, 2, 2, 1), 1), ((3, 2), 1)] + ([((2, 2, 2), 2), ((2, 1, 2, 2), 2), ((3, 2, 2), 1)] if big else []):
        for pen in ('none', 'ridge', 'nonneg', 'orth', 'some'):
            if pen == 'orth' and min(s) < r:
                continue
            add(s, r, ['start'], pen)
            for m in range(len(s)):
                add(s, r, ['start', 'update%d' % m], pen)
    for s, r, pens in [((2, 2), 2, ['r01']), ((2, 1, 2), 2, ['r010', 'r101', 'r001', 'r011']), ((1, 2, 2, 1), 1, ['r0101', 'r0010'])]:
        # some modes without a penalty
        for pen in pens:
            add(s, r, ['start'], pen)
            add(s, r, ['start', 'update%d' % (len(s) - 1)], pen)
            add(s, r, ['start', 'update0'], pen)
    S, r = (2, 2), 2
    for pen in ('none', 'some'):
        add(S, 1, ['weighted'], pen)
        add((2, 1, 2), 2, ['weighted'], pen)
        add(S, r, ['start', 'update0', 'update1', 'update0'], pen)
        add((2, 1, 2), 2, ['start', 'update2', 'update0'], pen)
        add(S, 1, ['fit'], pen)
        add((2, 1, 2), 1, ['fit'], pen)
        add(S, 1, ['fit', 'scale'], pen)
        add(S, 1, ['fit', 'normalise'], pen)
        add(S, 1, ['fit', 'set'], pen)
        add(S, 1, ['start', 'update0', 'load'], pen)
        add(S, 1, ['fit', 'load'], pen)
        add(S, 1, ['fit', 'load', 'update1'], pen)
        add(S, 1, ['fit', 'start2'], pen)
        add(S, 1, ['start', 'update1', 'start2'], pen)
        add(S, 1, ['start', 'update1', 'target'], pen)
        add(S, 1, ['fit', 'start2', 'update0'], pen)
        add(S, 1, ['fit', 'fit2'], pen)
        add(S, 1, ['fit2', 'scale', 'continue'], pen)
        add(S, 1, ['start', 'same'], pen)
        add(S, 1, ['start', 'update0', 'sametarget'], pen)
        add(S, 1, ['fit', 'samefit'], pen)
        add(S, r, ['start', 'update0', 'update1', 'loadit'], pen)
        add(S, 1, ['fit', 'loadit', 'update0'], pen)
        add(S, r, ['start', 'update1', 'other'], pen)
        add((2, 1, 2), 1, ['start', 'update2', 'other', 'update0'], pen)
        add(S, 1, ['start', 'load', 'continue'], pen)
        if big:
            add((2, 1, 2), 2, ['fit', 'scale', 'update0'], pen)
            add((2, 2), 2, ['fit', 'load', 'start2', 'update1', 'update0'], pen)
            add((2, 1, 2), 1, ['fit', 'fit2', 'load', 'continue'], pen)
    return c


class World:
    def __init__(self, ctx, shape, rank, pen):
        self.ctx, self.shape, self.rank = ctx, shape, rank
        N = len(shape)
        kw = {}
        self.lam = [0] * N
        if pen == 'ridge':
            self.lam = [ctx.real('lam%d' % n, (), pos=True) for n in range(N)]
        if pen == 'some':
            self.lam = [ctx.real('lam0', (), pos=True)] + [0] * (N - 1)
            kw['non_negativity_constraints'] = [False] * (N - 1) + [True]
        if pen[0] == 'r' and pen != 'ridge':
            self.lam = [ctx.real('lam%d' % n, (), pos=True) if q == '1' else 0 for n, q in enumerate(pen[1:])]
        if pen[0] == 'r' or pen == 'some':
            kw['ridge_penalties'] = list(self.lam)
        if pen == 'nonneg':
            kw['non_negativity_constraints'] = [True] * N
        if pen == 'orth':
            kw['orthonormality_constraints'] = [False] * (N - 1) + [True]
        w = self

        class Log:
            """looks at the model after every iteration"""
            def log(self, model):
                w.look(model, 'in fit')

            def write_to_hdf5_group(self, h):
                pass
        self.model = ctx.tk.cp.CP_ALS(rank, max_its=1, convergence_tol=-1, rel_loss_tol=-1, init='precomputed', loggers=[Log()], **kw)
        self.pen = pen
        self.X = None

    def start(self, tag):
        ctx = self.ctx
        U = []
        for n, s in enumerate(self.shape):
            if self.pen == 'orth' and n == len(self.shape) - 1:
                U.append(ctx.orthonormal('%sU%d' % (tag, n), s, self.rank))
                if ctx.sym:
                    q = ctx.zeros((self.rank, self.rank))
                    q[...] = np.eye(self.rank, dtype=int)
                    ctx.e.qr_known.append((U[-1], U[-1], q))
            else:
                U.append(ctx.real('%sU%d' % (tag, n), (s, self.rank)))
        return U

    def look(self, model, label):
        ctx = self.ctx
        dec = model.decomposition
        X = self.X
        rec = spec.kruskal(list(dec.factor_matrices), dec.weights)
        sse = spec.sumsq(X - rec)
        n = int(np.prod(self.shape))
        xx = spec.sumsq(X)
        # true for any sum of squares; spares the solver the sign of expanded squares
        ctx.assume(sse, '>', 1e-6)
        ctx.assume(sse + xx, '>')
        ctx.eq(model.SSE, sse, label + ': SSE')
        ctx.eq(model.MSE, sse / n, label + ': MSE')
        ctx.eq(model.RMSE, ctx.sqrt(sse / n), label + ': RMSE')
        ctx.eq(model.explained_variance, 1 - sse / xx, label + ': explained variance')
        loss = sse
        for l, f in zip(self.lam, dec.factor_matrices):
            loss = loss + l * spec.sumsq(f)
        ctx.eq(model.loss, loss, label + ': loss')


def harness(ctx, shape, rank, hist, pen):
    base, D = ctx.tk.base, ctx.tk.decs
    w = World(ctx, shape, rank, pen)
    m = w.model
    old = {k: getattr(base, k) for k in ('rightsolve', 'non_negative_rightsolve', 'orthogonal_rightsolve')}
    cnt = [0]

    def anything(A, B):
        cnt[0] += 1
        return ctx.real('new%d' % cnt[0], (B.shape[0], A.shape[0]))
    for k in old:
        setattr(base, k, anything)
    try:
        path = ctx.path('cp.h5')
        for step, ev in enumerate(hist):
            tag = 'e%d' % step
            if ev in ('start', 'weighted', 'start2', 'fit', 'fit2', 'target', 'same', 'sametarget', 'samefit'):
                X = ctx.real(tag + 'X', shape)
                ctx.assume(spec.sumsq(X), '>', 1e-3)
                if ev.startswith('same'):
                    # other values in the same array
                    w.X[...] = X
                    X, ev = w.X, ev[4:]
                w.X = X
                if ev == 'target':
                    m.set_target(X)
                else:
                    U = w.start(tag)
                    wt = ctx.real(tag + 'w', (rank,)) if ev == 'weighted' else None
                    d = D.KruskalTensor(U, wt)
                    s0 = spec.sumsq(X - spec.kruskal(U, wt))
                    ctx.assume(s0, '>', 1e-6)
                    ctx.assume(s0 + spec.sumsq(X), '>')
                    if ev.startswith('fit'):
                        m.fit(X, max_its=1, initial_decomposition=d)
                    else:
                        m._init_fit(X, None, d)
            elif ev.startswith('update'):
                m._update_als_factor(int(ev[6:]))
            elif ev == 'scale':
                a = ctx.real(tag + 'a', ())
                f = m.decomposition.factor_matrices[1]
                f[...] = f * a
            elif ev == 'set':
                m.decomposition = D.KruskalTensor(w.start(tag), ctx.real(tag + 'w', (rank,)))
            elif ev == 'normalise':
                for f in m.decomposition.factor_matrices:
                    for r in range(rank):
                        ctx.assume(spec.sumsq(f[:, r]), '>', 1e-3)
                m.decomposition.normalize_components()
            elif ev in ('load', 'loadit'):
                other = ctx.tk.cp.CP_ALS(rank, init='precomputed', checkpoint_path=path)
                other._init_fit(ctx.real(tag + 'X', shape), None, D.KruskalTensor(w.start(tag)))
                other.store_checkpoint(0)
                if ev == 'loadit':
                    other._init_fit(ctx.real(tag + 'X2', shape), None, D.KruskalTensor(w.start(tag + 'two')))
                    other.store_checkpoint(1)
                    m.load_checkpoint(path, load_it=0)
                else:
                    m.load_checkpoint(path)
            elif ev == 'other':
                # another model of the same size is updated meanwhile
                other = ctx.tk.cp.CP_ALS(rank, init='precomputed')
                other._init_fit(ctx.real(tag + 'X', shape), None, D.KruskalTensor(w.start(tag)))
                for n in range(len(shape)):
                    other._update_als_factor(n)
            elif ev == 'continue':
                m.continue_fit(max_its=m.current_iteration + 1)
            w.look(m, tag)
    finally:
        for k, f in old.items():
            setattr(base, k, f)
