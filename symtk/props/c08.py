"""C08: SSE, MSE, RMSE, explained variance and loss of the PARAFAC2 decomposer describe the current decomposition and data."""
import numpy as np
from . import spec

BOUNDS = ('array or list data with 1-3 slices of 1-3 rows and widths 1-3, rank 1-2; arbitrary data, factors, projection matrices (orthonormal or not), '
          'penalties; updates return arbitrary matrices (so the identities hold for whatever the solvers return); histories of up to 4 events: start, '
          'projection update, iteration, fit with a look inside every iteration, new data, loading a checkpoint, rescaling a returned factor')
LIMITS = dict(max_paths=60, time=60, opaque=('abs',))


def configs(tier):
    c = []
    big = tier == 'thorough'

    def add(I, J, rank, hist, pen='none', data='list', ups=1):
        n = '%dx%s-r%d-%s-%s%s%s' % (I, '.'.join(map(str, J)), rank, data, '-'.join(hist), '' if pen == 'none' else '-' + pen, '-u%d' % ups if ups > 1 else '')
        c.append(dict(name=n, I=I, J=tuple(J), rank=rank, hist=tuple(hist), pen=pen, data=data, ups=ups,
                      **(dict(layout=None) if any(h.startswith('same') for h in hist) else {})))
    for I, J, r in [(2, (2, 2), 1), (2, (2, 2), 2), (1, (1, 2, 3), 1), (2, (2, 3), 2), (2, (3,), 2), (3, (1, 2), 1)] + \
            ([(2, (2, 3, 2), 2), (3, (3, 4), 2), (3, (3, 3), 3), (1, (1, 1, 1, 2), 1)] if big else []):
        for data in ('list', 'array'):
            if data == 'array' and len(set(J)) > 1:
                continue
            for pen in ('none', 'ridge'):
                add(I, J, r, ['start'], pen, data)
                add(I, J, r, ['start', 'project'], pen, data)
    for data, J in (('list', (1, 2)), ('array', (2, 2)), ('list', (2, 2))):
        for pen in ('none', 'ridge', 'some', 'nonneg', 'orth'):
            add(2, J, 1, ['start', 'iterate'], pen, data)
            add(2, J, 1, ['fit'], pen, data)
        for pen in ('r101', 'r001', 'r100'):
            # some modes without a penalty
            add(2, J, 1, ['start', 'iterate'], pen, data)
            add(2, J, 2 if min(J) > 1 else 1, ['start'], pen, data)
        for ups in (2, 3):
            add(2, J, 1, ['start', 'iterate'], 'ridge', data, ups)
        for pen in ('none', 'some'):
            add(2, J, 1, ['start', 'iterate', 'iterate'], pen, data)
            add(2, J, 1, ['fit', 'scale'], pen, data)
            add(2, J, 1, ['fit', 'target'], pen, data)
            add(2, J, 1, ['fit', 'fit'], pen, data)
            add(2, J, 1, ['start', 'load'], pen, data)
            add(2, J, 1, ['fit', 'load', 'continue'], pen, data)
            add(2, J, 1, ['fit', 'scale', 'continue'], pen, data)
            add(2, J, 1, ['fit', 'other'], pen, data)
            add(2, J, 1, ['other', 'fit'], pen, data)
            add(2, J, 1, ['start', 'same'], pen, data)
            add(2, J, 1, ['fit', 'sametarget'], pen, data)
            add(2, J, 1, ['fit', 'samefit'], pen, data)
            if data == 'list':
                add(2, J, 1, ['start', 'sameother', 'iterate'], pen, data)
                add(2, J, 1, ['start', 'samelonger'], pen, data)
    if big:
        for pen in ('none', 'ridge'):
            add(2, (2, 3), 2, ['start', 'iterate'], pen)
            add(2, (2, 2), 2, ['fit'], pen)
            add(2, (2, 2), 2, ['fit', 'load', 'continue'], pen, 'array')
            add(1, (1, 2), 1, ['fit', 'other', 'load', 'continue', 'scale'], pen)
    return c


class World:
    def __init__(self, ctx, I, J, rank, pen, data, ups):
        self.ctx, self.I, self.J, self.rank, self.data = ctx, I, J, rank, data
        self.lam = [0, 0, 0]
        kw = {}
        if pen == 'ridge':
            self.lam = [ctx.real('lam%d' % n, (), pos=True) for n in range(3)]
        if pen == 'some':
            self.lam = [0, ctx.real('lam1', (), pos=True), 0]
        if pen[0] == 'r' and pen != 'ridge':
            self.lam = [ctx.real('lam%d' % n, (), pos=True) if q == '1' else 0 for n, q in enumerate(pen[1:])]
        if pen[0] == 'r' or pen == 'some':
            kw['ridge_penalties'] = list(self.lam)
        if pen == 'nonneg':
            kw['non_negativity_constraints'] = [True, False, True]
        self.pen = pen
        if pen == 'orth':
            kw['orthonormality_constraints'] = [True, False, False]
        w = self

        class Log:
            def log(self, model):
                w.look(model, 'in fit')

            def write_to_hdf5_group(self, h):
                pass
        self.model = ctx.tk.parafac2.Parafac2_ALS(rank, max_its=1, convergence_tol=-1, init='precomputed', loggers=[Log()], print_frequency=-1,
                                                  cp_updates_per_it=ups, **kw)

    def newdata(self, tag, J=None):
        ctx = self.ctx
        if J is not None:
            self.J = J
        if self.data == 'array':
            X = ctx.real(tag + 'X', (self.I, self.J[0], len(self.J)))
            S = [X[:, :, k] for k in range(len(self.J))]
        else:
            X = S = [ctx.real('%sX%d' % (tag, k), (self.I, j)) for k, j in enumerate(self.J)]
        ctx.assume(total(S), '>', 1e-3)
        self.S = list(S)
        self.snap = ctx.copy(self.S)
        return X if self.data == 'array' else list(X)

    def newdec(self, tag):
        ctx = self.ctx
        r = self.rank
        if self.pen == 'orth':
            A = ctx.orthonormal(tag + 'A', self.I, r)
            if ctx.sym:
                q = ctx.zeros((r, r))
                q[...] = np.eye(r, dtype=int)
                ctx.e.qr_known.append((A, A, q))
        else:
            A = ctx.real(tag + 'A', (self.I, r))
        return ctx.tk.decs.Parafac2Tensor(A, ctx.real(tag + 'B', (r, r)), ctx.real(tag + 'C', (len(self.J), r)),
                                          [ctx.real('%sP%d' % (tag, k), (j, r)) for k, j in enumerate(self.J)])

    def sse(self, dec):
        rec = [spec.matmul(dec.A * dec.C[k], spec.matmul(dec.projection_matrices[k], dec.blueprint_B).T) for k in range(len(self.J))]
        return total([x - y for x, y in zip(self.S, rec)])

    def loss(self, dec, sse):
        l = sse
        for p, f in zip(self.lam, (dec.A, dec.blueprint_B, dec.C)):
            l = l + p * spec.sumsq(f)
        return l

    def look(self, model, label):
        ctx = self.ctx
        dec = model.decomposition
        sse = self.sse(dec)
        xx = total(self.S)
        n = sum(self.I * j for j in self.J)
        ctx.assume(sse, '>', 1e-6)
        ctx.assume(sse + xx, '>')
        ctx.eq(model.SSE, sse, label + ': SSE')
        ctx.eq(model.MSE, sse / n, label + ': MSE')
        ctx.eq(model.RMSE, ctx.sqrt(sse / n), label + ': RMSE')
        ctx.eq(model.explained_variance, 1 - sse / xx, label + ': explained variance')
        ctx.eq(model.loss, self.loss(dec, sse), label + ': loss')
        for k, (x, y) in enumerate(zip(self.S, self.snap)):
            ctx.eq(x, y, label + ': data untouched', observe=False)


def total(S):
    t = 0
    for s in S:
        t = t + spec.sumsq(s)
    return t


def harness(ctx, I, J, rank, hist, pen, data, ups):
    base = ctx.tk.base
    w = World(ctx, I, J, rank, pen, data, ups)
    m = w.model
    old = {k: getattr(base, k) for k in ('rightsolve', 'non_negative_rightsolve', 'orthogonal_rightsolve', 'orthogonal_solve')}
    cnt = [0]

    def right(A, B):
        cnt[0] += 1
        return ctx.real('new%d' % cnt[0], (B.shape[0], A.shape[0]))

    def left(A, B):
        cnt[0] += 1
        return ctx.real('new%d' % cnt[0], (A.shape[1], B.shape[1]))
    ctx.loose_svd()
    for k in old:
        setattr(base, k, left if k == 'orthogonal_solve' else right)
    path = ctx.path('p2.h5')
    try:
        for step, ev in enumerate(hist):
            tag = 'e%d' % step
            if ev in ('start', 'fit', 'other', 'target') or ev.startswith('same'):
                # other: data of other widths; same: in the same array or list
                held, ev = X if ev.startswith('same') else None, ev[4:] if ev.startswith('same') else ev
                X = w.newdata(tag, tuple(j + 1 for j in w.J) if ev == 'other' else tuple(w.J) + (1,) if ev == 'longer' else None)
                if held is not None:
                    if data == 'array':
                        held[...] = X
                        w.S = [held[:, :, k] for k in range(len(w.J))]
                    else:
                        held[:] = X
                    X = held
                if ev == 'target':
                    m.set_target(X)
                else:
                    d = w.newdec(tag)
                    s0 = w.sse(d)
                    ctx.assume(s0, '>', 1e-6)
                    ctx.assume(w.loss(d, s0), '>')
                    if ev == 'fit':
                        m.fit(X, max_its=1, initial_decomposition=d)
                    else:
                        m._init_fit(X, None, d)
            elif ev == 'project':
                m._update_projection_matrices()
            elif ev == 'scale':
                f = m.decomposition.C
                f[...] = f * ctx.real(tag + 'a', ())
            elif ev == 'load':
                other = ctx.tk.parafac2.Parafac2_ALS(rank, init='precomputed', checkpoint_path=path)
                other._init_fit(ctx.copy(w.S), None, w.newdec(tag))
                other.store_checkpoint(0)
                m.load_checkpoint(path)
            elif ev in ('continue', 'iterate'):
                m.continue_fit(max_its=m.current_iteration + 1)
            w.look(m, tag)
    finally:
        for k, f in old.items():
            setattr(base, k, f)
