"""C11: which states end up in the checkpoint file, loading them, resuming."""
import numpy as np
from .c10 import num

BOUNDS = ('CP and PARAFAC2; checkpoint frequency -1..5 or None, 0-4 iterations per run (thorough 0-6), up to 3 runs into the same file (resumed by init=from_checkpoint '
          'or by continue_fit), early stopping at any state; frequencies, limits and iterations to load chosen by the solver; stored values '
          'identify the state they belong to; runs resumed at iteration numbers around 10, 100, 10^4, 10^5, 10^6 and 2^31; plus loading with arbitrary real factors')
ASSUMPTIONS = ['factor updates replaced by a deterministic step that makes every state distinct']
LIMITS = dict(max_paths=1500, time=80)


def configs(tier):
    c = []
    big = tier == 'thorough'
    for kind in ('cp', 'parafac2'):
        for hist in (('fit',), ('fit', 'cont'), ('fit', 'resume'), ('fit', 'file'), ('fit', 'resume', 'cont')) + (
                (('fit', 'resume', 'resume'), ('fit', 'cont', 'resume')) if big else ()):
            top = (4 if len(hist) == 1 else 3 if len(hist) == 2 else 2) + (2 if big and len(hist) < 3 else 0)
            c.append(dict(name='%s-%s' % (kind, '-'.join(hist)), what='run', kind=kind, hist=hist, top=top, early=False))
        c.append(dict(name='%s-early' % kind, what='run', kind=kind, hist=('fit', 'resume'), top=3 if big else 2, early=True))
        c.append(dict(name='%s-none' % kind, what='run', kind=kind, hist=('fit',), top=3, early=False, freq=None))
        c.append(dict(name='%s-nopath' % kind, what='nopath', kind=kind, hist=(), top=3, early=False))
        c.append(dict(name='%s-far' % kind, what='far', kind=kind, hist=(), top=4 if big else 3, early=False))
        for which in ('default', 'each', 'missing', 'empty', 'rank', 'size'):
            c.append(dict(name='%s-load-%s' % (kind, which), what='load', kind=kind, hist=(which,), top=4, early=False))
    return c


def harness(ctx, what, kind, hist, top, early, freq=1):
    if what == 'load':
        return load(ctx, kind, hist[0], top)
    if what == 'nopath':
        return nopath(ctx, kind, top)
    if what == 'far':
        return far(ctx, kind, top)
    run(ctx, kind, hist, top, early, freq)


def classes(ctx, kind):
    return ctx.tk.parafac2.Parafac2_ALS if kind == 'parafac2' else ctx.tk.cp.CP_ALS


def marker(kind, dec):
    return (dec.A if kind == 'parafac2' else dec.factor_matrices[0])[0, 0]


def make(ctx, kind, stop=None, **kw):
    """a model whose k-th state has k in the corner of its first factor; the loss stops changing at state `stop`"""
    cls = classes(ctx, kind)
    ctx.assume_that(hasattr(cls, '_update_parafac2_factors' if kind == 'parafac2' else '_update_als_factors'))

    class Model(cls):
        def value(self):
            if stop is None:
                return 1
            s = marker(kind, self.decomposition)
            s = s if not ctx.sym else s
            return 100 - 10 * min(int(np.real(to_int(s))), stop)

        SSE = property(value)
        loss = property(value)

        def step(self):
            dec = self.decomposition
            f = dec.A if kind == 'parafac2' else dec.factor_matrices[0]
            f[0, 0] = f[0, 0] + 1
            last = dec.C if kind == 'parafac2' else dec.factor_matrices[-1]
            last[0, 0] = last[0, 0] + 2

        _update_parafac2_factors = step
        _update_als_factors = step
    # the name is stored in the file
    Model.__name__ = cls.__name__
    if kind == 'cp':
        kw.setdefault('rel_loss_tol', -1)
    kw.setdefault('init', 'precomputed')
    kw.setdefault('convergence_tol', -1 if stop is None else num(ctx, [[1]])[0, 0] / 1000)
    return Model(1, print_frequency=-1, **kw)


def to_int(s):
    if isinstance(s, (int, float, np.floating, np.integer)):
        return s
    return s.cval()


def data(ctx, kind):
    if kind == 'parafac2':
        return [num(ctx, [[3, 0], [0, 4]]), num(ctx, [[1], [2]])]
    return num(ctx, [[3, 0], [0, 4]])


def start(ctx, kind, rank=1):
    D = ctx.tk.decs
    if kind == 'parafac2':
        return D.Parafac2Tensor(num(ctx, [[0] * rank, [5] * rank]), num(ctx, [[1] * rank] * rank), num(ctx, [[0] * rank, [1] * rank]),
                                [num(ctx, [[1] * rank, [0] * rank]), num(ctx, [[1] * rank])])
    return D.KruskalTensor([num(ctx, [[0] * rank, [5] * rank]), num(ctx, [[0] * rank, [1] * rank])])


def run(ctx, kind, hist, top, early, freq):
    path = ctx.path('run.h5')
    if freq is not None:
        freq = ctx.int('freq', -1, top + 1)
    stop = ctx.int('stop', 0, top) if early else None
    stop = int(stop) if early else None
    done = 0                # iterations made so far
    expect = []             # stored iterations in order
    m = None
    for step, ev in enumerate(hist):
        limit = ctx.int('limit%d' % step, 0 if step else (0 if hist == ('fit',) else 1), top + step)
        before = done
        if ev in ('fit', 'resume', 'file'):
            kw = dict(checkpoint_path=path, checkpoint_frequency=freq, max_its=limit)
            if ev == 'resume':
                kw['init'] = 'from_checkpoint'
            elif ev == 'file':
                kw['init'] = path
            m = make(ctx, kind, stop, **kw)
            dec0 = start(ctx, kind) if ev == 'fit' else path if ev == 'resume' else None
            m.fit(data(ctx, kind), initial_decomposition=dec0)
        else:
            m.continue_fit(max_its=limit)
        tag = '%d %s' % (step, ev)
        lim = int(limit)
        done = max(lim, before)
        if early and stop is not None:
            # the loss is the same in the states stop and stop + 1: no iteration after that; a new run knows no change yet
            if ev == 'fit':
                done = min(lim, stop + 1)
            elif ev in ('resume', 'file'):
                done = max(before, min(lim, max(stop + 1, before + 1)))
        new = [i for i in range(before, done) if freq is not None and freq > 0 and (i + 1) % freq == 0]
        if done > before and (done - 1) not in new:
            new.append(done - 1)
        expect += new
        ctx.ieq(m.current_iteration, done, tag + ': counter')
        ctx.eq(marker(kind, m.decomposition), done, tag + ': state')
        inspect(ctx, kind, path, expect, tag)
    if expect:
        # the latest state can be loaded into a fresh model
        m2 = make(ctx, kind)
        m2._init_fit(data(ctx, kind), None, start(ctx, kind))
        m2.load_checkpoint(path)
        ctx.eq(marker(kind, m2.decomposition), expect[-1] + 1, 'latest state')
        ctx.ieq(m2.current_iteration, expect[-1] + 1, 'next iteration')
        if early or len(hist) > 2:
            return
        pick = expect[int(ctx.int('pick', 0, len(expect) - 1))]
        m2.load_checkpoint(path, load_it=pick)
        ctx.eq(marker(kind, m2.decomposition), pick + 1, 'requested state')
        ctx.ieq(m2.current_iteration, pick + 1, 'next iteration after the requested one')


def far(ctx, kind, top):
    """resuming after many iterations, where their numbers become longer"""
    path = ctx.path('run.h5')
    L = ctx.tk.loggers
    base = ctx.choice('base', [8, 98, 9998, 99998, 999998, 2**31 - 2])
    old = make(ctx, kind, checkpoint_path=path, loggers=[L.SSELogger()])
    old._init_fit(data(ctx, kind), None, start(ctx, kind))
    # the state made by iteration base - 1 is number 0
    old.store_checkpoint(base - 1)
    n = int(ctx.int('n', 1, top))
    freq = ctx.int('freq', -1, 3)
    m = make(ctx, kind, init='from_checkpoint', checkpoint_path=path, checkpoint_frequency=freq, max_its=base + n, loggers=[L.SSELogger()])
    m.fit(data(ctx, kind), initial_decomposition=path)
    ctx.ieq(m.current_iteration, base + n, 'counter')
    expect = [i for i in range(base, base + n) if freq > 0 and (i + 1) % freq == 0]
    if base + n - 1 not in expect:
        expect.append(base + n - 1)
    inspect(ctx, kind, path, [base - 1] + expect, 'far', base)
    with ctx.h5py.File(path, 'r') as h:
        ctx.check([int(i) for i in h['SSELogger']['iterations'][...]] == list(range(base, base + n)), 'far: logged iterations')
    m2 = make(ctx, kind)
    m2._init_fit(data(ctx, kind), None, start(ctx, kind))
    m2.load_checkpoint(path)
    ctx.eq(marker(kind, m2.decomposition), n, 'far: latest state')
    m2.load_checkpoint(path, load_it=base - 1)
    ctx.eq(marker(kind, m2.decomposition), 0, 'far: first state')
    ctx.ieq(m2.current_iteration, base, 'far: next iteration')


def inspect(ctx, kind, path, expect, tag, base=0):
    """base: the states are numbered from this iteration on"""
    D = ctx.tk.decs
    if not expect:
        try:
            with ctx.h5py.File(path, 'r') as h:
                ctx.check(not list(h), tag + ': nothing stored')
        except OSError:
            ctx.check(True, tag + ': nothing stored')
        return
    with ctx.h5py.File(path, 'r') as h:
        names = sorted(n for n in h if n.startswith('checkpoint_'))
        ctx.check(names == sorted('checkpoint_%05d' % i for i in expect), tag + ': stored iterations')
        ctx.check([int(i) for i in h.attrs['checkpoint_its']] == expect, tag + ': index list')
        ctx.check(int(h.attrs['final_iteration']) == expect[-1], tag + ': latest index')
        listed = list(ctx.tk.utils.iter_checkpoints(h))
        ctx.check(len(listed) == len(expect), tag + ': all checkpoints listed')
        for i, g in zip(sorted(expect), listed):
            cls = D.Parafac2Tensor if kind == 'parafac2' else D.KruskalTensor
            ctx.eq(marker(kind, cls.load_from_hdf5_group(g)), i + 1 - base, tag + ': listed in order of the iterations')
        for i in expect:
            cls = D.Parafac2Tensor if kind == 'parafac2' else D.KruskalTensor
            name = 'checkpoint_%05d' % i
            if name not in h:
                continue
            dec = cls.load_from_hdf5_group(h[name])
            ctx.eq(marker(kind, dec), i + 1 - base, tag + ': state of the iteration')
            ctx.eq((dec.C if kind == 'parafac2' else dec.factor_matrices[-1])[0, 0], 2 * (i + 1 - base), tag + ': all factors of the iteration')


def nopath(ctx, kind, top):
    freq = ctx.int('freq', -1, 3)
    m = make(ctx, kind, checkpoint_frequency=freq, max_its=ctx.int('limit', 0, top))
    opened = []
    m.store_checkpoint = lambda *a, **k: opened.append(a)
    m.fit(data(ctx, kind), initial_decomposition=start(ctx, kind))
    ctx.check(not opened, 'nothing written')


def load(ctx, kind, which, top):
    path = ctx.path('load.h5')
    D = ctx.tk.decs
    cls = classes(ctx, kind)
    kw = dict(init='precomputed', print_frequency=-1)

    def dec(tag, rank=1, I=2):
        if kind == 'parafac2':
            return D.Parafac2Tensor(ctx.real(tag + 'A', (I, rank)), ctx.real(tag + 'B', (rank, rank)), ctx.real(tag + 'C', (2, rank)),
                                    [ctx.real(tag + 'P0', (2, rank)), ctx.real(tag + 'P1', (1, rank))])
        return D.KruskalTensor([ctx.real(tag + 'U', (I, rank)), ctx.real(tag + 'V', (2, rank))], ctx.real(tag + 'w', (rank,)))

    def parts(d):
        if kind == 'parafac2':
            return [d.A, d.blueprint_B, d.C] + list(d.projection_matrices)
        return list(d.factor_matrices) + [d.weights]

    def big(I):
        return [num(ctx, [[3, 0]] * I), num(ctx, [[1]] * I)] if kind == 'parafac2' else num(ctx, [[3, 0]] * I)
    m = cls(1, **kw)
    m.set_target(data(ctx, kind))
    if which == 'empty':
        with ctx.h5py.File(path, 'w') as h:
            h.create_group('other')
        ctx.raises((ValueError, KeyError), lambda: m.load_checkpoint(path), 'no checkpoint refused')
        return
    rank, I = 2 if which == 'rank' else 1, 3 if which == 'size' else 2
    w = cls(rank, checkpoint_path=path, **kw)
    w.set_target(big(I))
    its, decs = [], {}
    n = int(ctx.int('n', 1, 3)) if which != 'missing' else 2
    it = int(ctx.int('first', 0, top))
    for k in range(n):
        w.decomposition = decs[it] = dec('d%d' % k, rank, I)
        its.append(it)
        w.store_checkpoint(it)
        it += 1 + k
    # later changes of the model do not reach the file
    snap = {i: ctx.copy(parts(d)) for i, d in decs.items()}
    for d in decs.values():
        f = parts(d)[0]
        f[0, 0] = f[0, 0] + 1
    if which in ('rank', 'size'):
        ctx.raises((ValueError,), lambda: m.load_checkpoint(path), 'wrong components refused')
        return
    if which == 'missing':
        bad = int(ctx.int('bad', 0, top + 5))
        ctx.assume_that(bad not in its)
        ctx.raises((ValueError, KeyError), lambda: m.load_checkpoint(path, load_it=bad), 'missing checkpoint refused')
        return
    if which == 'default':
        want = its[-1]
        m.load_checkpoint(path)
    else:
        want = its[int(ctx.int('pick', 0, n - 1))]
        m.load_checkpoint(path, load_it=want)
    for a, b in zip(parts(m.decomposition), snap[want]):
        ctx.same(a, b, 'restored')
    ctx.ieq(m.current_iteration, want + 1, 'next iteration')
