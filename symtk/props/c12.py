"""C12: logs on disk equal logs in memory."""
import numpy as np
from .c10 import num

NAMES = ('LossLogger', 'MSELogger', 'SSELogger', 'RMSELogger', 'ExplainedVarianceLogger')
ATTR = dict(LossLogger='loss', MSELogger='MSE', SSELogger='SSE', RMSELogger='RMSE', ExplainedVarianceLogger='explained_variance')

BOUNDS = ('every interleaving of log, write and restart (new loggers, same file or group) up to length 6 (thorough 8) with arbitrary metric values and '
          'arbitrary start iteration; whole fits of CP, PARAFAC2 and CMTF with 0-4 iterations, every checkpoint frequency -1..5, continued or resumed, '
          'with one or all logger classes')
ASSUMPTIONS = ['one logger of each class per model; metrics replaced by arbitrary reals per state']
LIMITS = dict(max_paths=2500, time=60)


def configs(tier):
    c = []
    big = tier == 'thorough'
    for n in (4, 6) + ((8,) if big else ()):
        for which in (['all', 'LossLogger', 'ExplainedVarianceLogger'] if n < 6 else ['MSELogger', 'SSELogger', 'RMSELogger', 'LossLogger']):
            for where in ('file', 'group'):
                if n > 4 and where == 'group':
                    continue
                c.append(dict(name='schedule%d-%s-%s' % (n, which, where), what='schedule', n=n, which=which, where=where, kind='', hist=(), top=0))
    # the iteration count goes back or ahead: the loggers see a second fit, or one that was resumed elsewhere
    for m in (5,) + ((6,) if big else ()):
        c.append(dict(name='schedule%d-jumps' % m, what='schedule', n=m, which='late', where='file', kind='', hist=('jump',), top=0))
    c.append(dict(name='schedule5-late', what='schedule', n=5, which='late', where='file', kind='', hist=(), top=0))
    for kind in ('cp', 'parafac2', 'cmtf'):
        for hist in (('fit',), ('fit', 'cont'), ('fit', 'resume')) + ((('fit', 'resume', 'cont'),) if big else ()):
            if kind == 'cmtf' and 'resume' in hist:
                continue
            for which in ('all', 'LossLogger') if hist == ('fit',) else ('all',):
                c.append(dict(name='%s-%s-%s' % (kind, '-'.join(hist), which), what='fit', n=0, which=which, where='file', kind=kind, hist=hist,
                              top=(4 if hist == ('fit',) else 2) + (1 if big else 0)))
        c.append(dict(name='%s-refit' % kind, what='fit', n=0, which='LossLogger', where='file', kind=kind, hist=('fit', 'refit'), top=2))
    return c


def harness(ctx, what, n, which, where, kind, hist, top):
    if what == 'schedule':
        schedule(ctx, n, which, where, hist)
    else:
        fits(ctx, which, kind, hist, top)


def kinds(which):
    return NAMES if which == 'all' else ('LossLogger', 'MSELogger') if which == 'late' else (which,)


def compare(ctx, h, names, want, tag):
    for k in names:
        ctx.check(k in h, tag + ': group of ' + k)
        if k not in h:
            continue
        g = h[k]
        its, vals = g['iterations'][...], g['values'][...]
        ctx.check(len(its) == len(want) and len(vals) == len(want), tag + ': number of entries')
        if len(its) != len(want) or len(vals) != len(want):
            continue
        for a, b, (i, v) in zip(its, vals, want):
            ctx.ieq(whole(a), i, tag + ': iteration')
            ctx.same(b, v[k], tag + ': value', observe=False)


def whole(x):
    return int(x) if isinstance(x, (float, np.floating, np.integer)) and x == int(x) else x


def schedule(ctx, n, which, where, more=()):
    L = ctx.tk.loggers
    names = kinds(which)
    path = ctx.path('log.h5')

    class Model:
        current_iteration = 0
    it0 = ctx.int('first', 0, 3) if n < 6 else 0
    it = it0
    model = Model()
    loggers = {k: getattr(L, k)() for k in names}
    memory, disk, pending = [], [], []
    h = ctx.h5py.File(path, 'a')
    made = written = False
    try:
        for t in range(n):
            # a write always follows at the end; two restarts in a row are no different from one
            ev = 'write' if t == n - 1 else ctx.choice('ev%d' % t, [*(['log', 'write', 'restart'] if t and ev != 'restart' else ['log', 'write']), *(more if t and ev != 'jump' else ())])
            tag = '%d %s' % (t, ev)
            if ev == 'log':
                model.current_iteration = it
                v = {}
                for k in names:
                    v[k] = ctx.real('v%d%s' % (t, k), ())
                    setattr(model, ATTR[k], v[k])
                for k in names:
                    loggers[k].log(model)
                # what was logged is not affected by what happens later
                for k in names:
                    setattr(model, ATTR[k], -1)
                memory.append((it, v))
                pending.append((it, v))
                it = it + 1
            elif ev == 'jump':
                it = ctx.int('jump%d' % t, 0, 4)
            elif ev == 'write':
                g = h if where == 'file' else h.require_group('sub')
                for k in names:
                    loggers[k].write_to_hdf5_group(g)
                disk += pending
                pending = []
                written = True
                compare(ctx, g, names, disk, tag)
            else:
                h.close()
                h = ctx.h5py.File(path, 'a')
                loggers = {k: getattr(L, k)() for k in names}
                memory, pending = [], []
            for k in names:
                lg = loggers[k]
                ctx.check(len(lg.log_metrics) == len(memory) and len(lg.log_iterations) == len(memory), tag + ': entries in memory')
                for (i, v), a, b in zip(memory, lg.log_iterations, lg.log_metrics):
                    ctx.ieq(a, i, tag + ': iteration in memory')
                    ctx.eq(b, v[k], tag + ': value in memory', observe=False)
                ctx.check(len(lg.latest_log_metrics) == len(pending) and len(lg.latest_log_iterations) == len(pending), tag + ': not yet written')
                for (i, v), a, b in zip(pending, lg.latest_log_iterations, lg.latest_log_metrics):
                    ctx.ieq(a, i, tag + ': iteration not yet written')
                    ctx.eq(b, v[k], tag + ': value not yet written', observe=False)
    finally:
        h.close()


def fits(ctx, which, kind, hist, top):
    L = ctx.tk.loggers
    names = kinds(which)
    path = ctx.path('fit.h5')
    w = dict(state=0, vals={})

    def value(k):
        def get(self):
            key = (w['state'], k)
            if key not in w['vals']:
                w['vals'][key] = ctx.real('v%d%s' % key, (), pos=True)
            return w['vals'][key]
        return property(get)
    if kind == 'parafac2':
        cls = ctx.tk.parafac2.Parafac2_ALS
    else:
        cls = ctx.tk.cp.CP_ALS if kind == 'cp' else ctx.tk.cmtf.CMTF_ALS
    ctx.assume_that(hasattr(cls, '_update_parafac2_factors' if kind == 'parafac2' else '_update_als_factors'))

    def step(self):
        w['state'] += 1
    body = {ATTR[k]: value(k) for k in NAMES}
    body['_update_parafac2_factors'] = body['_update_als_factors'] = step
    Model = type(cls.__name__, (cls,), body)
    freq = ctx.int('freq', -1, top + 1)
    m = loggers = None
    disk, done = [], 0
    for s, ev in enumerate(hist):
        limit = ctx.int('limit%d' % s, 0 if s == 0 and len(hist) == 1 else 1, top + s)
        tag = '%d %s' % (s, ev)
        before = done
        if ev in ('fit', 'resume', 'refit'):
            if ev != 'refit':
                loggers = [getattr(L, k)() for k in names]
                memory = []
                kw = dict(max_its=limit, convergence_tol=-1, print_frequency=-1, loggers=loggers)
                if ev == 'refit' or 'refit' not in hist:
                    kw.update(checkpoint_path=path, checkpoint_frequency=freq)
                kw['init'] = 'precomputed' if ev == 'fit' else 'from_checkpoint'
                if kind != 'parafac2':
                    kw['rel_loss_tol'] = -1
                m = Model(1, **kw)
            else:
                before = done = 0
            dec = decomposition(ctx, kind) if ev != 'resume' else path
            if kind == 'parafac2':
                m.fit([num(ctx, [[3, 0], [0, 4]]), num(ctx, [[1, 0], [2, 4]])], max_its=limit, initial_decomposition=dec)
            elif kind == 'cmtf':
                m.fit(num(ctx, [[3, 0], [0, 4]]), [num(ctx, [[1, 2], [0, 1]])], [0], max_its=limit, initial_decomposition=dec)
            else:
                m.fit(num(ctx, [[3, 0], [0, 4]]), max_its=limit, initial_decomposition=dec)
        else:
            m.continue_fit(max_its=limit)
        done = max(int(limit), before)
        base = w['state'] - (done - before)
        new = [(i, {k: w['vals'].get((base + 1 + i - before, k)) for k in names}) for i in range(before, done)]
        memory = memory + new
        disk = disk + new
        for k, lg in zip(names, loggers):
            ctx.check(len(lg.log_metrics) == len(memory) and len(lg.log_iterations) == len(memory), tag + ': one entry per iteration')
            for (i, v), a, b in zip(memory, lg.log_iterations, lg.log_metrics):
                ctx.ieq(a, i, tag + ': iteration in memory')
                ctx.check(v[k] is not None, tag + ': measured')
                if v[k] is not None:
                    ctx.eq(b, v[k], tag + ': value in memory', observe=False)
        if disk and 'refit' not in hist:
            with ctx.h5py.File(path, 'r') as h:
                compare(ctx, h, names, disk, tag)
    if 'refit' in hist and disk:
        with ctx.h5py.File(path, 'a') as h:
            loggers[0].write_to_hdf5_group(h)
            compare(ctx, h, names, disk, 'after both fits')


def decomposition(ctx, kind):
    D = ctx.tk.decs
    if kind == 'parafac2':
        return D.Parafac2Tensor(num(ctx, [[1], [0]]), num(ctx, [[1]]), num(ctx, [[1], [1]]), [num(ctx, [[1], [0]]), num(ctx, [[0], [1]])])
    return D.KruskalTensor([num(ctx, [[1], [0]]), num(ctx, [[0], [1]])])
