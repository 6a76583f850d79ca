"""C20: the experiment logger and experiment files."""
import numpy as np

BOUNDS = ('1-3 targets with arbitrary values; every interleaving of up to 6 (thorough 8) log, save and restart events; storage frequency 1-4 (thorough 1-6) chosen '
          'by the solver; experiments with array, scalar and string outputs, run and continued up to twice, also when they log to the group of their outputs')
ASSUMPTIONS = ['values that were not saved before a restart are lost, as documented by the explicit save']
LIMITS = dict(max_paths=3000, time=60)


def configs(tier):
    c = []
    big = tier == 'thorough'
    for n in (3, 5, 6) + ((8,) if big else ()):
        for t in (1, 2) if n < 6 else (1,):
            c.append(dict(name='events%d-targets%d' % (n, t), what='events', n=n, targets=t, top=(4 if n < 6 else 3) + 2 * big))
    c.append(dict(name='events3-targets3', what='events', n=3, targets=3, top=4))
    c.append(dict(name='two-names', what='names', n=4, targets=2, top=3))
    for n in (1, 2, 3):
        c.append(dict(name='experiment-runs%d' % n, what='experiment', n=n, targets=0, top=0))
    for n in (1, 2, 3):
        c.append(dict(name='experiment-logged%d' % n, what='logged', n=n, targets=2, top=3, layout=None))
    c.append(dict(name='experiment-two', what='two', n=1, targets=0, top=0))
    return c


def harness(ctx, what, n, targets, top):
    dict(events=events, names=names, experiment=experiment, two=two, logged=logged)[what](ctx, n, targets, top)


def read(ctx, path, ex, name):
    with ctx.h5py.File(path, 'r') as h:
        return h[ex][name][...]


def compare(ctx, path, ex, tnames, values, tag):
    for t in tnames:
        got = read(ctx, path, ex, t)
        want = [ctx.single(v[t]) for v in values]
        ctx.check(len(got) == len(want), tag + ': number of entries')
        if len(got) == len(want):
            for a, b in zip(got, want):
                ctx.same(float(a) if not ctx.sym else a, b, tag + ': entry', observe=False)


class Maker:
    """targets whose values are arbitrary functions of the parameters they are called with"""

    def __init__(self, ctx, tnames, extra):
        self.ctx, self.tnames, self.extra = ctx, tnames, extra
        self.vals = {}
        self.n = 0

    def funcs(self):
        def f(t):
            def g(parameters, *args):
                self.ctx.check(args == self.extra, 'arguments of the target')
                return self.vals[parameters][t]
            return g
        return {t: f(t) for t in self.tnames}

    def new(self):
        self.n += 1
        self.vals[self.n] = {t: self.ctx.real('v%d%s' % (self.n, t), ()) for t in self.tnames}
        return self.n


def events(ctx, n, targets, top):
    log = ctx.tk.log
    path = ctx.path('ex.h5')
    tn = ['loss', 'fit', 'b'][:targets]
    extra = (3, 'x')
    mk = Maker(ctx, tn, extra)
    freq = ctx.int('freq', 1, top)
    lg = log.HDF5Logger(path, 'ex', freq, extra, **mk.funcs())
    compare(ctx, path, 'ex', tn, [], 'new file')
    logged, saved = [], 0
    memory = []
    last = ''
    for t in range(n):
        opts = ['log', 'save', 'restart']
        if last in ('save', 'restart'):
            opts.remove(last)
        ev = 'save' if t == n - 1 else ctx.choice('ev%d' % t, opts)
        tag = '%d %s' % (t, ev)
        last = ev
        if ev == 'log':
            p = mk.new()
            lg.log(p)
            logged.append(mk.vals[p])
            memory.append(mk.vals[p])
            if len(logged) % int(freq) == 0:
                saved = len(logged)
            for k in tn:
                ctx.check(len(lg.target_values[k]) == len(memory), tag + ': one value in memory')
                for a, b in zip(lg.target_values[k], memory):
                    ctx.eq(a, b[k], tag + ': value in memory', observe=False)
        elif ev == 'save':
            lg.save_logs()
            saved = len(logged)
        else:
            logged = logged[:saved]
            memory = []
            lg = log.HDF5Logger(path, 'ex', freq, extra, continue_old=True, **mk.funcs())
        compare(ctx, path, 'ex', tn, logged[:saved], tag)


def names(ctx, n, targets, top):
    """two experiments in one file do not disturb each other"""
    log = ctx.tk.log
    path = ctx.path('ex.h5')
    tn = ['loss', 'fit']
    mk = {e: Maker(ctx, [t + e for t in tn] if False else tn, ()) for e in 'ab'}
    freq = ctx.int('freq', 1, top)
    lg = {e: log.HDF5Logger(path, e, freq, (), **mk[e].funcs()) for e in 'ab'}
    logged = {'a': [], 'b': []}
    k = 0
    for t in range(n):
        e = ctx.choice('who%d' % t, ['a', 'b'])
        k += 1
        mk[e].n = k
        p = mk[e].new()
        lg[e].log(p)
        logged[e].append(mk[e].vals[p])
    for e in 'ab':
        lg[e].save_logs()
    for e in 'ab':
        compare(ctx, path, e, tn, logged[e], 'experiment ' + e)


def experiment(ctx, n, targets, top):
    log = ctx.tk.log
    path = ctx.path('run.h5')
    X = ctx.real('X', (2, 2))
    snap = ctx.copy(X)
    meta = dict(data=ctx.real('meta', (2,)), version=3)
    attrs = dict(author='me', number=7)
    outs = evals = None
    for run in range(n):
        cont = run > 0
        ex = log.Experiment(path, 'ex', attributes=attrs if run == 0 else dict(number=7 + run), metadata=meta if run == 0 else None)
        outs = dict(A=ctx.real('A%d' % run, (2, 2)), s=ctx.real('s%d' % run, ()), empty=ctx.real('z%d' % run, (1,)))
        evals = dict(score=ctx.real('score%d' % run, (2,)), single=ctx.real('one%d' % run, ()))
        params = dict(rank=2 + run, init='random', tol=0.5, name='als', init_scale=3 + run, reinit=1, Init='upper', h5='h', n_init=4, metadata=6, A_=7, seed=0, note='')
        marker = object()
        seen = []

        def function(data, h5_group, logger, load_old, **kw):
            seen.append(('f', data is X, kw, logger is marker, load_old, sorted(h5_group) if run == 0 else None))
            return outs

        def final(data, p, o):
            seen.append(('e', data is X, dict(p), o is outs))
            return evals
        ex.run_experiment(X, function, params, final, logger=marker, continue_old=cont)
        tag = 'run %d' % run
        ctx.check(len(seen) == 2 and seen[0][:5] == ('f', True, params, True, cont), tag + ': experiment function called with everything')
        ctx.check(seen[-1] == ('e', True, params, True), tag + ': evaluation called with everything')
        with ctx.h5py.File(path, 'r') as h:
            g = h['ex']
            ctx.check(sorted(g) == ['A', 'empty', 's', 'score', 'single'], tag + ': stored names')
            for k, v in list(outs.items()) + list(evals.items()):
                ctx.same(g[k][...] if v is not None and np.ndim(v) else g[k][()], v, tag + ': ' + k)
            ctx.check(g.attrs['author'] == 'me' and g.attrs['number'] == 7 + run, tag + ': attributes')
            ctx.check(g.attrs['rank'] == 2 + run and g.attrs['tol'] == 0.5 and g.attrs['name'] == 'als', tag + ': parameters')
            for k, v in params.items():
                if k != 'init':
                    ctx.check(k in g.attrs and g.attrs[k] == v, tag + ': parameter ' + k)
            ctx.check('init' not in g.attrs, tag + ': initialisation not stored')
            ctx.same(h['metadata']['data'][...], meta['data'], tag + ': metadata')
            ctx.check(h['metadata']['version'][()] == 3, tag + ': metadata version')
    ctx.unchanged(X, snap, 'data untouched')


def logged(ctx, n, targets, top):
    """experiments whose function logs to the group of its outputs, some longer and some shorter than the log"""
    log = ctx.tk.log
    path = ctx.path('run.h5')
    tn = ['loss', 'fit']
    X = ctx.real('X', (2,))
    mk = Maker(ctx, tn, (1,))
    freq = ctx.int('freq', 1, top)
    seen, scalar = [], []
    for run in range(n):
        ex = log.Experiment(path, 'ex', metadata=dict(m=1) if not run else None)
        lg = log.HDF5Logger(path, 'ex', freq, (1,), continue_old=run > 0, **mk.funcs())
        its = ctx.choice('its%d' % run, [0, 1, 2]) if run else 2
        outs = dict(A=ctx.real('A%d' % run, (7,)), b=ctx.real('B%d' % run, (1,)), C=ctx.real('C%d' % run, (9, 1)), last=ctx.real('last%d' % run, ()))

        def function(data, h5_group, logger, load_old, **kw):
            for i in range(its):
                p = mk.new()
                logger.log(p)
                seen.append(mk.vals[p])
            logger.save_logs()
            return outs
        ex.run_experiment(X, function, dict(rank=2), lambda *a: dict(final=outs['last']), logger=lg, continue_old=run > 0)
        tag = 'run %d' % run
        compare(ctx, path, 'ex', tn, seen, tag)
        with ctx.h5py.File(path, 'r') as h:
            g = h['ex']
            for k in outs:
                ctx.same(g[k][...] if k != 'last' else g[k][()], outs[k], tag + ': ' + k)
            ctx.same(g['final'][()], outs['last'], tag + ': evaluation')


def two(ctx, n, targets, top):
    """experiments under different names in one file"""
    log = ctx.tk.log
    path = ctx.path('two.h5')
    X = ctx.real('X', (2,))
    want = {}
    for e in ('a', 'b'):
        ex = log.Experiment(path, e, attributes=dict(who=e), metadata={e: ctx.real('m' + e, ())})
        want[e] = dict(out=ctx.real('out' + e, (2,)))
        ex.run_experiment(X, lambda data, **k: want[e], dict(p=e), lambda *a: dict(final=1.5))
    with ctx.h5py.File(path, 'r') as h:
        for e in ('a', 'b'):
            ctx.same(h[e]['out'][...], want[e]['out'], e + ': output')
            ctx.check(h[e].attrs['who'] == e and h[e].attrs['p'] == e, e + ': attributes')
            ctx.check(h[e]['final'][()] == 1.5, e + ': evaluation')
            ctx.check(e in h['metadata'], e + ': metadata')
