"""C10: how many iterations a fit performs."""
import numpy as np

BOUNDS = ('CP, CMTF and PARAFAC2; iteration limits 0-3 (thorough 0-4) chosen by the solver, configured and passed to fit or continue_fit; histories of up '
          'to 3 fit/continue calls; loss of every state an arbitrary positive real, arbitrary nonnegative tolerances')
ASSUMPTIONS = ['the loss is a function of the state (number of sweeps made) and positive; factor updates replaced by a counter']
LIMITS = dict(max_paths=1500, time=60)

KINDS = ('cp', 'cmtf', 'parafac2')


def configs(tier):
    c = []
    big = tier == 'thorough'
    for kind in KINDS:
        for hist in (['fit'], ['fit', 'cont'], ['fit', 'fit'], ['fit', 'cont', 'cont']) + ((['fit', 'cont', 'fit'], ['fit', 'fit', 'cont']) if big else ()):
            # sure: tolerances that never stop (only limits matter)
            for tol in ('never', 'sym'):
                if tol == 'sym' and len(hist) > (2 if big or hist == ['fit', 'fit'] else 1):
                    continue
                top = 4 if big else 3
                if tol == 'sym':
                    top -= len(hist) > 1
                c.append(dict(name='%s-%s-%s' % (kind, '-'.join(hist), tol), kind=kind, hist=tuple(hist), tol=tol, top=top))
        c.append(dict(name='%s-fit-cont-stop' % kind, kind=kind, hist=('fit', 'cont'), tol='sym', top=2 if not big else 3))
        # a fit that stopped early is continued with other tolerances, and maybe another limit
        c.append(dict(name='%s-fit-cont-retuned' % kind, kind=kind, hist=('fit', 'retuned'), tol='sym', top=2 if not big else 3))
        # a penalised model: the loss and the error are different sequences
        c.append(dict(name='%s-fit-split' % kind, kind=kind, hist=('fit',), tol='sym', top=2, split=True))
        c.append(dict(name='%s-fit-zero' % kind, kind=kind, hist=('fit', 'cont'), tol='zero', top=2))
    seen = set()
    return [q for q in c if not (q['name'] in seen or seen.add(q['name']))]


class Run:
    """a model whose sweeps are counted and whose loss is an arbitrary function of the number of sweeps"""

    def __init__(self, ctx, kind, top, tol, like=None, split=False, **more):
        """like: another run whose tolerances and losses (counted from the start of its last fit) apply"""
        self.ctx, self.kind = ctx, kind
        self.sweeps = []        # modes updated, per fit
        self.state = 0
        self.born = 0           # states before the present fit
        self.loss = {}
        self.errors = {} if split else self.loss
        self.logs = []
        w = self

        class Log:
            def log(self, model):
                w.logs.append((model.current_iteration, w.state))

            def write_to_hdf5_group(self, h):
                pass
        self.like = like
        if like:
            self.tol, self.rtol = like.tol, like.rtol
        elif tol == 'never':
            self.tol = self.rtol = -1
        elif tol == 'zero':
            self.tol = self.rtol = 0
        else:
            self.tol = ctx.real('tol', (), nonneg=True)
            self.rtol = ctx.real('rtol', (), nonneg=True)
        kw = dict(max_its=like.limit if like else ctx.int('limit', 0, top), convergence_tol=self.tol, init='precomputed', loggers=[Log()], print_frequency=-1)
        self.limit = kw['max_its']
        if kind == 'parafac2':
            cls = ctx.tk.parafac2.Parafac2_ALS
        else:
            cls = ctx.tk.cp.CP_ALS if kind == 'cp' else ctx.tk.cmtf.CMTF_ALS
            kw['rel_loss_tol'] = self.rtol
        ctx.assume_that(hasattr(cls, '_update_parafac2_factors' if kind == 'parafac2' else '_update_als_factor'))

        class Model(cls):
            @property
            def SSE(self):
                return w.value(True)

            @property
            def loss(self):
                return w.value()

            def _update_parafac2_factors(self):
                w.touched(None)

            def _update_als_factor(self, mode):
                w.touched(mode)
        self.order = 3 if kind == 'parafac2' else 2
        self.m = Model(1, **{**kw, **more})
        if kind == 'cmtf':
            self.Y = num(ctx, [[1, 2], [0, 1]])
        self.X = num(ctx, [[3, 0], [0, 4]])          # norm 5

    def touched(self, mode):
        self.sweeps.append(mode)
        if self.kind == 'parafac2' or len(self.sweeps) % self.order == 0:
            self.state += 1

    def value(self, error=False):
        return (self.like or self).at(self.state - self.born, error)

    def decomposition(self):
        D, ctx = self.ctx.tk.decs, self.ctx
        if self.kind == 'parafac2':
            return D.Parafac2Tensor(num(ctx, [[1], [0]]), num(ctx, [[1]]), num(ctx, [[1], [1]]), [num(ctx, [[1], [0]]), num(ctx, [[0], [1]])])
        return D.KruskalTensor([num(ctx, [[1], [0]]), num(ctx, [[0], [1]])])

    def fit(self, limit):
        self.state += 1
        self.born = self.state
        self.sweeps, self.logs = [], []
        if self.kind == 'parafac2':
            self.m.fit([num(self.ctx, [[3, 0], [0, 4]]), num(self.ctx, [[1, 0], [2, 4]])], max_its=limit, initial_decomposition=self.decomposition())
        elif self.kind == 'cmtf':
            self.m.fit(self.X, [self.Y], [0], max_its=limit, initial_decomposition=self.decomposition())
        else:
            self.m.fit(self.X, max_its=limit, initial_decomposition=self.decomposition())

    def stops(self, i, error=False):
        """do the tolerances stop the fit in its i-th state?"""
        cur = self.at(i, error)
        if i > 0:
            prev = self.at(i - 1, error)
            if abs((prev - cur) / prev) < self.tol:
                return True
        if self.kind == 'parafac2':
            return False
        return self.at(i, True) / 25 < self.rtol

    def at(self, i, error=False):
        s = self.born + i
        values = self.errors if error else self.loss
        if s not in values:
            values[s] = self.ctx.real('%s%d' % ('loss' if values is self.loss else 'error', s), (), pos=True)
        return values[s]


def num(ctx, rows):
    a = ctx.zeros((len(rows), len(rows[0])))
    a[...] = np.array(rows)
    return a


def harness(ctx, kind, hist, tol, top, split=False):
    r = Run(ctx, kind, top, tol, split=split)
    limit = r.limit
    done = 0
    first = {}
    for step, ev in enumerate(hist):
        given = ctx.choice('given%d' % step, [True, False]) if (step or len(hist) < 3) else True
        new = ctx.int('new%d' % step, 0, top) if given else None
        if given:
            limit = new
        if ev == 'fit':
            done = 0
            r.fit(new)
        else:
            if ev == 'retuned':
                r.tol, r.rtol = 0, 0
                r.m.convergence_tol, r.m.rel_loss_tol = 0, 0
            r.m.continue_fit(max_its=new)
        tag = '%d %s' % (step, ev)
        n = len(r.logs)
        total = r.state - r.born
        ctx.check(n == total, tag + ': one log entry per sweep')
        ctx.check([s for _, s in r.logs] == list(range(r.born + 1, r.born + 1 + n)), tag + ': logged after the sweep')
        ctx.check([int(i) for i, _ in r.logs] == list(range(n)), tag + ': iterations numbered')
        if kind != 'parafac2':
            ctx.check(r.sweeps == list(range(r.order)) * n, tag + ': every mode once per sweep')
        ctx.ieq(r.m.current_iteration, total, tag + ': counter')
        lim = int(limit)
        ctx.check(n <= max(lim, done), tag + ': limit kept')
        if split:
            # the change is that of the loss or that of the error, in all iterations alike
            ctx.check(any(not any(r.stops(i, e) for i in range(done, n)) and (n >= lim or r.stops(n, e)) for e in (kind != 'parafac2', kind == 'parafac2')),
                      tag + ': stopped by one measure')
            continue
        for i in range(done, n):
            ctx.check(not r.stops(i), tag + ': not stopped too late')
        if n < lim:
            ctx.check(r.stops(n), tag + ': not stopped too early')
        done = n
