"""C15: factor match scores."""
import itertools
import numpy as np
from . import spec

BOUNDS = ('1-3 modes of length 1-3, ranks 1-2 with arbitrary real factors (nonzero columns), rank 3 with one free nonnegative factor '
          'against a fixed one; both reductions, with and without weights (different for different components); estimated rank up to three larger')
LIMITS = dict(max_paths=800, opaque=('abs',))


def configs(tier):
    c = []
    big = tier == 'thorough'

    def add(kind, shape, rank, red, wp, extra=0, **k):
        c.append(dict(name='%s-%s-r%d%s-%s-%s' % (kind, 'x'.join(map(str, shape)), rank, '+%d' % extra if extra else '', red, 'w' if wp else 'n'),
                      kind=kind, shape=shape, rank=rank, red=red, wp=wp, extra=extra, **k))
    for wp in (True, False):
        for red in ('min', 'mean'):
            add('fms', (2,), 1, red, wp)
            add('fms', (2, 3), 1, red, wp)
            add('fms', (2, 1, 2), 1, red, wp)
            add('fms', (2,), 2, red, wp)
            add('fms', (2, 2), 2, red, wp)
            add('fms', (2, 1), 1, red, wp, 1)
            add('fms', (2,), 1, red, wp, 2)
            add('fms', (2, 1), 1, red, wp, 3)
            add('kruskal', (2, 2), 1, red, wp)
            add('kruskal', (2, 1, 2), 2, red, wp)
            add('evolving', (2, 2), 1, red, wp)
            add('parafac2', (1, 2), 1, red, wp)
            add('evolving', (1, 2), 2, red, wp)
            add('self', (2, 2), 2, red, wp)
            add('self', (2, 1, 2), 1, red, wp)
            add('self', (2, 2), 3, red, wp) if big else None
            add('bound', (2,), 1, red, wp)
            add('bound', (2, 2), 1, red, wp)
            if big or (red == 'mean' and not wp):
                add('free', (3,), 3, red, wp)
            if red == 'mean' and not wp:
                add('free', (2,), 2, red, wp, 1)
                add('free', (2,), 2, red, wp, 2)
            if big:
                add('free', (2,), 2, red, wp, 3)
            if big:
                add('fms', (3, 2), 2, red, wp)
                add('fms', (2, 2, 2), 2, red, wp)
                add('fms', (2, 2), 2, red, wp, 1)
            # the score of PARAFAC2 components compares the first and the last factors
            add('outer', (2, 1, 2), 1, red, wp)
            add('outer', (2, 2, 1), 2, red, wp)
            add('outer', (1, 2, 2), 1, red, wp, 1)
    for red in ('min', 'mean'):
        for s, r, e in [((2,), 1, 0), ((2, 2), 1, 0), ((2, 2), 2, 0), ((2, 2), 1, 1)]:
            add('separate', s, r, red, False, e)
        add('separate-kruskal', (2, 2), 2, red, False)
        add('separate-evolving', (1, 2), 2, red, False)
        add('separate-parafac2', (1, 2), 1, red, False)
        add('separate-mixed', (1, 2), 1, red, False)
    return c


def nonzero(ctx, F):
    for f in F:
        for r in range(f.shape[1]):
            ctx.assume(spec.sumsq(f[:, r]), '>', 1e-2)


def columns(ctx, tag, n, rank, first=False):
    """every matrix without zero columns: columns are a length times a unit vector"""
    F = ctx.zeros((n, rank))
    for r in range(rank):
        p = ctx.real('%sp%d' % (tag, r), pos=True)
        ctx.assume(p, '>', 0.05)
        q = ctx.orthonormal('%sq%d' % (tag, r), n, 1)
        for i in range(n):
            F[i, r] = q[i, 0] * p
    return F


def factors(ctx, tag, shape, rank):
    return [columns(ctx, '%s%d' % (tag, n), s, rank) for n, s in enumerate(shape)]


def order_weights(ctx, F, G):
    """settle which weights are larger"""
    def weights(F):
        out = []
        for r in range(F[0].shape[1]):
            t = 1
            for f in F:
                t = t * ctx.sqrt(spec.sumsq(f[:, r]))
            out.append(t)
        return out
    for a in weights(F):
        for b in weights(G):
            d = a - b
            if d.n if ctx.sym else abs(d) > 1e-9:
                ctx.assume(d, '!=')
                if d > 0:
                    pass


def table(ctx, F, G, wp):
    """score of every pair of components"""
    R, S = F[0].shape[1], G[0].shape[1]
    cos = [spec.congruence(ctx, f, g) for f, g in zip(F, G)]
    nf = [[ctx.sqrt(spec.sumsq(f[:, r])) for r in range(R)] for f in F]
    ng = [[ctx.sqrt(spec.sumsq(g[:, s])) for s in range(S)] for g in G]
    out = np.empty((R, S), dtype=object)
    for r in range(R):
        for s in range(S):
            t = 1
            for c in cos:
                t = t * abs(c[r, s])
            if wp:
                a, b = 1, 1
                for n in range(len(F)):
                    a, b = a * nf[n][r], b * ng[n][s]
                t = t * (b / a if a > b else a / b)
            out[r, s] = t
    return out


def reduced(T, perm, red):
    vals = [T[r, s] for r, s in enumerate(perm)]
    if red == 'mean':
        t = 0
        for v in vals:
            t = t + v
        return t / len(vals)
    m = vals[0]
    for v in vals[1:]:
        if v < m:
            m = v
    return m


def judge(ctx, got, perm, T, red, tag=''):
    R, S = T.shape
    ok = perm is not None and len(perm) == R and len(set(perm)) == R and all(0 <= int(p) < S for p in perm)
    ctx.check(ok, tag + 'a permutation')
    if not ok:
        return
    ctx.eq(got, reduced(T, perm, red), tag + 'score of the returned permutation')
    for p in itertools.permutations(range(S), R):
        if tuple(p) != tuple(perm):
            ctx.ge(got, reduced(T, p, red), tag + 'no permutation is better')


def harness(ctx, kind, shape, rank, red, wp, extra):
    M, D = ctx.tk.metrics, ctx.tk.decs
    if kind in ('fms', 'separate', 'bound', 'free', 'outer'):
        if kind == 'free':
            F = [ctx.const(np.eye(rank, dtype=int))]
            G = [columns(ctx, 'G', rank, rank + extra)]
        else:
            F, G = factors(ctx, 'F', shape, rank), factors(ctx, 'G', shape, rank + extra)
        snap = ctx.copy([F, G])
        if kind == 'separate':
            got, perms = M.separate_mode_factor_match_score(F, G, fms_reduction=red)
            ctx.unchanged([F, G], snap, 'factors untouched')
            ctx.check(len(got) == len(F) and len(perms) == len(F), 'one score per mode')
            for n in range(len(F)):
                judge(ctx, got[n], perms[n], table(ctx, F[n:n + 1], G[n:n + 1], False), red, 'mode%d: ' % n)
            return
        if kind == 'outer':
            whole = [F[0], [F[1]] * len(F[2]), F[2]], [G[0], [G[1]] * len(G[2]), G[2]]
            F, G = F[::2], G[::2]
            snap = ctx.copy([F, G])
        if wp:
            order_weights(ctx, F, G)
        if kind == 'outer':
            got, perm = M.factor_match_score_parafac2(*whole, weight_penalty=wp, fms_reduction=red)
        else:
            got, perm = M.factor_match_score(F, G, weight_penalty=wp, fms_reduction=red)
        ctx.unchanged([F, G], snap, 'factors untouched')
        judge(ctx, got, perm, table(ctx, F, G, wp), red)
        if kind == 'bound':
            for f, g in zip(F, G):
                cs = spec.congruence(ctx, f, g)
                for r in range(rank):
                    for s in range(rank):
                        ctx.ge(1, cs[r, s] * cs[r, s], 'Cauchy-Schwarz')
                        if ctx.sym:
                            a = abs(cs[r, s])
                            ctx.ge(1, a, 'cosine bound')
                            ctx.assume(1 - a, '>=')
            ctx.ge(got, 0, 'not negative')
            ctx.ge(1, got, 'not above one')
        return
    if kind == 'self':
        F = factors(ctx, 'F', shape, rank)
        perm = ctx.choice('perm', list(itertools.permutations(range(rank))))
        G = [f.copy() for f in F]
        scale = ctx.real('d', (len(shape) - 1, rank))
        for s in range(rank):
            r = perm[s]
            last = 1
            for n in range(len(shape)):
                if n < len(shape) - 1:
                    d = scale[n, s]
                    ctx.assume(d, '!=', 5e-2)
                    last = last / d
                else:
                    d = last
                G[n][:, s] = [x * d for x in F[n][:, r]]
        if wp:
            order_weights(ctx, F, G)
        got, p = M.factor_match_score(F, G, weight_penalty=wp, fms_reduction=red)
        ctx.ge(got, 1, 'a decomposition matches itself')
        T = table(ctx, F, G, wp)
        judge(ctx, got, p, T, red)
        for r in range(rank):
            ctx.eq(T[perm[r], r], 1, 'matching components score one')
        return
    sep = kind.startswith('separate-')
    base = kind[9:] if sep else kind
    if base == 'kruskal':
        F, G = factors(ctx, 'F', shape, rank), factors(ctx, 'G', shape, rank)
        v, w = ctx.real('v', (rank,)), ctx.real('w', (rank,))
        for r in range(rank):
            ctx.assume(v[r], '!=', 5e-2)
            ctx.assume(w[r], '!=', 5e-2)
        a, b = D.KruskalTensor(F, v), D.KruskalTensor(G, w)
        F2, G2 = [f.copy() for f in F], [g.copy() for g in G]
        for r in range(rank):
            F2[-1][:, r] = F2[-1][:, r] * v[r]
            G2[-1][:, r] = G2[-1][:, r] * w[r]
    else:
        F2, G2, decs = [], [], []
        I, J = shape
        for tag, out in (('F', F2), ('G', G2)):
            A, C = columns(ctx, tag + 'A', I, rank), columns(ctx, tag + 'C', 2, rank)
            widths = (J - 1, J) if base != 'mixed' else (J, J)
            if base == 'mixed' and tag == 'G':
                B = columns(ctx, tag + 'B', J, rank)
                w = ctx.real(tag + 'w', (rank,))
                for r in range(rank):
                    ctx.assume(w[r], '!=', 5e-2)
                decs.append(D.KruskalTensor([A, B, C], w))
                Bs = [B, B]
            elif base == 'parafac2':
                Bp = ctx.real(tag + 'Bp', (rank, rank))
                P = [ctx.real(tag + 'P%d' % k, (j, rank)) for k, j in enumerate(widths)]
                Bs = [spec.matmul(p, Bp) for p in P]
                decs.append(D.Parafac2Tensor(A, Bp, C, P))
            else:
                B = columns(ctx, tag + 'B', sum(widths), rank)
                Bs = [B[:widths[0]].copy(), B[widths[0]:].copy()]
                decs.append(D.EvolvingTensor(A, Bs, C))
            out += [A, np.concatenate([np.asarray(b) for b in Bs], axis=0), C]
            nonzero(ctx, out)
        a, b = decs
    if sep:
        f = getattr(a, 'seperate_mode_factor_match_score', None) or a.separate_mode_factor_match_score
        got, perms = f(b, fms_reduction=red)
        for n in range(len(F2)):
            judge(ctx, got[n], perms[n], table(ctx, F2[n:n + 1], G2[n:n + 1], False), red, 'mode%d: ' % n)
    else:
        if wp:
            order_weights(ctx, F2, G2)
        got, perm = a.factor_match_score(b, weight_penalty=wp, fms_reduction=red)
        judge(ctx, got, perm, table(ctx, F2, G2, wp), red)
