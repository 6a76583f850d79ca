"""Reference definitions written as plain loops (they run on symbols and on floats)."""
import itertools
import contextlib
import numpy as np


def kruskal(factors, weights=None):
    """entries sum_r w_r prod_n U_n[i_n, r]"""
    shape = tuple(len(f) for f in factors)
    R = factors[0].shape[1]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        t = 0
        for r in range(R):
            p = 1 if weights is None else weights[r]
            for f, i in zip(factors, idx):
                p = p * f[i, r]
            t = t + p
        out[idx] = t
    return out


def sumsq(*arrs):
    t = 0
    for a in arrs:
        for x in np.asarray(a).reshape(-1):
            t = t + x * x
    return t


def matmul(A, B):
    n, k = A.shape
    m = B.shape[1]
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            t = 0
            for l in range(k):
                t = t + A[i, l] * B[l, j]
            out[i, j] = t
    return out


def khatri_rao(mats):
    R = mats[0].shape[1]
    rows = list(itertools.product(*[range(len(m)) for m in mats]))
    out = np.empty((len(rows), R), dtype=object)
    for i, idx in enumerate(rows):
        for r in range(R):
            p = 1
            for m, k in zip(mats, idx):
                p = p * m[k, r]
            out[i, r] = p
    return out


def unfold(X, n):
    rest = [m for m in range(X.ndim) if m != n]
    cols = list(itertools.product(*[range(X.shape[m]) for m in rest]))
    out = np.empty((X.shape[n], len(cols)), dtype=object)
    for i in range(X.shape[n]):
        for c, idx in enumerate(cols):
            full = [0] * X.ndim
            full[n] = i
            for m, k in zip(rest, idx):
                full[m] = k
            out[i, c] = X[tuple(full)]
    return out


def mttkrp(X, factors, mode):
    R = factors[0].shape[1]
    out = np.empty((X.shape[mode], R), dtype=object)
    rest = [m for m in range(X.ndim) if m != mode]
    for i in range(X.shape[mode]):
        for r in range(R):
            t = 0
            for idx in itertools.product(*[range(X.shape[m]) for m in rest]):
                full = [0] * X.ndim
                full[mode] = i
                p = 1
                for m, k in zip(rest, idx):
                    full[m] = k
                    p = p * factors[m][k, r]
                t = t + X[tuple(full)] * p
            out[i, r] = t
    return out


def slices(A, Bs, C):
    """A diag(c_k) B_k^T"""
    out = []
    for k, B in enumerate(Bs):
        S = np.empty((len(A), len(B)), dtype=object)
        for i in range(len(A)):
            for j in range(len(B)):
                t = 0
                for r in range(A.shape[1]):
                    t = t + A[i, r] * C[k, r] * B[j, r]
                S[i, j] = t
        out.append(S)
    return out


def gram(A):
    return matmul(A.T, A)


def identity(n):
    return np.array([[1 if i == j else 0 for j in range(n)] for i in range(n)])


def det(M):
    n = len(M)
    if n == 1:
        return M[0, 0]
    t = 0
    for j in range(n):
        rows = [i for i in range(1, n)]
        cols = [k for k in range(n) if k != j]
        m = M[0, j] * det(M[np.ix_(rows, cols)])
        t = t + m if j % 2 == 0 else t - m
    return t


def adjugate(M):
    n = len(M)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                out[i, j] = 1
                continue
            rows = [k for k in range(n) if k != j]
            cols = [k for k in range(n) if k != i]
            c = det(M[np.ix_(rows, cols)])
            out[i, j] = c if (i + j) % 2 == 0 else -c
    return out


def congruence(ctx, A, B):
    """cosines between the columns of A and B"""
    na = [ctx.sqrt(sumsq(A[:, r])) for r in range(A.shape[1])]
    nb = [ctx.sqrt(sumsq(B[:, r])) for r in range(B.shape[1])]
    out = np.empty((A.shape[1], B.shape[1]), dtype=object)
    for r in range(A.shape[1]):
        for s in range(B.shape[1]):
            t = 0
            for x, y in zip(A[:, r], B[:, s]):
                t = t + x * y
            out[r, s] = t / (na[r] * nb[s])
    return out


def named_gram(ctx, A):
    """A^T A, in terms of the factorisation the solver chose for A or its cross product"""
    if not ctx.sym:
        return gram(A)
    N = ctx.named(A)
    if any(x is not y and x.n != y.n for x, y in zip(N.reshape(-1), A.reshape(-1))):
        return gram(N)
    return ctx.named(gram(A))


@contextlib.contextmanager
def generic(ctx):
    """replays: give up when a linear problem met on the way has no numerically well determined solution"""
    base = ctx.tk.base
    if ctx.sym:
        yield
        return
    names = ('rightsolve', 'non_negative_rightsolve', 'orthogonal_solve')
    old = {k: getattr(base, k) for k in names}

    def wrap(k, f):
        def g(A, B):
            M = np.asarray(B.T @ A if k == 'orthogonal_solve' else A, dtype=float)
            s = np.linalg.svd(M, compute_uv=False) if np.all(np.isfinite(M)) else np.zeros(1)
            ctx.assume_that(s[-1] > 1e-7 * s[0])
            return f(A, B)
        return g
    for k in names:
        setattr(base, k, wrap(k, old[k]))
    try:
        yield
    finally:
        for k in names:
            setattr(base, k, old[k])


def collinear(ctx, rows, k):
    """two components that are nearly collinear: singular values 1 and any between 10^-k and 1"""
    if ctx.sym:
        from ..sym import lift
        q = lambda a, b: lift(a) / lift(b)
    else:
        q = lambda a, b: a / b
    rot = lambda a, b, c: [[q(a, c), q(-b, c)], [q(b, c), q(a, c)]]
    U = rot(3, 4, 5) if rows == 2 else [[q(1, 3), q(2, 3)], [q(2, 3), q(1, 3)], [q(2, 3), q(-2, 3)]]
    U, V = ctx.const(U), ctx.const(rot(12, 5, 13))
    S = ctx.zeros(2)
    d = ctx.real('delta', (), pos=True)
    ctx.assume(d - q(1, 10 ** k), '>=', 0)
    ctx.assume(1 - d, '>=', 0)
    S[0], S[1] = 1, d
    F = ctx.zeros((rows, 2))
    F[:, :] = matmul(U * S, V.T)
    if ctx.sym:
        ctx.svd_known(F, U, S, V.T)
    return F


def ten(n):
    """a unit of measurement: lifted exactly"""
    return float('1e%d' % n)
