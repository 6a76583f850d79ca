"""Optimality of an update that hands its subproblem to one of the solvers of tenkit.base (which C04 decides).

The solver is replaced by its contract: it returns an arbitrary F, of which the harness then knows only
  rightsolve                 (F A - B) A^T = 0   (for a square A, where the caller passes normal equations: F A - B = 0)
  non_negative_rightsolve    F >= 0, (F A - B) A^T >= 0, complementary to F
  orthogonal_rightsolve      F^T F = I, F^T (B A^T) symmetric positive semidefinite
for the arguments A, B it was given.  The update is optimal for every F of that kind exactly when the gradient of the
subproblem (written out from its definition) is the residual of the contract, an identity between polynomials in F, data
and factors.  On replay the real solver runs and its result is tested against the optimality conditions themselves.
"""
import contextlib
import numpy as np
from . import spec

NAMES = ('rightsolve', 'non_negative_rightsolve', 'orthogonal_rightsolve', 'orthogonal_solve')


@contextlib.contextmanager
def recorded(ctx, calls):
    """every call of a solver is appended to calls as (name, A, B, F)"""
    base = ctx.tk.base
    old = {k: getattr(base, k) for k in NAMES}
    depth = [0]

    def wrap(name):
        def f(A, B):
            if ctx.sym:
                F = ctx.e.real('F%d' % len(calls), (A.shape[1], B.shape[1]) if name == 'orthogonal_solve' else (B.shape[0], A.shape[0]))
            else:
                # orthogonal_rightsolve may itself call another one
                depth[0] += 1
                try:
                    F = old[name](A, B)
                finally:
                    depth[0] -= 1
            if not depth[0]:
                calls.append((name, ctx.copy(A), ctx.copy(B), ctx.copy(F)))
            return F
        return f
    for k in NAMES:
        setattr(base, k, wrap(k))
    try:
        yield
    finally:
        for k, f in old.items():
            setattr(base, k, f)


def optimal(ctx, V, M, lam, kind, new, calls, label):
    """new minimises tr(new V new^T) - 2 tr(new M^T) + lam ||new||^2 under the constraint of the mode (kind)"""
    rank = len(V)
    if ctx.sym and len(calls) != 1:
        # several subproblems were solved together: the one whose solution this is
        from .. import npshim
        calls = [c for c in calls if c[3].shape == new.shape and npshim._eqarr(npshim.asarray(c[3]), npshim.asarray(new))]
    V = V + 0
    for r in range(rank):
        V[r, r] = V[r, r] + lam
    want = 'orthogonal_rightsolve' if 'orth' in kind else 'non_negative_rightsolve' if 'nonneg' in kind else 'rightsolve'
    if ctx.sym:
        from .. import npshim
        from ..sym import Unsupported
        if len(calls) != 1:
            raise Unsupported('%d solver calls in one update' % len(calls))
        name, A, B, F = calls[0]
        ctx.eq(new, F, label + ': the solution becomes the factor', observe=False)
        if want == 'orthogonal_rightsolve':
            if name != want:
                ctx.check(False, label + ': orthonormal')
            ctx.eq(spec.matmul(B, A.T), M, label + ': closest', observe=False)
            return
        if want != name and name != 'non_negative_rightsolve':
            ctx.check(False, label + ': nonnegative')
        # columns of zeros (a penalty of zero) say nothing
        keep = [j for j in range(A.shape[1]) if any(npshim.lift(x).n for x in list(A[:, j]) + list(B[:, j]))]
        A, B = A[:, keep], B[:, keep]
        grad = spec.matmul(F, V) - M
        res = spec.matmul(F, A) - B
        if name == 'rightsolve' and res.shape == grad.shape and npshim._eqarr(npshim.asarray(res), npshim.asarray(grad)):
            ctx.eq(grad, res, label + ': stationary', observe=False)
        else:
            ctx.eq(grad, spec.matmul(res, A.T), label + ': stationary', observe=False)
        return
    V, M, new = (np.asarray(x, dtype=float) for x in (V, M, new))
    ctx.assume_that(np.all(np.isfinite(V)) and np.all(np.isfinite(M)))
    if want == 'orthogonal_rightsolve':
        ctx.fullrank(M)
        ctx.eq(new.T @ new, np.eye(rank), label + ': orthonormal', observe=False)
        ctx.eq(new.T @ M, M.T @ new, label + ': closest', observe=False)
        ctx.ge(np.linalg.eigvalsh(new.T @ M + M.T @ new), 0, label + ': closest')
        return
    ctx.assume_that(np.linalg.cond(V) < 1e5)
    if want == 'rightsolve':
        ctx.eq(new @ V, M, label + ': stationary', observe=False)
        return
    ctx.ge(new, 0, label + ': nonnegative')
    ctx.ge(new @ V - M, 0, label + ': stationary')
    ctx.eq(new * (new @ V - M), 0 * M, label + ': stationary', observe=False)


def projection(ctx, M, P, calls, label):
    """P is the matrix with orthonormal columns closest to M: P^T M symmetric positive semidefinite"""
    if ctx.sym:
        from .. import npshim
        from ..sym import Unsupported
        hit = [c for c in calls if c[0] == 'orthogonal_solve' and c[3].T.shape == P.shape
               and npshim._eqarr(npshim.asarray(c[3]).T, npshim.asarray(P))]
        if len(hit) != 1:
            raise Unsupported('%d solver calls give this projection' % len(hit))
        _, A, B, F = hit[0]
        ctx.eq(spec.matmul(B.T, A), M, label + ': closest', observe=False)
        return
    M, P = np.asarray(M, dtype=float), np.asarray(P, dtype=float)
    ctx.fullrank(M)
    ctx.eq(P.T @ P, np.eye(P.shape[1]), label + ': orthonormal', observe=False)
    ctx.eq(P.T @ M, M.T @ P, label + ': closest', observe=False)
    ctx.ge(np.linalg.eigvalsh(P.T @ M + M.T @ P), 0, label + ': closest')


def normal(factors, mode):
    """the normal matrix of the least squares problem of one factor"""
    rank = factors[0].shape[1]
    V = np.empty((rank, rank), dtype=object)
    V[...] = 1
    for i, f in enumerate(factors):
        if i != mode:
            V = V * spec.gram(f)
    return V
