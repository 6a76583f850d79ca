"""the concrete counterpart of npshim.givens_orthonormal"""
import numpy as np


def pairs(n, k):
    return sum(n - 1 - j for j in range(min(k, n - 1)))


def build(n, k, vals):
    Q = np.eye(n)
    it = iter(vals)
    for j in range(min(k, n - 1)):
        for i in range(n - 1, j, -1):
            c, s = next(it), next(it)
            r = np.hypot(c, s) or 1.0
            c, s = (c / r, s / r) if np.hypot(c, s) > 1e-9 else (1.0, 0.0)
            a, b = Q[:, j].copy(), Q[:, i].copy()
            Q[:, j], Q[:, i] = a * c + b * s, b * c - a * s
    if n == k:
        e = next(it)
        Q[:, n - 1] *= -1.0 if e < 0 else 1.0
    return Q[:, :k].copy()
