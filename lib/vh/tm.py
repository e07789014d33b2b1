"""Exact one-dimensional reference: Lagrange bases on [0,1] in rational arithmetic."""
from __future__ import annotations

from fractions import Fraction as Fr
from functools import lru_cache

import numpy as np


def pmul(a, b):
    out = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def pder(a):
    return [i * c for i, c in enumerate(a)][1:] or [Fr(0)]


def pint(a, lo=Fr(0), hi=Fr(1)):
    return sum(c * (hi ** (i + 1) - lo ** (i + 1)) / (i + 1) for i, c in enumerate(a))


def pval(a, t):
    s = Fr(0)
    for c in reversed(a):
        s = s * t + c
    return s


@lru_cache(None)
def lagrange(q):
    """Coefficient lists of the nodal basis of degree q on equispaced nodes of [0,1] (q=0: constant)."""
    if q == 0:
        return [[Fr(1)]]
    nodes = [Fr(i, q) for i in range(q + 1)]
    out = []
    for i, xi in enumerate(nodes):
        p = [Fr(1)]
        for j, xj in enumerate(nodes):
            if j != i:
                p = pmul(p, [-xj / (xi - xj), 1 / (xi - xj)])
        out.append(p)
    return out


def gram(test, trial, dtest=0, dtrial=0):
    """[i, j] = int_0^1 d^dtest test_i d^dtrial trial_j (float array from exact rationals)."""

    def d(p, n):
        for _ in range(n):
            p = pder(p)
        return p

    return np.array([[float(pint(pmul(d(a, dtest), d(b, dtrial)))) for b in trial] for a in test])


@lru_cache(None)
def matrices(q, qs):
    L, S = lagrange(q), lagrange(qs)
    return {
        "M_time_q_qstar": gram(S, L), "M_time_q_q": gram(L, L), "M_time_qstar_qstar": gram(S, S),
        "DM_time_q_qstar": gram(S, L, 0, 1), "DM_time_q_q": gram(L, L, 0, 1), "DDM_time_q_q": gram(L, L, 1, 1),
    }


def radau_left(n):
    """Nodes/weights on [-1,1] of the n-point rule containing -1, exact for degree 2n-2."""
    from numpy.polynomial import legendre as le

    c = np.zeros(n + 1)
    c[n - 1] = c[n] = 1.0
    x = np.sort(np.real(le.legroots(c)))
    x[0] = -1.0
    w = np.zeros(n)
    for i in range(n):
        pn = le.legval(x[i], np.eye(n)[n - 1])
        w[i] = (1 - x[i]) / (n * pn) ** 2
    return x, w
