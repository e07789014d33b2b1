"""Polynomials in (t, x) that can be evaluated on numpy points, on UFL coordinates and differentiated."""
from __future__ import annotations

import itertools
from math import comb

import numpy as np
from hypothesis import strategies as st

DIRS = {1: [(1.0,), (-1.0,)], 2: [(1.0, 0.0), (0.0, 1.0), (0.6, 0.8), (-0.8, 0.6)],
        3: [(1.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.6, 0.0, 0.8), (2 / 3, 2 / 3, -1 / 3), (0.0, -0.6, 0.8)]}


class Poly:
    """sum coef[(i, e1, .., ed)] t^i x^e"""

    def __init__(self, d, coef):
        self.d, self.c = d, {k: v for k, v in coef.items() if v != 0.0}

    def dt(self):
        return Poly(self.d, {(k[0] - 1, *k[1:]): k[0] * v for k, v in self.c.items() if k[0]})

    def dx(self, a):
        out = {}
        for k, v in self.c.items():
            if k[1 + a]:
                e = list(k)
                e[1 + a] -= 1
                out[tuple(e)] = out.get(tuple(e), 0.0) + k[1 + a] * v
        return Poly(self.d, out)

    def lap(self):
        out = {}
        for a in range(self.d):
            for k, v in self.dx(a).dx(a).c.items():
                out[k] = out.get(k, 0.0) + v
        return Poly(self.d, out)

    def __call__(self, t, x):
        """t: number; x: sequence of coordinates (UFL or numpy)."""
        s = 0.0 * x[0]
        for k, v in self.c.items():
            m = v * t ** k[0]
            for a in range(self.d):
                for _ in range(k[1 + a]):
                    m = m * x[a]
            s = s + m
        return s

    def at(self, t, pts):
        """pts: (n, d)"""
        p = np.asarray(pts, dtype=float)
        return self(t, [p[:, a] for a in range(self.d)]) + np.zeros(len(p))

    def slices(self):
        """{i: Poly in x only} with self = sum t^i slice_i."""
        out = {}
        for k, v in self.c.items():
            out.setdefault(k[0], {})[(0, *k[1:])] = v
        return {i: Poly(self.d, c) for i, c in out.items()}

    def deg_t(self):
        return max((k[0] for k in self.c), default=0)

    def deg_x(self):
        return max((sum(k[1:]) for k in self.c), default=0)


def plane_wave(d, direction, coef):
    """p(t + a.x) for p = sum coef_m s^m: solves the wave equation when |a| = 1."""
    out = {}
    for m, cm in enumerate(coef):
        for e in itertools.product(range(m + 1), repeat=d):
            if sum(e) > m or any(ei and not direction[a] for a, ei in enumerate(e)):
                continue
            i = m - sum(e)
            mult, rem = 1, m
            for ei in e:
                mult *= comb(rem, ei)
                rem -= ei
            v = cm * mult
            for a, ei in enumerate(e):
                v *= direction[a] ** ei
            key = (i, *e)
            out[key] = out.get(key, 0.0) + v
    return Poly(d, out)


def add(p, q):
    out = dict(p.c)
    for k, v in q.c.items():
        out[k] = out.get(k, 0.0) + v
    return Poly(p.d, out)


@st.composite
def waves(draw):
    return [[draw(st.integers(0, 4)), draw(st.lists(st.sampled_from([1.0, -1.0, 0.5, 2.0, 0.0]), min_size=4, max_size=4))]
            for _ in range(draw(st.integers(1, 2)))]


def wave(d, spec, deg):
    p = Poly(d, {})
    for i, coef in spec:
        a = DIRS[d][i % len(DIRS[d])]
        p = add(p, plane_wave(d, a, coef[: deg + 1]))
    return p


@st.composite
def coefs(draw, maxterms=4, degt=3):
    return [[draw(st.integers(0, degt)), [draw(st.integers(0, 3)) for _ in range(3)], draw(st.sampled_from([1.0, -2.0, 0.5, 3.0]))]
            for _ in range(draw(st.integers(1, maxterms)))]


def general(d, spec, degt, degx):
    out = {}
    for i, e, v in spec:
        e = list(e[:d])
        while sum(e) > degx:
            e[int(np.argmax(e))] -= 1
        k = (min(i, degt), *e)
        out[k] = out.get(k, 0.0) + v
    return Poly(d, out)
