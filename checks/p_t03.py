"""T03: quadrature rules integrate polynomials of their degree exactly on every interval."""
import numpy as np
from hypothesis import strategies as st

from vh import tm
from vh.core import Info, Prop, Sub, close, require

DEG = {("Gauss-Radau", 3): 4, ("Gauss-Radau", 4): 6, ("Gauss-Radau", 5): 8, ("Gauss", 1): 1, ("Gauss", 2): 3,
       ("Gauss", 3): 5, ("Newton-Cotes", 2): 1, ("Newton-Cotes", 3): 3, ("Midpoint-Rule", 1): 1}
RULES = sorted(DEG)


def nodes01(name, n):
    """Independent nodes/weights on [0,1]."""
    if name == "Gauss-Radau":
        x, w = tm.radau_left(n)
    elif name == "Gauss":
        x, w = np.polynomial.legendre.leggauss(n)
    elif name == "Newton-Cotes":
        return np.linspace(0, 1, n), np.array({2: [0.5, 0.5], 3: [1 / 6, 2 / 3, 1 / 6]}[n])
    else:
        return np.array([0.5]), np.array([1.0])
    return (x + 1) / 2, w / 2


def check(c):
    from dxss.precomp_time_int import QuadRule

    rules, shapes = {}, 0
    for r, a, length, coef, mutate in c["uses"]:
        name, n = RULES[r]
        a, length = a / 8.0, length / 8.0
        b = a + length
        if (r, c["fresh"]) not in rules or c["fresh"]:
            rules[r, c["fresh"]] = QuadRule(name, n)
        rule = rules[r, c["fresh"]]
        pts = [float(x) for x in rule.current_pts(a, b)]
        w = [float(x) for x in rule.t_weights(b - a)]
        require(len(pts) == n and len(w) == n, f"{name}/{n}: {len(pts)} points, {len(w)} weights")
        six = name == "Gauss-Radau" and n > 3  # tabulated to six digits
        eps = 2e-6 if six else 1e-13
        x01, w01 = nodes01(name, n)
        m = abs(a) + abs(b)
        close(np.array(pts), a + length * x01, eps, f"{name}/{n} points on [{a},{b}]", scale=m if not six else length + 1e-7 * m)
        close(np.array(w), length * w01, eps, f"{name}/{n} weights on [{a},{b}]", scale=length)
        deg = DEG[name, n]
        p = np.array(coef[: deg + 1], dtype=float)  # in s = (t-a)/(b-a)
        ref = length * sum(ci / (i + 1) for i, ci in enumerate(p))
        got = sum(wi * np.polynomial.polynomial.polyval((t - a) / length, p) for wi, t in zip(w, pts))
        close(got, ref, 20 * eps * (1 + m / length), f"{name}/{n} on a polynomial of degree {deg} over [{a},{b}]",
              scale=length * (np.abs(p).sum() + 1e-12))
        shapes += int(any(coef[1 : deg + 1]))
        if mutate:
            out = rule.current_pts(a, b)
            wts = rule.t_weights(b - a)
            for lst in (out, wts):
                for i in range(len(lst)):
                    lst[i] = 99.0
    return Info(shapes > 0, [f"{RULES[u[0]][0]}/{RULES[u[0]][1]}" for u in c["uses"][:1]])


def cases():
    pairs = st.one_of(st.tuples(st.integers(-80, 80), st.integers(1, 160)), st.sampled_from([(-8, 16), (0, 8), (-8, 8), (0, 16)]))
    use = st.builds(lambda r, p, coef, mutate: [r, *p, coef, mutate], st.integers(0, len(RULES) - 1), pairs, st.lists(st.integers(-9, 9), min_size=9, max_size=9), st.booleans())
    return st.fixed_dictionaries({"uses": st.lists(use, min_size=1, max_size=6), "fresh": st.booleans()})


PROP = Prop("T03", [
    Sub("exactness", cases, check, "at least one nonconstant polynomial integrated",
        quick=7504, thorough=90048, shards_quick=8, shards_thorough=8,
        always=[{"uses": [[r, a, n, [2, 3, 1, 1, 1, 1, 1, 1, 1], True] for _ in range(2) for a, n in ((-8, 16), (0, 8), (-8, 8), (8, 8))], "fresh": f}
                for r in range(len(RULES)) for f in (True, False)] + [{"uses": [[r, -3, 11, [1, -2, 3, 5, -7, 2, 4, -5, 6], True], [r, 0, 8, [2, 3, 1, 1, 1, 1, 1, 1, 1], False]],
                 "fresh": f} for r in range(len(RULES)) for f in (True, False)]),
], assumptions=["the 4- and 5-point Gauss-Radau rules are tabulated to six digits: exactness to 2e-6"])
