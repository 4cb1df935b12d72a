"""column model of hybrid coordinates, plain floats"""
import math
from itertools import product

# dyadic coefficients: hya*p0 + hyb*ps is exact for the p0 and ps used, so that boundaries are exact
COEF = {
    'sigma': ([0, 0, 0, 0], [8, 24, 40, 64]),
    'pressure': ([4, 16, 32, 40], [0, 0, 0, 0]),
    'mixed': ([4, 8, 4, 0], [0, 16, 40, 64]),
    'top': ([1, 2, 6, 3, 1], [0, 0, 2, 30, 61]),
    'two': ([4, 0], [8, 60]),
    'six': ([1, 3, 6, 5, 2, 0], [0, 0, 4, 20, 44, 63]),
    'three': ([2, 4, 0], [1, 20, 62]),
}
# realistic columns (not dyadic: target levels stay away from the levels)
def _col(n):
    eta = [(k + 1) / (n + 1) for k in range(n)]
    b = [e * e if e > 0.2 else 0.0 for e in eta]
    return [64 * (e - q) for e, q in zip(eta, b)], [64 * q for q in b]


LARGE = {'l30': _col(30), 'l65': _col(65), 'l20': _col(20)}
PS = [102400.0, 76800.0, 51200.0, 96000.0, 64000.0, 89600.0, 83200.0, 57600.0]


def coef(name, flip=False):
    a, b = COEF[name] if name in COEF else LARGE[name]
    a, b = [x / 64 for x in a], [x / 64 for x in b]
    return (a[::-1], b[::-1]) if flip else (a, b)


def pressure(a, b, p0, ps):
    return [x * p0 + y * ps for x, y in zip(a, b)]


def interp(xs, ys, x, log=False):
    """-> (value, certain): piecewise linear in x (or log x), NaN outside"""
    pts = sorted(zip(xs, ys))
    if x < pts[0][0] or x > pts[-1][0]:
        return math.nan, True
    for k in range(len(pts) - 1):
        (x0, y0), (x1, y1) = pts[k], pts[k + 1]
        if x0 <= x <= x1:
            if x == x0 or x == x1:
                y = y0 if x == x0 else y1
                # a missing neighbour of an exactly hit level: either answer
                near = [pts[j][1] for j in range(max(0, k - 1), min(len(pts), k + 3))]
                return y, not any(math.isnan(v) for v in near)
            w = (math.log(x) - math.log(x0)) / (math.log(x1) - math.log(x0)) if log else (x - x0) / (x1 - x0)
            return (1 - w) * y0 + w * y1, True
    raise AssertionError
