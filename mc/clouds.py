"""Named deterministic point clouds used by several properties."""
import itertools
import math
import numpy as np


def polygon(n, r=1., rot=0., cx=0., cy=0.):
    return np.array([[cx + r * math.cos(2 * math.pi * k / n + rot),
                      cy + r * math.sin(2 * math.pi * k / n + rot)]
                     for k in range(n)])


def grid(*shape):
    return np.array(list(itertools.product(*[range(s) for s in shape])),
                    dtype=float)


def octa(h=.505, dim=3, extra=()):
    P = []
    for a in range(dim):
        for s in (1, -1):
            v = [0.] * dim
            v[a] = s * h
            P.append(v)
    return np.array(P + [list(e) for e in extra])


def cross4(h, rx, Z, tilt=0.):
    """Suspension of an octahedron in 4D, with two extent points."""
    P = [[0, 0, 0, h], [0, 0, 0, -h]]
    for ax in range(3):
        for s in (1, -1):
            v = [0.] * 4
            v[ax] = s * rx[ax]
            v[(ax + 1) % 3] += tilt * s
            P.append(v)
    P += [[Z, Z, Z, 0], [-Z, -Z, -Z, 0]]
    return np.array(P, dtype=float)


def quasi(n, dim, sh=0):
    """Low-discrepancy points: generic position, no ties."""
    a = [0.7548776662466927, 0.5698402909980532, 0.8191725133961645,
         0.6710436067037893, 0.5497004779019703]
    return np.array([[((k + 1 + sh) * a[d]) % 1. for d in range(dim)]
                     for k in range(n)])


def spiral(n):
    return np.array([[.3 * t * math.cos(t), .3 * t * math.sin(t)]
                     for t in [1 + .55 * k for k in range(n)]])


def trefoil(n):
    return np.array([[math.sin(t) + 2 * math.sin(2 * t),
                      math.cos(t) - 2 * math.cos(2 * t), -math.sin(3 * t)]
                     for t in [2 * math.pi * k / n for k in range(n)]])


def fib_sphere(n):
    g = math.pi * (3 - math.sqrt(5))
    out = []
    for k in range(n):
        z = 1 - 2 * (k + .5) / n
        r = math.sqrt(1 - z * z)
        out.append([r * math.cos(g * k), r * math.sin(g * k), z])
    return np.array(out)


_C = {}


def _reg(name, X):
    _C[name] = X


for _n in (3, 4, 5, 6, 7, 8, 10, 12):
    _reg("polygon%d" % _n, polygon(_n))
    _reg("polygon%d-rot" % _n, polygon(_n, rot=.3))
for _s in ((2, 2), (3, 3), (3, 2), (4, 3), (2, 2, 2), (3, 2, 2), (5,), (1, 4)):
    _reg("grid" + "x".join(map(str, _s)), grid(*_s))
_reg("two-circles", np.vstack([polygon(6), polygon(6, cx=2.6)]))
_reg("concentric", np.vstack([polygon(5, .6, .1), polygon(8, 1.4)]))
_reg("figure8", np.vstack([polygon(6, rot=.01), polygon(6, cx=2., rot=.01)[
    [0, 1, 2, 4, 5]]]))
_reg("octahedron", octa(.505))
_reg("octahedron-1", octa(.6)[:5])
_reg("octahedron-skew", octa(.505) * np.array([1., 1.1, 1.2]))
_reg("square-apex", np.array([[0, .5, .5], [0, .5, -.5], [0, -.5, .5],
                              [0, -.5, -.5], [.65, 0, 0], [-.65, 0, 0]]))
for _n, _d in ((5, 1), (9, 1), (6, 2), (10, 2), (14, 2), (6, 3), (9, 3),
               (6, 4)):
    _reg("quasi%d-%dD" % (_n, _d), quasi(_n, _d))
_reg("spiral", spiral(14))
_reg("trefoil", trefoil(14))
_reg("fib-sphere", fib_sphere(12))
_reg("single", np.array([[1., 2.]]))
_reg("coincident", np.array([[1., 2.]] * 3))
_reg("duplicates", np.array([[0., 0], [1, 0], [1, 0], [0, 1], [1, 1],
                             [0, 0]]))
_reg("flat", np.array([[2., 3, 0], [2, 0, 2], [2, 1, 1], [2, 3, 2]]))
_reg("integers", np.array([[0, 0], [3, 1], [1, 3], [4, 4], [2, 2], [5, 0]]))
_reg("negative", -quasi(9, 2) * 3 - 5)
_reg("far-away", quasi(9, 2, 4) + 1000.)
_reg("tiny", quasi(8, 2, 2) * 1e-3)
_reg("line-in-3D", np.array([[t, 2 * t, -t] for t in range(6)], dtype=float))
_reg("clusters", np.vstack([quasi(4, 2) * .2, quasi(4, 2, 3) * .2 + 2,
                            quasi(3, 2, 5) * .2 + [2., 0.]]))
_reg("L-shape", np.array([[0., k] for k in range(5)] +
                         [[k, 0.] for k in range(1, 5)]))
_reg("ladder", np.array([[k, 0.] for k in range(6)] +
                        [[k, 1.] for k in range(6)]))
_reg("micro", np.vstack([quasi(5, 2, 3), polygon(5)]) * 2. ** -34)
_reg("huge", np.vstack([quasi(5, 2, 3), polygon(5)]) * 2. ** 30)
NAMES = list(_C)


def get(name):
    return np.copy(_C[name])


def scale(X):
    """Largest side of the bounding box."""
    X = np.asarray(X, dtype=float)
    return float(max(X.max(axis=0) - X.min(axis=0)))
