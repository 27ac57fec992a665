"""C01: the spectral sequence computes the persistent homology of the cloud."""
import itertools
import numpy as np
from .. import clouds, ssrun

ID = "C01"
CHUNK = 2
ASSUMPTIONS = [
    "overlap >= max_r (documented precondition of the cubical cover)",
    "reference: textbook boundary matrix reduction over Z/p",
    "radii that differ by rounding only (relative 1e-8) are identified",
]
TILT = ([0, 1.03, 2.11], [0, .97, 1.92], [0, 1.07, 2.03])


def one(X, r, dim, div, ov, p, **k):
    c = dict(X=np.asarray(X).tolist(), r=r, dim=dim, div=div, ov=ov, p=p)
    c.update(k)
    return c


def line_cases(tier):
    top = 6
    nmax = 5 if tier == "quick" else 7
    for n in range(1, nmax + 1):
        for m in itertools.combinations_with_replacement(range(top), n):
            if m[0] != 0:
                continue
            for r, dim, div, p in ((1.5, 1, 2, 2), (2.5, 2, 3, 3),
                                   (1.5, 2, 4, 2), (3.5, 3, 2, 5)):
                yield "line multisets", one([[x] for x in m], r, dim, div, r,
                                            p)


def grid_cases(tier):
    pts = list(itertools.product(range(3), repeat=2))
    for code in range(1, 512):
        sub = [pts[i] for i in range(9) if code >> i & 1]
        tl = [[TILT[0][a], TILT[1][b]] for a, b in sub]
        for r, div, p in ((1.2, 2, 2), (1.5, 3, 3), (2.1, 2, 3)):
            if tier == "quick" and r == 2.1 and len(sub) % 2:
                continue
            yield "subsets of the 3x3 grid", one(sub, r, 2, div, r * 1.01, p)
        yield "subsets of the distorted 3x3 grid", one(
            tl, 1.6 if code % 2 else 2.3, 2, 2, 2.3, (2, 3, 5)[code % 3])
        if tier == "thorough":
            for r, div, p in ((1.6, 2, 2), (2.3, 3, 3), (2.9, 2, 2)):
                yield "subsets of the distorted 3x3 grid", one(
                    tl, r, 2, div, r, p)


def ring_cases(tier):
    rots = range(4 if tier == "quick" else 12)
    for n in (4, 5, 6, 7, 8, 9, 10, 12):
        for k in rots:
            X = clouds.polygon(n, rot=.11 * k)
            side = 2 * np.sin(np.pi / n)
            for j, (m, div, dim) in enumerate((
                    (1.02, 2, 2), (1.02, 3, 2), (1.6, 2, 2), (1.95, 2, 3))):
                p = (2, 3, 5, 7, 13, 2, 3)[(n + k + j) % 7]
                yield "rings", one(X, side * m, dim, div,
                                   side * m * (1, 1.2)[k % 2], p)
    # rings with a hole on every region border, nested and chained rings
    for k in range(6 if tier == "quick" else 16):
        X = np.vstack([clouds.polygon(6, rot=.17 * k),
                       clouds.polygon(6, cx=2.3, rot=.1 * k)])
        yield "chains of rings", one(X, 1.15, 2, 2, 1.15, 2)
        yield "chains of rings", one(X, 1.35, 2, 3, 1.35, 3)
        X = np.vstack([clouds.polygon(5, .7, .1 * k), clouds.polygon(9, 1.6)])
        yield "chains of rings", one(X, 1.12, 2, 2, 1.12, 3)
        X = np.vstack([clouds.polygon(5, rot=.2 * k, cx=1.9 * j, r=.85)
                       for j in range(4)])
        yield "chains of rings", one(X, 1.05, 2, 6, 1.05, 2)


def solid_cases(tier):
    # octahedra with every combination of two axis lengths, vertices removed
    for code in range(64):
        h = [(.505, .57)[code >> i & 1] for i in range(6)]
        P = []
        for i in range(6):
            v = [0.] * 3
            v[i // 2] = h[i] * (1 if i % 2 else -1)
            v[(i // 2 + 1) % 3] = .02 * i
            P.append(v)
        P = np.array(P)
        yield "octahedra", one(P, 1., 3, 2, 1., (2, 3, 5)[code % 3])
        keep = [i for i in range(6) if code >> i & 1]
        if len(keep) > 2:
            yield "octahedra", one(P[keep], .9, 3, 2, .9, 2)
        if tier == "thorough":
            for r, dim, p in ((.84, 3, 3), (1., 2, 7), (1.2, 3, 2),
                              (.78, 2, 2)):
                yield "octahedra", one(P, r, dim, 2, r, p)
    # square and apexes: every apex height on a scale
    for a in range(6):
        for b in range(a + 1):
            for r, dim in ((1.2, 3), (1.01, 2), (.93, 3)):
                z = [.45 + .1 * a, -.45 - .1 * b]
                X = [[0, .5, .5], [0, .5, -.5], [0, -.5, .5], [0, -.5, -.5],
                     [z[0], 0, 0], [z[1], 0, 0]]
                yield "square with apexes", one(X, r, dim, 2, r, 3 - (a + b)
                                                % 2)
    # cube with every set of vertices (up to the order of the axes)
    pts = list(itertools.product(range(2), repeat=3))
    seen = set()
    for code in range(1, 256):
        sub = [pts[i] for i in range(8) if code >> i & 1]
        key = min(tuple(sorted(tuple(q[a] for a in pr) for q in sub))
                  for pr in itertools.permutations(range(3)))
        if key in seen and tier == "quick":
            continue
        seen.add(key)
        yield "cube vertex sets", one(sub, 1.2, 2, 2, 1.2, 2)
        yield "cube vertex sets", one(sub, 1.5, 3, 2, 1.5, 3)
    # distorted 3x2x2 grids with few points removed
    G = [[TILT[0][a], TILT[1][b], TILT[2][c]] for a, b, c in
         itertools.product(range(3), range(2), range(2))]
    for k in range(0, 3 if tier == "quick" else 5):
        for out in itertools.combinations(range(12), k):
            X = [G[i] for i in range(12) if i not in out]
            yield "distorted 3x2x2 grid", one(
                X, 1.3 if sum(out) % 2 else 1.5, 2, 2, 1.5,
                2 + sum(out) % 3 % 2)


def cross_cases(tier):
    """4D clouds with nontrivial second and third differentials."""
    lev = (.53, .71)
    i = 0
    for code in range(64):
        rx = [lev[code >> k & 1] for k in range(6)]
        if tier == "quick" and not (rx[0] <= rx[1] and rx[2] <= rx[3]
                                    and rx[4] <= rx[5]):
            continue
        for dim, Z, r, p in ((3, 1.3, 1.01, 2), (2, 1.3, .97, 3),
                             (3, 1.5, 1.02, 5)):
            i += 1
            h = (.52, .54, .56)[i % 3]
            if tier == "quick" and i % 3 == 0 and i % 2:
                continue
            P = [[0, 0, 0, h], [0, 0, 0, -h]]
            for ax in range(3):
                for s in (0, 1):
                    v = [0.] * 4
                    v[ax] = (1, -1)[s] * rx[2 * ax + s]
                    v[(ax + 1) % 3] = .07 * (i % 2)
                    v[3] = (.11, -.06, 0)[(i + ax + s) % 3]
                    P.append(v)
            P += [[Z, Z, Z, 0], [-Z, -Z, -Z, 0]]
            yield "4D cross polytopes", one(P, r, dim, 2, r, p)


def jump_cases(tier):
    """Spheres over four quadrants whose class leaves column 2 at radius 2,
    when the poles z meet, and continues as a sum of local spheres in column 0
    (hollow quadrants) without passing through column 1."""
    b, c, a, P = 1.2, .8, 1.6, 4.
    i = 0
    for code in range(16):
        for order in ((0, 1, 2), (2, 0, 1)) if tier == "quick" else \
                itertools.permutations(range(3)):
            for flat in (0, 1):
                i += 1
                X = [[0, 0, 1], [0, 0, -1.03 if flat else -1]]
                X += [[a, 0, 0], [-a, 0, 0], [0, a, 0], [0, -a, 0]]
                for q, (s, t) in enumerate(itertools.product((1, -1),
                                                             repeat=2)):
                    if code >> q & 1:
                        X.append([s * b, t * b, 0])
                    else:
                        X += [[s * b, t * b, c], [s * b, t * b, -c]]
                X += [[P, 0, 0], [0, -P, 0], [-P, 0, 0], [0, P, 0]]
                X = np.array(X)[:, list(order)]
                if tier == "quick" and (i + code) % 2:
                    continue
                yield "spheres over four quadrants", one(
                    X, 2.1, 3, 2, 2.1, (2, 3, 5)[i % 3])


def helix_cases(tier):
    """Loops that wind several times around a cylinder which only closes at a
    larger radius: their bars depend on the prime.  Either all boxes cut the
    cylinder, or one box holds it, so that the loop is continued by a multiple
    of the class of the cylinder."""
    i = 0
    for turns, n, h, a in itertools.product((1, 2, 3), (6, 7), (1.2, 1.25),
                                            (1.05, 1.1)):
        i += 1
        if tier == "quick" and (turns + n + i) % 2:
            continue
        R = .5 / np.sin(np.pi / n)
        top = h * turns
        spiral = [[R * np.cos(2 * np.pi * k / n), R * np.sin(2 * np.pi * k /
                                                             n), h * k / n]
                  for k in range(turns * n + 1)]
        m = int(np.ceil(top))
        near = [[R + .7 * a, .7 * a, 0], [R + .7 * a, .7 * a, top]]
        near += [[R + a, 0, top * j / m] for j in range(m + 1)]
        far = [[R + .9, 0, 0], [R + .9, 0, top], [R + 1.7 + R + 1.7, .1, 0]]
        far += [[R + 1.8, 0, top * j / (m + 1)] for j in range(m + 2)]
        for p in (2, 3, 5):
            if tier == "quick" and (p == 5) != (i % 4 == 0) and turns < 3:
                if turns != p:
                    continue
            yield "helices", one(spiral + near, 1.5, 2, 2, 1.5, p)
            yield "helices", one(spiral + far, 1.6, 2, 2, 1.6, p)


def wide_cases(tier):
    for name in clouds.NAMES:
        X = clouds.get(name)
        if len(X) > 16 or X.shape[1] > 3:
            continue
        D = clouds.scale(X)
        if D == 0:
            D = 1.
        for f, dim, div, p in ((.35, 2, 2, 2), (.55, 2, 2, 3),
                               (.35, 1, 3, 5), (.45, 3, 2, 2)):
            if X.shape[1] == 3 and (div > 2 or (dim == 3 and len(X) > 9)):
                continue
            yield "named clouds", one(X, D * f, dim, div, D * f, p,
                                      kind=str(X.dtype.kind))
    # many divisions of an elongated cloud
    for n, div in ((12, 4), (16, 6), (20, 9)):
        for p in (2, 3):
            X = np.vstack([[[k, (.9, 0, .4)[k % 3]] for k in range(n)],
                           [[k, 1.7] for k in range(n) if k % 4]])
            yield "elongated clouds", one(X, 1.5, 2, div, 1.5, p)
            yield "elongated clouds", one(X, 1.3, 2, div, 1.9, p)
    # primes
    X = np.vstack([clouds.polygon(6, rot=.2), clouds.polygon(5, .4, .5)])
    for p in (2, 3, 5, 7, 11, 13, 17, 31, 61, 101, 211):
        yield "primes", one(X, 1.02, 2, 2, 1.02, p)
        yield "primes", one(clouds.octa(.505), 1., 3, 2, 1., p)
    # degenerate input and large overlaps
    for X in ([[3, 4]], [[3, 4], [3, 4]], [[0, 0, 0], [0, 0, 5]],
              [[1, 1]] * 4 + [[2, 1]], [[2, 3, 0], [2, 0, 2], [2, 2, 2]],
              [[0.], [7.]], [[5]]):
        for dim in (1, 2, 3):
            for div in (1, 2, 3):
                yield "degenerate clouds", one(X, 2.5, dim, div, 2.5, 2,
                                               kind="i")
    for ov in (1., 1.5, 2.5, 10.):
        for div in (1, 2, 3):
            yield "overlaps", one(clouds.polygon(8, rot=.1), .9, 2, div, ov,
                                  2)
            yield "overlaps", one(clouds.quasi(8, 2) * 2, .9, 2, div, ov, 3)


def fib_sphere(n, r=1.):
    k = np.arange(n) + .5
    z = 1 - 2 * k / n
    th = np.pi * (1 + 5 ** .5) * k
    s = np.sqrt(1 - z * z)
    return r * np.stack([s * np.cos(th), s * np.sin(th), z], axis=1)


def torus3(a, b):
    return np.array([[(2 + np.cos(v)) * np.cos(u), (2 + np.cos(v)) *
                      np.sin(u), np.sin(v)]
                     for u in 2 * np.pi * (np.arange(a) + .1) / a
                     for v in 2 * np.pi * (np.arange(b) + .3) / b])


def large_cases(tier):
    """Clouds of a realistic size."""
    for p in (2, 5):
        yield "large clouds", one(fib_sphere(42), .85, 3, 2, .85, p)
        yield "large clouds", one(fib_sphere(60), .6, 2, 2, .6, p)
        yield "large clouds", one(fib_sphere(60), .75, 3, 2, .75, 7 - p)
        yield "large clouds", one(torus3(9, 6), 1.45, 2, 2, 1.45, p)
        yield "large clouds", one(torus3(8, 5), 1.75, 3, 2, 1.75, 7 - p)
    ring = [[(3 + .35 * np.cos(5 * t)) * np.cos(t),
             (3 + .35 * np.cos(5 * t)) * np.sin(t)]
            for t in np.linspace(0, 2 * np.pi, 90, endpoint=False)]
    for div, p in ((3, 2), (5, 3), (6, 31)):
        yield "large clouds", one(ring, .5, 2, div, .5, p)
        yield "large clouds", one(clouds.quasi(80, 2) * 4, .75, 2, div, .75,
                                  p)
    yield "large clouds", one(clouds.quasi(44, 3) * 2.4, .95, 3, 2, .95, 3)
    # far from the origin, and very small or large
    X = np.vstack([clouds.polygon(7, rot=.2), clouds.polygon(5, .4, .5)])
    # exact translations; boxes get a margin for the rounding of corners
    Y = np.round(X * 128) / 128
    for e in (22, 25, 28, 33):
        yield "positions and scales", one(Y + 2. ** e, .95, 2, 2, .97, 3)
        yield "positions and scales", one(
            Y - np.array([2. ** e, 3.]), .95, 2, 3, .97, 2)
    for off in (0, 2. ** 10, -2. ** 16):
        for sc in (2. ** -20, 1., 2. ** 20):
            yield "positions and scales", one(
                (X + off) * sc, .95 * sc, 2, 2, .95 * sc, 3)
            yield "positions and scales", one(
                (fib_sphere(12) + off) * sc, 1.2 * sc, 3, 2, 1.2 * sc, 2)


FAMILIES = [large_cases, cross_cases, jump_cases, helix_cases, solid_cases, wide_cases,
            ring_cases, grid_cases, line_cases]


def cases(tier):
    for f in FAMILIES:
        for c in f(tier):
            yield c


def run(case, ctx):
    X = np.array(case["X"])
    if case.get("kind") != "i":
        X = X.astype(float)
    r, dim, div, ov, p = (case[k] for k in ("r", "dim", "div", "ov", "p"))
    ctx.state()
    w = dict(case)
    ref = ssrun.Reference(X, r, dim, p)
    ss = ssrun.compute(ctx, X, r, dim, div, ov, p)
    ref.compare(ctx, ss, w)
    for d, b in enumerate(ref.canon):
        if b:
            ctx.tag("clouds with homology in degree %d" % d)
    M = ss.page_dim_matrix
    for k in range(2, ss.no_pages):
        if np.any(M[k] != M[k + 1]):
            ctx.tag("page %d changed the ranks" % k)
    last = ss.no_pages
    for n_dim, col in enumerate(ss.extensions):
        for row in col:
            for i, blk in enumerate(row):
                if np.any(blk):
                    ctx.tag("nonzero extension over %d columns" % i)
                    if np.any((blk % p > 1) & (blk % p < p - 1)):
                        ctx.tag("extension by a multiple of a class")
    if np.any(M[last][:, 1:]):
        ctx.tag("classes spread over several regions")
    ctx.sample(w)
