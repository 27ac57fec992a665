"""C08: cubical covers of point clouds."""
import itertools
import math
import numpy as np
from .. import vr, clouds
from permaviss.covers.cubical_cover import (
    generate_cover, corners_hypercube, intersection_covers)

ID = "C08"
CHUNK = 4
TOL = 1e-9


def cases(tier):
    # every multiset of positions on a line
    for n in range(1, 5):
        for X in itertools.combinations_with_replacement(range(5), n):
            yield "1D multisets", dict(X=[[x] for x in X], typ="both",
                                       divs=[1, 2, 3, 4, 5],
                                       ovs=[.5, 1, 2.5])
    # every subset of a 3x3 grid (by code) and of a 2x2x2 grid
    for a in range(1, 512, 8):
        yield "2D grid subsets", dict(code=[a, min(512, a + 8)], grid=[3, 3],
                                      divs=[1, 2, 3], ovs=[.4, 1, 1.5])
    for a in range(1, 256, 4):
        yield "3D grid subsets", dict(
            code=[a, min(256, a + 4)], grid=[2, 2, 2],
            divs=[1, 2] if tier == "quick" else [1, 2, 3], ovs=[.3, 1])
    for name in clouds.NAMES:
        X = clouds.get(name)
        d = X.shape[1]
        divs = [1, 2, 3, 4, 5, 7] if d < 3 else [1, 2] if d == 3 else [1]
        yield "named clouds", dict(name=name, divs=divs,
                                   ovs=[.01, .1, .37, .8, 1.5, 3.])
    for dim in (1, 2, 3):
        for sh in range(6):
            for sc in (1, 1e-4, 1e3):
                for off in (0, -7.3, 100.):
                    yield "generic clouds", dict(
                        quasi=[12, dim, sh, sc, off],
                        divs=[2, 3, 5] if dim < 3 else [2],
                        ovs=[.05, .3, .7])
    # many points, many regions, many dimensions
    for n, dim, div, ov in ((300, 1, 70, .004), (260, 1, 9, .03),
                            (280, 2, 11, .02), (150, 2, 6, .05),
                            (140, 3, 3, .05), (90, 3, 3, .1)):
        for off in (0, 1024.):
            yield "large clouds", dict(quasi=[n, dim, 1, 1, off],
                                       divs=[div], ovs=[ov])
    for w4 in ((1., 1., .3, .3), (.4, 1., .4, .9), (1., .7, .8, .2)):
        yield "4D clouds", dict(quasi4=[60, w4], divs=[1, 2], ovs=[.05, .2])
    # elongated clouds: different number of divisions per dimension
    for a, b in itertools.product((.3, .5, .9, 1., 1.7, 2.6), repeat=2):
        yield "elongated", dict(quasi2=[10, a, b], divs=[1, 2, 3, 4, 6],
                                ovs=[.1, .45])
    for ab in itertools.product((.2, .6, 1.), repeat=3):
        yield "elongated 3D", dict(quasi3=[9] + list(ab), divs=[1, 2],
                                   ovs=[.1, .45])


def build(case):
    if "X" in case:
        yield np.array(case["X"], dtype=float)
        yield np.array(case["X"], dtype=int)
        yield np.array(case["X"], dtype=float) * .1
    elif "code" in case:
        cells = clouds.grid(*case["grid"])
        for c in range(*case["code"]):
            X = cells[[i for i in range(len(cells)) if c >> i & 1]]
            yield X
            yield X.astype(int)
    elif "name" in case:
        yield clouds.get(case["name"])
    elif "quasi" in case:
        n, d, sh, sc, off = case["quasi"]
        yield clouds.quasi(n, d, sh) * sc + off * sc
    elif "quasi4" in case:
        n, wd = case["quasi4"]
        yield clouds.quasi(n, 4) * np.array(wd)
    elif "quasi2" in case:
        n, a, b = case["quasi2"]
        yield clouds.quasi(n, 2) * np.array([a, b])
    else:
        n, a, b, c = case["quasi3"]
        yield clouds.quasi(n, 3) * np.array([a, b, c])


def maximal_close_sets(X, overlap):
    """Maximal sets of sup-norm diameter <= overlap (with a margin)."""
    n = len(X)
    near = [[float(np.max(np.abs(X[i] - X[j]))) for j in range(n)]
            for i in range(n)]
    scale = float(np.max(np.abs(X))) + 1e-300
    lim = overlap - TOL * scale
    # sets of small sup-diameter: intersections of half-open windows; in sup
    # norm pairwise closeness is enough, so enumerate maximal cliques
    adj = [set(j for j in range(n) if j != i and near[i][j] <= lim)
           for i in range(n)]
    out = []

    def bk(R, P, S):
        if not P and not S:
            out.append(sorted(R))
            return
        piv = max(P | S, key=lambda v: len(adj[v] & P))
        for v in list(P - adj[piv]):
            bk(R | {v}, P & adj[v], S & adj[v])
            P = P - {v}
            S = S | {v}
    bk(set(), set(range(n)), set())
    return out


def verify(ctx, X, max_div, overlap, w):
    keep = X.copy()
    pc, IN, nerve = ctx.call("generate_cover", generate_cover, max_div,
                             overlap, X)
    ctx.check(np.array_equal(X, keep), "the point cloud was modified", w)
    n, dim = X.shape
    F = np.asarray(X, dtype=float)
    lo, hi = F.min(axis=0), F.max(axis=0)
    ext = hi - lo
    L = float(ext.max())
    scale = max(float(np.abs(F).max()), L, overlap, 1e-300)
    tol = TOL * scale
    mn, mx = ctx.call("corners_hypercube", corners_hypercube, X)
    ctx.check(np.array_equal(np.asarray(mn, dtype=float), lo) and
              np.array_equal(np.asarray(mx, dtype=float), hi),
              "corners of the cloud", w)
    m = int(nerve[0])
    ctx.equal((len(pc[0]), len(IN[0])), (m, m), "number of regions", w)
    regions = [[int(i) for i in r] for r in IN[0]]
    # 1. the regions form a grid of boxes with side + overlap
    side = L / max_div
    div = []
    for d in range(dim):
        if ext[d] <= 0:
            div.append((1, 1))
        else:
            q = ext[d] / side
            div.append((max(1, math.ceil(q - 1e-6)),
                        max(1, math.ceil(q + 1e-6))))
    options = set(itertools.product(*[sorted(set(x)) for x in div]))
    shape = [s for s in options if int(np.prod(s)) == m]
    ctx.check(bool(shape), "%d regions, expected a grid of %r" % (
        m, sorted(options)), w)
    good = False
    msg = ""
    for s in shape:
        cells = list(itertools.product(*[range(x) for x in s]))
        bad = None
        for r, cell in zip(regions, cells):
            for i in range(n):
                depth = min(min(F[i][d] - (lo[d] + cell[d] * side -
                                           overlap / 2.),
                                lo[d] + (cell[d] + 1) * side + overlap / 2. -
                                F[i][d]) for d in range(dim))
                if depth > tol and i not in r:
                    bad = "point %d missing from region %r" % (i, cell)
                if depth < -tol and i in r:
                    bad = "point %d should not be in region %r" % (i, cell)
        if bad is None:
            edges = [(i, j) for i, j in itertools.combinations(range(m), 2)
                     if max(abs(a - b) for a, b in
                            zip(cells[i], cells[j])) <= 1]
            want = vr.cliques(m, edges, len(nerve) - 1)
            ok = True
            for d in range(1, len(nerve)):
                got = sorted(tuple(int(v) for v in t)
                             for t in np.asarray(nerve[d]).tolist())
                if got != sorted(want[d]):
                    ok = False
                    msg = "nerve differs from the grid in dimension %d" % d
            good = good or ok
        else:
            msg = bad
    ctx.check(good, msg, w)
    # 2. every point is covered, close points share a region
    covered = set(i for r in regions for i in r)
    ctx.check(covered == set(range(n)), "points %r are not covered" % sorted(
        set(range(n)) - covered), w)
    for s in maximal_close_sets(F, overlap):
        ctx.check(any(set(s) <= set(r) for r in regions),
                  "points %r are within the overlap but share no region" % (
                      s,), w)
    # 3. intersections and coordinates
    ctx.equal((len(pc), len(IN)), (len(nerve), len(nerve)), "levels", w)
    for d in range(len(nerve)):
        k = m if d == 0 else len(nerve[d])
        ctx.equal((len(IN[d]), len(pc[d])), (k, k),
                  "entries of level %d" % d, w)
        for t in range(k):
            ids = [int(i) for i in IN[d][t]]
            ctx.check(ids == sorted(set(ids)), "repeated identifiers", w)
            if d:
                spx = [int(v) for v in nerve[d][t]]
                want = sorted(set.intersection(
                    *[set(regions[v]) for v in spx]))
                ctx.equal(ids, want, "points over the nerve simplex %r" % (
                    spx,), w)
                if d < 3:
                    got = ctx.call("intersection_covers",
                                   intersection_covers, IN[0], nerve[d][t])
                    ctx.equal(sorted(int(i) for i in got), want,
                              "intersection_covers %r" % (spx,), w)
            P = np.asarray(pc[d][t], dtype=float)
            ctx.equal(len(P), len(ids), "coordinates listed", w)
            if ids:
                ctx.check(P.shape == (len(ids), dim) and
                          np.array_equal(P, F[ids]),
                          "coordinates do not belong to the identifiers", w)


def run(case, ctx):
    for X in build(case):
        sc = float(np.max(np.asarray(X, dtype=float).max(axis=0) -
                          np.asarray(X, dtype=float).min(axis=0)))
        rel = "quasi" in case or "quasi2" in case or "quasi3" in case
        for div in case["divs"]:
            for ov in case["ovs"]:
                o = ov * sc if rel else ov
                ctx.state()
                verify(ctx, X, div, o, dict(X=np.asarray(X).tolist(),
                                            max_div=div, overlap=o))
    ctx.sample(dict(X=np.asarray(X).tolist(), max_div=div, overlap=o))
