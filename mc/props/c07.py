"""C07: the barcode is an invariant of the metric space."""
import itertools
import numpy as np
from .. import clouds, ssrun, vr

ID = "C07"
CHUNK = 1

SMALL = [
    ("square", [[0., 0], [1, 0], [1, 1], [0, 1]], 1.2, 2),
    ("pentagon", clouds.polygon(5, rot=.2).tolist(), 1.3, 2),
    ("kite", [[0., 0], [1, .3], [.4, 1.1], [1.5, 1.4], [2., .2]], 1.25, 2),
    ("line", [[0.], [1], [1], [2.5], [4]], 1.7, 2),
    ("flat", [[0., 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1], [.4, .5, 1]], 1.1,
     2),
    ("two", [[0., 0], [.5, 0], [3, 0], [3, .6], [1.7, .2]], 1.35, 2),
]
LARGE = [
    ("hexagon", clouds.polygon(6, rot=.3).tolist(), 1.825, 3),
    ("octagon", clouds.polygon(8, rot=.1).tolist(), .9, 2),
    ("octahedron", clouds.octa(.505).tolist(), 1., 3),
    ("apex", clouds.get("square-apex").tolist(), 1.2, 2),
    ("grid", clouds.grid(3, 3).tolist(), 1.2, 2),
    ("quasi", (clouds.quasi(10, 2) * 2).tolist(), .8, 2),
    ("cube", (clouds.grid(2, 2, 2)[:5] * [1., 1.1, 1.2]).tolist(), 1.15, 2),
    ("rings", np.vstack([clouds.polygon(6, rot=.2),
                         clouds.polygon(6, cx=2.3)]).tolist(), 1.1, 2),
]
HUGE = [
    ("spread", (clouds.quasi(26, 2) * 4).tolist(), .93, 2),
    ("ring16", clouds.polygon(16, rot=.05).tolist(), .55, 2),
    ("ellipse", (clouds.polygon(18, rot=.07) * [3., 1.]).tolist(), 1.15, 2),
    ("slab", (clouds.quasi(16, 3) * [3., 1.4, .2]).tolist(), .9, 2),
    ("long line", [[i + .03 * (i * i % 7)] for i in range(24)], 2.45, 3),
]
BIG = set(c[0] for c in HUGE)
ALL = {c[0]: c for c in SMALL + LARGE + HUGE}


def moves(n, d):
    """(name, function on clouds) for rigid motions of the box axes."""
    out = []
    for pr in itertools.permutations(range(d)):
        for sg in itertools.product((1, -1), repeat=d):
            out.append(("axes %r signs %r" % (pr, sg),
                        lambda X, pr=pr, sg=sg: X[:, list(pr)] * np.array(
                            sg, dtype=float)))
    for t in (64., -256., .5, 2. ** 20):
        out.append(("translation by %g" % t, lambda X, t=t: X + t))
    return out


def reorders(n):
    yield list(range(n))[::-1]
    for k in range(1, n):
        yield list(range(k, n)) + list(range(k))
    for i, j in itertools.combinations(range(n), 2):
        q = list(range(n))
        q[i], q[j] = q[j], q[i]
        yield q


def cases(tier):
    for name, X, r, dim in SMALL:
        n = len(X)
        perms = list(itertools.permutations(range(n)))
        for k in range(0, len(perms), 12):
            yield "all point orders", dict(k="perm", c=name,
                                           ps=perms[k:k + 12], p=3)
    for name, X, r, dim in LARGE:
        ps = list(reorders(len(X)))
        if tier == "quick":
            ps = ps[::3] if dim < 3 and len(X[0]) < 3 else ps[::6]
        for k in range(0, len(ps), 5):
            yield "rotations and transpositions of the point order", dict(
                k="perm", c=name, ps=ps[k:k + 5], p=2 + len(X) % 2)
    for name, X, r, dim in HUGE:
        n = len(X)
        ps = [list(range(n))[::-1], [7 * i % n for i in range(n)]
              if n % 7 else [5 * i % n for i in range(n)],
              sorted(range(n), key=lambda i: (X[i][-1], i)),
              sorted(range(n), key=lambda i: (i % 3, i))]
        yield "orders of large clouds", dict(k="perm", c=name, ps=ps, p=5)
    for name in ALL:
        for p in (2, 3) if name not in BIG else (3,):
            yield "rigid motions", dict(k="move", c=name, p=p,
                                        step=1 if tier == "thorough" else 4)
            yield "dyadic scaling", dict(k="scale", c=name, p=p)
            for div in (1, 2, 3, 4) + ((5, 7, 12) if name in BIG else ()):
                yield "choice of the cover", dict(k="cover", c=name, p=p,
                                                  div=div)
            yield "parameters", dict(k="par", c=name, p=p)


def run(case, ctx):
    name, X, r, dim = ALL[case["c"]]
    X = np.array(X, dtype=float)
    p = case["p"]
    D = vr.dist_matrix(X)
    cl = vr.Clusters(list(D.ravel()) + [0., r])

    def canon(ss, f=1., upto=None):
        return [cl.canon([(b / f, d / f) for b, d in bars])
                for bars in ssrun.barcodes(ss)[:upto]]
    base = canon(ssrun.compute(ctx, X, r, dim, 2, r, p))
    w = dict(case)

    def same(got, what, want=None):
        ctx.state()
        ctx.step()
        want = base if want is None else want
        if got != want:
            ctx.fail("barcode of %s changes under %s: %r, before %r" % (
                name, what, [cl.pretty(b) for b in got],
                [cl.pretty(b) for b in want]), w)
    k = case["k"]
    if k == "perm":
        for q in case["ps"]:
            Y = X[list(q)]
            same(canon(ssrun.compute(ctx, Y, r, dim, 2, r, p)),
                 "the point order %r" % (q,))
    elif k == "move":
        mv = moves(len(X), X.shape[1])
        if X.shape[1] == 3:
            mv = mv[::case["step"]] + mv[-4:]
        for what, f in mv:
            same(canon(ssrun.compute(ctx, f(X), r, dim, 2, r, p)), what)
        # far translations without any rounding
        Y = np.round(X * 128) / 128
        cl = vr.Clusters(list(vr.dist_matrix(Y).ravel()) + [0., r])
        # corners of boxes are rounded, so leave a margin
        ov = r * 1.01
        want = canon(ssrun.compute(ctx, Y, r, dim, 2, ov, p))
        for e, sg in ((22, 1), (24, -1), (27, 1), (31, -1), (38, 1)):
            Z = Y + sg * 2. ** e
            assert np.array_equal(Z - sg * 2. ** e, Y)
            same(canon(ssrun.compute(ctx, Z, r, dim, 2, ov, p)),
                 "translation by %d 2^%d" % (sg, e), want)
        t = 2. ** 26 * np.arange(X.shape[1])
        same(canon(ssrun.compute(ctx, Y - t, r, dim, 2, ov, p)),
             "different translations of the axes", want)
    elif k == "scale":
        for e in (-80, -34, -20, -3, 1, 6, 20, 34, 80):
            f = 2. ** e
            same(canon(ssrun.compute(ctx, X * f, r * f, dim, 2, r * f, p),
                       f), "scaling by 2^%d" % e)
    elif k == "cover":
        div = case["div"]
        if X.shape[1] == 3 and div > 2 and name != "flat":
            return
        ovs = (1., 1.03) if X.shape[1] == 3 or div > 4 else (
            (1., 1.03, 1.4) if name in BIG else (1., 1.03, 1.5, 3., 40.))
        for ov in ovs:
            same(canon(ssrun.compute(ctx, X, r, dim, div, r * ov, p)),
                 "max_div=%d, overlap=%g max_r" % (div, ov))
    else:
        # degrees below do not depend on the dimension bound
        for dm in range(1, dim):
            same(canon(ssrun.compute(ctx, X, r, dm, 2, r, p)),
                 "max_dim=%d" % dm, base[:dm])
        # a smaller maximal radius truncates the barcode
        vals = sorted(set(float(x) for x in D.ravel() if 0 < x < r))
        cuts = [(a + b) / 2 for a, b in zip(vals, vals[1:])
                if b - a > 1e-6][::2][:5]
        full = ssrun.barcodes(ssrun.compute(ctx, X, r, dim, 2, r, p))
        for c in cuts:
            cl2 = vr.Clusters(list(D.ravel()) + [0., r, c])
            want = [cl2.canon([(b, min(d, c)) for b, d in bars if b < c])
                    for bars in full]
            got = [cl2.canon(bars) for bars in ssrun.barcodes(
                ssrun.compute(ctx, X, c, dim, 2, c, p))]
            ctx.state()
            ctx.equal(got, want, "barcode at max_r=%g is not the truncation "
                      "of the one at %g" % (c, r), w)
    ctx.sample({q: v for q, v in case.items() if q != "ps"})
