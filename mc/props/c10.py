"""C10: Vietoris-Rips complexes."""
import itertools
import numpy as np
from .. import vr, clouds
from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips

ID = "C10"


def cases(tier):
    for n in (0, 1, 2, 3):
        yield "all metrics n=%d" % n, dict(
            k="metric", n=n, vals=[0, 1, 2.5, 3, 4], a=0,
            b=5 ** (n * (n - 1) // 2))
    tot = 4 ** 6
    for a in range(0, tot, 128):
        yield "all metrics n=4", dict(k="metric", n=4, vals=[0, 1, 2, 3],
                                      a=a, b=a + 128)
    tot = 2 ** 10
    for a in range(0, tot, 64):
        yield "all graphs n=5", dict(k="metric", n=5, vals=[1, 2], a=a,
                                     b=a + 64)
    if tier == "thorough":
        for a in range(0, 3 ** 10, 200):
            yield "all metrics n=5", dict(k="metric", n=5, vals=[1, 2, 3],
                                          a=a, b=min(a + 200, 3 ** 10))
        for a in range(0, 2 ** 15, 200):
            yield "all graphs n=6", dict(k="metric", n=6, vals=[1, 2], a=a,
                                         b=min(a + 200, 2 ** 15))
    for n in range(6, 10):
        for sh in range(6):
            yield "structured metrics", dict(k="struct", n=n, sh=sh)
    for n in (40, 130, 260, 300):
        for sh in (1, 7, 11):
            yield "many points", dict(k="many", n=n, sh=sh)
    for n in (9, 10):
        yield "full simplices", dict(k="deep", n=n)
    for name in clouds.NAMES:
        yield "point clouds", dict(k="cloud", name=name)


def verify(ctx, D, max_r, max_dim, w):
    n = len(D)
    keep = np.copy(D)
    if n > 30:
        # sparse reference: cliques of the neighbourhood graph
        e = [(i, j) for i in range(n) for j in range(i + 1, n)
             if D[i][j] <= max_r]
        fast = {s: max([float(D[a][b]) for a in s for b in s])
                for lv in vr.cliques(n, e, max(1, max_dim)) for s in lv}
    else:
        fast = None
    out = ctx.call("vietoris_rips", vietoris_rips, D, max_r, max_dim)
    ctx.check(np.array_equal(D, keep), "distances modified", w)
    C, R = out
    top = max(1, max_dim)
    want = fast or vr.rips(D, max_r, top)
    ctx.equal((len(C), len(R)), (top + 1, top + 1), "number of levels", w)
    ctx.equal(int(C[0]), n, "number of vertices", w)
    ctx.equal([float(x) for x in R[0]], [0.] * n, "vertex radii", w)
    for d in range(1, top + 1):
        rows = [tuple(int(v) for v in s) for s in np.asarray(C[d]).tolist()]
        radii = [float(x) for x in R[d]]
        ctx.equal(len(radii), len(rows), "radii of dimension %d" % d, w)
        ctx.check(all(a <= b for a, b in zip(radii, radii[1:])),
                  "radii of dimension %d are not ascending" % d, w)
        ctx.equal(sorted(rows), sorted(s for s in want if len(s) == d + 1),
                  "simplices of dimension %d" % d, w)
        for s, r in zip(rows, radii):
            ctx.check(r == want[s], "radius of %r is %r instead of %r" % (
                s, r, want[s]), w)


def run(case, ctx):
    k = case["k"]
    if k == "metric":
        n, vals = case["n"], case["vals"]
        pairs = list(itertools.combinations(range(n), 2))
        for code in range(case["a"], case["b"]):
            D = np.zeros((n, n))
            c = code
            for i, j in pairs:
                D[i, j] = D[j, i] = vals[c % len(vals)]
                c //= len(vals)
            if n == 0:
                D = []
            rs = sorted(set(vals)) if n < 4 else sorted(set(vals))[1:]
            rs = rs + [rs[-1] + .5]
            for max_r in (rs if n < 5 else rs[:1] + rs[-1:]):
                if max_r == 0:
                    continue
                for md in ((0, 1, 2, 3, 4) if n < 4 else
                           (3,) if n == 4 else (2, 4)):
                    ctx.state()
                    verify(ctx, D, max_r, md,
                           dict(D=np.asarray(D).tolist(), max_r=max_r,
                                max_dim=md))
        ctx.sample(dict(D=np.asarray(D).tolist()))
    elif k == "many":
        n, sh = case["n"], case["sh"]
        while np.gcd(n, sh) > 1:
            sh += 1
        X = np.array([[np.cos(2 * np.pi * (i * sh % n) / n),
                       1.01 * np.sin(2 * np.pi * (i * sh % n) / n)]
                      for i in range(n)]) * n / (2 * np.pi)
        D = vr.dist_matrix(X)
        for max_r, md in ((1.5, 2), (3.1, 2), (2.1, 3)):
            ctx.state()
            verify(ctx, D, max_r, md, dict(case, max_r=max_r, max_dim=md))
        ctx.sample(dict(case))
    elif k == "deep":
        n = case["n"]
        D = np.array([[0. if i == j else 1 + ((i * j + i + j) % 11) / 8.
                       for i in range(n)] for j in range(n)])
        ctx.state()
        verify(ctx, D, 3., n, dict(case))
    elif k == "struct":
        n, sh = case["n"], case["sh"]
        D = np.zeros((n, n))
        for i, j in itertools.combinations(range(n), 2):
            D[i, j] = D[j, i] = 1 + ((i * j + sh * (i + j)) % 7) / 3.
        for max_r in (1.01, 1.5, 2., 2.4, 3.5):
            for md in (1, 2, 3, 5):
                ctx.state()
                verify(ctx, D, max_r, md, dict(n=n, sh=sh, max_r=max_r,
                                               max_dim=md))
        ctx.sample(dict(n=n, sh=sh))
    else:
        X = clouds.get(case["name"])
        D = vr.dist_matrix(X)
        if len(X) > 14:
            return
        vals = sorted(set(D[np.triu_indices(len(D), 1)].tolist()))
        for max_r in [vals[len(vals) // 2], vals[-1], vals[-1] * 1.5] \
                if vals else [1.]:
            if max_r == 0:
                continue
            for md in (1, 2, 3):
                if md == 3 and len(X) > 9:
                    continue
                ctx.state()
                verify(ctx, D, max_r, md, dict(cloud=case["name"],
                                               max_r=max_r, max_dim=md))
        ctx.sample(dict(cloud=case["name"], points=len(X)))
