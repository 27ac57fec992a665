"""C12: classical persistent homology of filtered complexes."""
import itertools
import numpy as np
from .. import fp, vr, clouds
from permaviss.persistence_algebra.PH_classic import persistent_homology
from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips
from permaviss.simplicial_complexes.differentials import complex_differentials
from permaviss.spectral_sequence.MV_spectral_seq import (
    local_persistent_homology)
from .c11 import SURF, closure

ID = "C12"
CHUNK = 2


def cases(tier):
    for name in ("cycle", "cycle2", "line", "plane", "space"):
        for p in (2, 5, 251):
            yield "large complexes", dict(k="large", name=name, p=p)
    for n in (1, 2, 3):
        yield "all filtrations n=%d" % n, dict(
            k="metric", n=n, vals=[1, 2, 3, 9], a=0,
            b=4 ** (n * (n - 1) // 2), ps=[2, 3, 5], mds=[1, 2, 3])
    tot = 4 ** 6
    for a in range(0, tot, 64):
        yield "all filtrations n=4", dict(
            k="metric", n=4, vals=[1, 2, 3, 9], a=a, b=a + 64,
            ps=[2, 3] if tier == "quick" else [2, 3, 5, 7],
            mds=[2, 3] if tier == "quick" else [1, 2, 3])
    for a in range(0, 1024, 32):
        yield "all graphs n=5", dict(
            k="metric", n=5, vals=[1, 9], a=a, b=a + 32,
            ps=[3] if tier == "quick" else [2, 3, 5], mds=[3])
    if tier == "thorough":
        for a in range(0, 3 ** 10, 150):
            yield "all filtrations n=5", dict(
                k="metric", n=5, vals=[1, 2, 9], a=a, b=min(a + 150, 3 ** 10),
                ps=[2], mds=[3])
    for name in SURF:
        for order in range(8):
            for p in (2, 3, 5, 7, 11):
                yield "surfaces", dict(k="surf", name=name, order=order, p=p)
    for name in clouds.NAMES:
        for p in (2, 3, 5, 13):
            yield "point clouds", dict(k="cloud", name=name, p=p)
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 101, 211):
        for name in ("polygon8", "octahedron", "figure8", "square-apex",
                     "grid3x3", "quasi9-3D"):
            yield "primes", dict(k="cloud", name=name, p=p)


def large(name):
    """-> points, radius, dimension"""
    if name == "cycle":
        return clouds.polygon(70), 2.02 * np.sin(np.pi / 70), 1
    if name == "cycle2":
        X = clouds.polygon(40)
        X[::3] *= 1.02
        return X, .36, 2
    if name == "line":
        return np.arange(140.).reshape(-1, 1) ** 1.01, 1.2, 1
    if name == "plane":
        return clouds.quasi(40, 2), .26, 2
    return clouds.quasi(24, 3), .5, 3


def complexes_input(levels, radii, n, p):
    """Library style C, D, R from sorted levels (independent boundary)."""
    D = [n]
    R = [np.zeros(n)]
    for d, lv in enumerate(levels, start=1):
        rows = n if d == 1 else len(levels[d - 2])
        pos = {(v,): v for v in range(n)} if d == 1 else {
            s: i for i, s in enumerate(levels[d - 2])}
        M = np.zeros((rows, len(lv)))
        for j, s in enumerate(lv):
            for f, sg in vr.facets(s):
                M[pos[f], j] = sg % p
        D.append(M)
        R.append(np.array([radii[s] for s in lv], dtype=float))
    return D, R


def verify(ctx, D, R, max_r, p, simplex_order, w):
    """simplex_order[d]: list of simplices (tuples) in row order."""
    keep = [np.copy(x) for x in D[1:]], [np.copy(x) for x in R]
    Hom, Im, PreIm = ctx.call("persistent_homology", persistent_homology,
                              D, R, max_r, p)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(D[1:], keep[0])) and
              all(np.array_equal(a, b) for a, b in zip(R, keep[1])),
              "inputs were modified", w)
    dim = len(D)
    ctx.check(len(Hom) == len(Im) == len(PreIm) == dim, "levels", w)
    rad = {}
    for d in range(dim):
        for s, r in zip(simplex_order[d], R[d]):
            rad[s] = float(r)
    want = vr.persistence(rad, max_r, p, dim - 1)
    crit = sorted(set(rad.values()) | {float(max_r)})
    for d in range(dim):
        bars = vr.bars_of(Hom[d])
        ctx.equal(sorted(bars), want[d], "bars in degree %d" % d, w)
        keys = [(b, -e) for b, e in bars]
        ctx.check(keys == sorted(keys), "bars of degree %d are not in "
                  "standard order" % d, w)
        ctx.equal(int(Hom[d].dim), len(bars), "dim", w)
    bnd = [None] + [(_int(D[d]), len(simplex_order[d]))
                    for d in range(1, dim)]
    for d in range(dim):
        nd = len(simplex_order[d])
        bars = vr.bars_of(Hom[d])
        reps = _cols(Hom[d].coordinates, len(bars), nd)
        ib = vr.bars_of(Im[d])
        icol = _cols(Im[d].coordinates, len(ib), nd)
        # representatives are cycles, present from their birth on
        for j, (b, e) in enumerate(bars):
            v = [x % p for x in reps[j]]
            ctx.check(any(v), "zero representative", w)
            if d:
                ctx.check(not any(fp.matvec(bnd[d][0], v, p)),
                          "representative %d of degree %d is not a cycle" % (
                              j, d), w)
            ctx.check(all(R[d][i] <= b for i in range(nd) if v[i]),
                      "representative uses simplices born later", w)
        # image generators are the boundaries of their preimages
        if ib:
            pre = np.asarray(PreIm[d + 1])
            ctx.equal(pre.shape, (len(simplex_order[d + 1]), len(ib)),
                      "shape of preimages", w)
            pc = _cols(pre, len(ib), len(simplex_order[d + 1]))
            for j, (b, e) in enumerate(ib):
                ctx.equal(fp.matvec(bnd[d + 1][0], pc[j], p),
                          [x % p for x in icol[j]],
                          "boundary of a preimage in degree %d" % d, w)
                ctx.check(all(R[d + 1][i] <= b for i in range(len(pc[j]))
                              if pc[j][i] % p), "preimage uses later "
                          "simplices", w)
                ctx.check(e == max_r, "image bar does not end at max_r", w)
        else:
            ctx.equal(int(Im[d].dim), 0, "Im dim", w)
        # at every radius: Hom + Im is a basis of the cycles, Im of the
        # boundaries
        for r in crit[:-1]:
            act = [reps[j] for j, (b, e) in enumerate(bars) if b <= r < e]
            im = [icol[j] for j, (b, e) in enumerate(ib) if b <= r < e]
            if d + 1 < dim:
                cols = [k for k in range(len(simplex_order[d + 1]))
                        if R[d + 1][k] <= r]
                B = fp.columns(bnd[d + 1][0], cols) if nd else []
            else:
                B = []
            rk = fp.rank(B, p)
            ctx.equal(len(im), rk, "number of image generators at %r in "
                      "degree %d" % (r, d), w)
            ctx.check(fp.rank(im, p) == rk and fp.rank(im + B, p) == rk,
                      "image generators are not a basis of the boundaries",
                      w)
            ctx.check(fp.rank(B + act, p) == rk + len(act),
                      "representatives in degree %d at radius %r are "
                      "dependent in homology" % (d, r), w)
        for j, (b, e) in enumerate(bars):
            if e < max_r:
                cols = [k for k in range(len(simplex_order[d + 1]))
                        if R[d + 1][k] <= e]
                # at its death a class is a combination of older classes
                act = [reps[i] for i, (x, y) in enumerate(bars)
                       if x <= b and e < y and i != j]
                B = fp.columns(bnd[d + 1][0], cols)
                ctx.check(fp.in_span(reps[j], B + act, p),
                          "class %d of degree %d survives its death" % (
                              j, d), w)


def _int(M):
    return [[int(x) for x in r] for r in np.asarray(M).tolist()]


def _cols(M, k, n):
    if k == 0:
        return []
    M = np.asarray(M)
    if M.shape != (n, k):
        raise ValueError("shape %r instead of %r" % (M.shape, (n, k)))
    return [[int(x) for x in c] for c in M.T.tolist()]


def run(case, ctx):
    k = case["k"]
    if k == "metric":
        n, vals = case["n"], case["vals"]
        pairs = list(itertools.combinations(range(n), 2))
        for code in range(case["a"], case["b"]):
            D = np.zeros((n, n))
            c = code
            for i, j in pairs:
                D[i, j] = D[j, i] = vals[c % len(vals)]
                c //= len(vals)
            for md in case["mds"]:
                S = vr.rips(D, 4., md)
                # two admissible row orders: ties broken either way
                for rev in (False, True):
                    levels = []
                    for d in range(1, md + 1):
                        lv = sorted(s for s in S if len(s) == d + 1)
                        if rev:
                            lv = lv[::-1]
                        levels.append(sorted(lv, key=lambda s: S[s]))
                    for p in case["ps"]:
                        if rev and (n > 4 or (n == 4 and p > 2)):
                            continue
                        ctx.state()
                        DD, R = complexes_input(levels, S, n, p)
                        verify(ctx, DD, R, 4., p,
                               [[(v,) for v in range(n)]] + levels,
                               dict(D=D.tolist(), max_dim=md, p=p, rev=rev))
        ctx.sample(dict(D=D.tolist()))
    elif k == "surf":
        cpx = closure(SURF[case["name"]])
        n = 1 + max(v for s in cpx for v in s)
        o = case["order"]
        lev2 = [s for s in cpx if len(s) == 2]
        lev3 = [s for s in cpx if len(s) == 3]
        rad = {(v,): 0. for v in range(n)}
        for i, s in enumerate(lev2):
            rad[s] = 1. + ((i * (o + 1)) % (o + 2))
        for i, s in enumerate(lev3):
            rad[s] = max(rad[f] for f, _ in vr.facets(s)) + (
                (i * 3 * o) % 4) * .5
        max_r = 20.
        levels = [sorted(lev2, key=lambda s: rad[s]),
                  sorted(lev3, key=lambda s: rad[s])]
        ctx.state()
        DD, R = complexes_input(levels, rad, n, case["p"])
        verify(ctx, DD, R, max_r, case["p"],
               [[(v,) for v in range(n)]] + levels, dict(case))
        ctx.sample(case)
    elif k == "large":
        X, max_r, md = large(case["name"])
        p, n = case["p"], len(X)
        S = vr.rips(vr.dist_matrix(X), max_r, md)
        levels = [sorted((s for s in S if len(s) == d + 1),
                         key=lambda s: S[s]) for d in range(1, md + 1)]
        ctx.state()
        DD, R = complexes_input(levels, S, n, p)
        verify(ctx, DD, R, max_r, p, [[(v,) for v in range(n)]] + levels,
               dict(case))
        ctx.sample(dict(case, sizes=[len(lv) for lv in levels]))
    else:
        X = clouds.get(case["name"])
        if len(X) > 12:
            X = X[:12]
        p = case["p"]
        D = vr.dist_matrix(X)
        vals = sorted(set(D[np.triu_indices(len(D), 1)].tolist()))
        for q in (.4, .7, 1.):
            max_r = (vals[int((len(vals) - 1) * q)] if vals else 1.) * 1.01
            if max_r == 0:
                max_r = 1.
            for md in (1, 2, 3):
                S = vr.rips(D, max_r, md)
                if len(S) > 300:
                    continue
                ctx.state()
                out = ctx.call("local_persistent_homology",
                               local_persistent_homology, [[X]], max_r, md,
                               p, 0, 0)
                C = out[0]
                order = [[(v,) for v in range(len(X))]] + [
                    [tuple(int(v) for v in s) for s in
                     np.asarray(C[d]).tolist()] for d in range(1, md + 1)]
                ctx.check(all(s in S for lv in order for s in lv) and
                          sum(map(len, order)) == len(S),
                          "complex differs", dict(case))
                C2, R2 = vietoris_rips(D, max_r, md)
                D2 = complex_differentials(C2, p)
                order2 = [[(v,) for v in range(len(X))]] + [
                    [tuple(int(v) for v in s) for s in
                     np.asarray(C2[d]).tolist()] for d in range(1, md + 1)]
                verify(ctx, D2, R2, max_r, p, order2,
                       dict(case, max_r=max_r, max_dim=md))
                want = vr.persistence(S, max_r, p, md)
                cl = vr.Clusters(list(S.values()) + [max_r])
                for d in range(md + 1):
                    ctx.equal(cl.canon(vr.bars_of(out[2][d])),
                              cl.canon(want[d]),
                              "local persistent homology degree %d" % d,
                              dict(case, max_r=max_r, max_dim=md))
        ctx.sample(dict(case, points=len(X)))
