"""C15: homology of chain complexes of persistence modules."""
import itertools
import numpy as np
from .. import fp, pmod, vr
from permaviss.persistence_algebra.barcode_bases import barcode_basis
from permaviss.persistence_algebra.module_persistence_homology import (
    module_persistence_homology)
from .c13 import multisets, matrices, compatible_positions, col, MORE

ID = "C15"
CHUNK = 2


def cases(tier):
    plan = [(2, 1, 1, 1), (2, 2, 1, 1), (2, 1, 2, 1), (2, 1, 1, 2),
            (3, 1, 1, 1), (3, 1, 2, 1), (5, 1, 1, 1), (2, 0, 1, 1),
            (2, 1, 0, 1), (2, 1, 1, 0), (2, 0, 2, 0), (2, 1, 2, 0),
            (2, 0, 2, 2), (2, 2, 0, 2), (2, 2, 2, 0), (3, 2, 2, 0),
            (2, 1, 2, 2), (2, 2, 2, 1)]
    if tier == "thorough":
        plan += [(2, 2, 2, 2), (3, 1, 2, 2), (3, 2, 2, 1), (5, 1, 2, 1)]
    for p, a, b, c in plan:
        for A in multisets(a):
            yield "complexes p=%d dims %d,%d,%d" % (p, a, b, c), dict(
                k="three", p=p, A=A, b=b, c=c)
    for B in itertools.combinations(MORE, 3):
        yield "complexes p=2 dims 1,3,1, radii 0..4", dict(
            k="mid", p=2, B=B, limit=12 if tier == "quick" else 100)
    # chain complexes of free type: filtered simplices tensored with bars
    for p in (2, 3, 5, 7, 11, 101):
        for n in (3, 4, 5, 6):
            for sh in range(6 if tier == "quick" else 30):
                yield "filtered simplices", dict(k="simplex", p=p, n=n, sh=sh)
    for e in (-60, -34, 30):
        for p in (2, 3, 11):
            for n in (3, 4, 5):
                for sh in range(4):
                    yield "scales", dict(k="simplex", p=p, n=n, sh=sh,
                                         sc=2. ** e)
    for p in (2, 3, 251):
        for n, sh in ((7, 1), (7, 2), (8, 1), (8, 4)):
            yield "large filtered simplices", dict(k="simplex", p=p, n=n,
                                                   sh=sh)


def zero_comp(A, B, C, G, F, p):
    for j, (b, d) in enumerate(A):
        v = [G[i][j] if B[i][0] <= b < B[i][1] else 0 for i in range(len(B))]
        for i, (x, y) in enumerate(C):
            if x <= b < y and sum(F[i][q] * v[q] for q in range(len(B))
                                  ) % p:
                return False
    return True


def make_basis(bars):
    if not len(bars):
        return barcode_basis([])
    return barcode_basis(np.array(bars, dtype=float))


def mat(F, rows, cols):
    if rows == 0 or cols == 0:
        return np.zeros((rows, cols))
    return np.array(F, dtype=float)


def verify(ctx, mods, maps, p):
    """mods[k]: bars in degree k; maps[k]: mods[k] -> mods[k-1]."""
    w = dict(modules=mods, maps=maps, p=p)
    L = len(mods)
    base = [make_basis(m) for m in mods]
    D = [0] + [mat(maps[k], len(mods[k - 1]), len(mods[k]))
               for k in range(1, L)]
    keep = [np.copy(x) for x in D[1:]]
    Hom, Im, Pre = ctx.call("module_persistence_homology",
                            module_persistence_homology, D, base, p)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(D[1:], keep)) and
              all(vr.bars_of(b) == [tuple(map(float, x)) for x in m]
                  for b, m in zip(base, mods)), "arguments modified", w)
    ctx.check(len(Hom) == len(Im) == len(Pre) == L, "levels", w)
    rad = pmod.crit(*mods)
    if not rad:
        return
    for k in range(L):
        Bk = mods[k]
        up = mods[k + 1] if k + 1 < L else []
        down = mods[k - 1] if k > 0 else []
        G = maps[k + 1] if k + 1 < L else [[] for _ in Bk]
        F = maps[k] if k > 0 else []
        want = pmod.homology_bars(up, Bk, down, G, F, p, rad)
        bars = vr.bars_of(Hom[k])
        ctx.equal(sorted(bars), want, "homology in degree %d" % k, w)
        if bars and len(bars) < len(Bk):
            ctx.tag("proper homology")
        wi = pmod.image_bars(up, Bk, G, p, rad) if up and Bk else []
        ib = vr.bars_of(Im[k])
        ctx.equal(sorted(ib), wi, "image in degree %d" % k, w)
        hc = col(Hom[k].coordinates, len(bars), len(Bk)) if bars else []
        ic = col(Im[k].coordinates, len(ib), len(Bk)) if ib else []
        if ib:
            pc = col(Pre[k + 1], len(ib), len(up))
            for j, (b, d) in enumerate(ib):
                v = fp.matvec(G, pc[j], p)
                ctx.check(all(v[i] == ic[j][i] % p
                              for i in pmod.active(Bk, b)),
                          "preimage in degree %d" % k, w)
        for r in rad[:-1]:
            a = pmod.active(Bk, r)
            au, ad = pmod.active(up, r), pmod.active(down, r)
            bd = fp.columns(fp.submat(G, a, au), range(len(au))) if a else []
            V = [[hc[j][i] for i in a] for j, (b, d) in enumerate(bars)
                 if b <= r < d]
            ctx.check(not V or fp.rank(bd + V, p) == fp.rank(bd, p) + len(V),
                      "classes of degree %d at %r are dependent" % (k, r), w)
            I = [[ic[j][i] for i in a] for j, (b, d) in enumerate(ib)
                 if b <= r < d]
            ctx.check(len(I) == fp.rank(bd, p) == fp.rank(bd + I, p) and
                      fp.rank(I, p) == len(I),
                      "image basis of degree %d at %r" % (k, r), w)
            if ad:
                Fr = fp.submat(F, ad, a)
                for v in V:
                    ctx.check(not any(fp.matvec(Fr, v, p)),
                              "class of degree %d is not a cycle at %r" % (
                                  k, r), w)
        for j, (b, d) in enumerate(bars):
            ctx.check(all(Bk[i][0] <= b for i in range(len(Bk))
                          if hc[j][i] % p), "class uses unborn generators",
                      w)
            a = pmod.active(Bk, d)
            if a:
                au = pmod.active(up, d)
                bd = fp.columns(fp.submat(G, a, au), range(len(au)))
                ctx.check(fp.in_span([hc[j][i] for i in a], bd, p),
                          "class survives its death in degree %d" % k, w)


def run(case, ctx):
    k, p = case["k"], case["p"]
    if k == "three":
        A = [tuple(x) for x in case["A"]]
        F = None
        for B in multisets(case["b"]):
            B = list(B)[::-1]
            Gs = list(matrices(A, B, p)) if A and B else [
                [[0] * len(A) for _ in B]]
            for C in multisets(case["c"]):
                C = list(C)
                for G in Gs:
                    for F in (matrices(B, C, p) if B and C else
                              [[[0] * len(B) for _ in C]]):
                        if not zero_comp(A, B, C, G, F, p):
                            continue
                        ctx.state()
                        verify(ctx, [C, B, A], [None, F, G], p)
        ctx.sample(dict(modules=[case["A"], case["b"], case["c"]], p=p))
    elif k == "mid":
        B = [tuple(x) for x in case["B"]]
        for a in MORE:
            for c in MORE:
                for G in matrices([a], B, p):
                    for F in matrices(B, [c], p):
                        if any(any(r) for r in G) and any(F[0]) and \
                                zero_comp([a], B, [c], G, F, p):
                            ctx.state()
                            verify(ctx, [[c], B, [a]], [None, F, G], p)
        ctx.sample(dict(B=B))
    else:
        # simplicial chains of the full simplex on n vertices, each simplex
        # s carrying the bar [birth(s), death(s)); births increase and
        # deaths do not decrease along cofaces, so the boundary is a map of
        # persistence modules as soon as compatible entries are kept
        n, sh = case["n"], case["sh"]
        top = min(n - 1, 3)
        lev = [list(itertools.combinations(range(n), d + 1))
               for d in range(top + 1)]

        def birth(s):
            return max([(7 * a + 3 * b + sh * (a + b)) % 5
                        for a, b in itertools.combinations(s, 2)] + [0]) + (
                            max((v * sh) % 2 for v in s))

        def death(s):
            return 9 + max((v * (sh + 1)) % 3 for v in s)
        if sh % 2:
            # no deaths: an ordinary filtration
            def death(s):     # noqa: F811
                return 12
        sc = case.get("sc", 1)
        mods = [[(birth(s) * sc, death(s) * sc) for s in lv] for lv in lev]
        maps = [None]
        for d in range(1, top + 1):
            pos = {s: i for i, s in enumerate(lev[d - 1])}
            M = [[0] * len(lev[d]) for _ in lev[d - 1]]
            for j, s in enumerate(lev[d]):
                for f, sg in vr.facets(s):
                    i = pos[f]
                    if pmod.compatible(mods[d][j], mods[d - 1][i]):
                        M[i][j] = sg % p
            maps.append(M)
        for d in range(2, top + 1):
            if not zero_comp(mods[d], mods[d - 1], mods[d - 2], maps[d],
                             maps[d - 1], p):
                return
        ctx.state()
        verify(ctx, mods, maps, p)
        ctx.tag("simplex complex")
        ctx.sample(dict(modules=mods, p=p))
