"""Cases shared by the spectral sequence properties C02, C03 and C04."""
import itertools
import numpy as np
from .. import clouds, gencov, ssrun, total
from . import c01


def cubical(tier):
    """A cross section of the C01 clouds, small enough for the model."""
    for f, step in ((c01.solid_cases, 3), (c01.ring_cases, 4),
                    (c01.grid_cases, 17), (c01.line_cases, 29),
                    (c01.wide_cases, 3), (c01.cross_cases, 9),
                    (c01.jump_cases, 8), (c01.helix_cases, 5),
                    (c01.large_cases, 3)):
        if tier == "thorough":
            step = max(1, step // 3)
        fam = {}
        for name, c in f("quick"):
            i = fam[name] = fam.get(name, -1) + 1
            if i % step == 0:
                c = dict(c)
                c["kind2"] = "cubical"
                yield name, c


def levels(kind, i, edge, lev):
    """Deterministic edge levels 1..lev."""
    u, v = edge
    if kind == 0:
        return 1
    a = len(u) + 2 * len(v) if not isinstance(u, str) else len(v)
    b = sum(v) if not isinstance(v, str) else 0
    c = 1 if u == "b" else 0
    return 1 + (a * (kind + 1) + b * kind + c * (kind % 3) + i * kind) % lev


def general(tier):
    """Cone systems on 3 and 4 regions with every set of cones removed."""
    for m, most in ((3, 6), (4, 3 if tier == "quick" else 5)):
        names, reg, edges = gencov.cone_system(m)
        free = [v for v in names[2:]]
        subs = [s for k in range(0, most + 1)
                for s in itertools.combinations(free, k)]
        for i, out in enumerate(gencov.orbits(m, names, subs)):
            for kind in ((0, 1, 2, 3) if m == 3 or tier == "thorough"
                         else (1 + i % 3,)):
                for p in ((2, 3) if m == 3 else ((2, 3, 5)[i % 3],)):
                    yield "cone systems on %d regions" % m, dict(
                        kind2="cone", m=m, out=[list(v) for v in out],
                        lv=kind, p=p, dim=m - 1)


def windings(tier):
    """Bars that depend on the prime: windings, projective planes."""
    for n in (4, 5, 6):
        for turns in (1, 2, 3, 4):
            for p in (2, 3, 5, 7):
                if tier == "quick" and (n + turns + p) % 3 and turns != p:
                    continue
                yield "windings around a cylinder", dict(
                    kind2="wind", n=n, turns=turns, p=p, dim=2)
    for i, groups in enumerate((["1", "23", "456"], ["12", "34", "56"],
                                ["123", "456"], ["1", "2", "3456"],
                                ["1", "26", "3", "45"])):
        for lv in (0, 1, 2, 3):
            for p in (2, 3):
                if tier == "quick" and (i + lv + p) % 3:
                    continue
                yield "projective planes", dict(
                    kind2="proj", groups=groups, lv=lv, p=p, dim=2)


def membership(tier):
    """Every membership of 4 points in 3 regions, every order of births."""
    sets = [s for k in (1, 2, 3) for s in itertools.combinations(range(3), k)]
    n = 4
    for mem in itertools.combinations_with_replacement(sets, n):
        if set(x for s in mem for x in s) != {0, 1, 2}:
            continue
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)
                 if set(mem[i]) & set(mem[j])]
        for code in range(2 ** len(pairs)):
            ed = [e for k, e in enumerate(pairs) if code >> k & 1]
            if len(ed) < 3:
                continue
            if tier == "quick" and (code + len(ed)) % 4:
                continue
            yield "memberships of 4 points in 3 regions", dict(
                kind2="mem", mem=[list(s) for s in mem],
                ed=ed, p=2 + code % 2, dim=2)


def cases(tier):
    for g in (general, cubical, windings, membership):
        for c in g(tier):
            yield c


def prepare(case):
    """-> X, r, dim, p, cover or None, div, ov"""
    k = case["kind2"]
    if k == "cubical":
        X = np.array(case["X"])
        if case.get("kind") != "i":
            X = X.astype(float)
        return X, case["r"], case["dim"], case["p"], None, case["div"], \
            case["ov"]
    if k == "cone":
        names, reg, edges = gencov.cone_system(case["m"])
        out = set(tuple(v) for v in case["out"])
        keep = [v for v in names if v not in out]
        lev = 5
        E = {e: levels(case["lv"], i, e, lev) for i, e in enumerate(edges)}
        X, regions, r = gencov.build(reg, E, keep, lev)
    elif k == "wind":
        names, reg, E = gencov.winding(case["turns"], case["n"])
        X, regions, r = gencov.build(reg, E, names, 3, .002)
    elif k == "proj":
        names, reg, edges = gencov.projective(case["groups"])
        lev = 4
        E = {(u, v): 1 if not case["lv"] else 1 + (
            len(u) * case["lv"] + sum(map(int, v)) + i * (case["lv"] % 3)) %
            lev for i, (u, v) in enumerate(edges)}
        X, regions, r = gencov.build(reg, E, names, lev, .002)
    else:
        n = len(case["mem"])
        E = {tuple(e): 1 + i for i, e in enumerate(case["ed"])}
        D = gencov.dist_from(n, E, .02, 12)
        X = ssrun.embed(D)
        regions = [[i for i in range(n) if l in case["mem"][i]]
                   for l in range(3)]
        r = 1 + .02 * (len(E) + .5)
    from .. import vr
    if not ssrun.covers_complex(vr.dist_matrix(X), r, regions, case["dim"]):
        return None
    return X, r, case["dim"], case["p"], ssrun.make_cover(X, regions), 2, r


def compute(case, ctx):
    """-> (X, r, dim, p, ss) or None when the case does not apply."""
    pr = prepare(case)
    if pr is None:
        ctx.tag("not a cover of the complex (skipped)")
        return None
    X, r, dim, p, cover, div, ov = pr
    if cover is None:
        ss = ssrun.compute(ctx, X, r, dim, div, ov, p)
    else:
        cc = ssrun.custom_cover(cover)
        with cc:
            ss = ssrun.compute(ctx, X, r, dim, div, ov, p)
        if not cc.used:
            ctx.tag("cover not taken from generate_cover (skipped)")
            return None
    ctx.state()
    ctx.sample({k: v for k, v in case.items()})
    return X, r, dim, p, ss


def valid(page, n, q, dim):
    """Whether all differentials that define the entry are computed."""
    J = min(page - 1, n)
    return q < dim and (J < 2 or q + J - 1 < dim)
