"""C11: boundary matrices of simplicial complexes."""
import itertools
import numpy as np
from .. import vr
from permaviss.simplicial_complexes.differentials import complex_differentials
from .c17 import ints

ID = "C11"
PRIMES = (2, 3, 5, 7, 11, 101, 257, 65537)


def complexes(n):
    """All simplicial complexes whose vertex set is exactly 0..n-1."""
    faces = [s for k in range(2, n + 1)
             for s in itertools.combinations(range(n), k)]

    def rec(i, chosen):
        if i == len(faces):
            yield list(chosen)
            return
        for c in rec(i + 1, chosen):
            yield c
        s = faces[i]
        if len(s) == 2 or all(f in chosen for f in
                              itertools.combinations(s, len(s) - 1)):
            chosen.append(s)
            for c in rec(i + 1, chosen):
                yield c
            chosen.pop()
    return rec(0, [])


def cases(tier):
    for n in (1, 2, 3, 4):
        allc = list(complexes(n))
        for k in range(0, len(allc), 12):
            yield "all complexes n=%d" % n, dict(k="all", n=n,
                                                 cpx=allc[k:k + 12])
    step = 16
    for a in range(0, 1024, step):
        yield "clique complexes n=5", dict(k="graph", n=5, a=a, b=a + step,
                                           ps=PRIMES if tier == "thorough"
                                           else (3,))
    for n in (6, 7, 8):
        for md in (2, 3, 4, n - 1):
            yield "full simplex skeleta", dict(k="full", n=n, md=md)
    for n, md in ((9, 8), (10, 6)):
        yield "full simplex skeleta", dict(k="full", n=n, md=md)
    for n in (130, 270):
        yield "many vertices", dict(k="many", n=n)
    yield "surfaces", dict(k="surf")


def sparse(M):
    """Columns of a dense matrix as {row: value}."""
    out = {}
    for i, row in enumerate(M):
        for j, x in enumerate(row):
            if x:
                out.setdefault(j, {})[i] = x
    return out


def verify(ctx, levels, n, p, w):
    """levels[d]: list of d-simplices (d >= 1), vertices ascending."""
    for typ in (int, float):
        C = [n] + [np.array(s, dtype=typ).reshape(len(s), d + 2)
                   if len(s) else ([] if typ is int else np.array([]))
                   for d, s in enumerate(levels)]
        D = ctx.call("complex_differentials", complex_differentials, C, p)
        ctx.equal(len(D), len(C), "number of differentials", w)
        ctx.equal(int(D[0]), n, "entry 0", w)
        prev = None
        mats = [None]
        for d in range(1, len(C)):
            rows = n if d == 1 else len(levels[d - 2])
            cols = len(levels[d - 1])
            ctx.equal(np.shape(D[d]), (rows, cols), "shape of D[%d]" % d, w)
            M = ints(D[d]) if cols and rows else []
            mats.append(M)
            face_pos = {}
            if d == 1:
                face_pos = {(v,): v for v in range(n)}
            else:
                face_pos = {tuple(s): i for i, s in
                            enumerate(levels[d - 2])}
            sign = None
            cols_ = sparse(M)
            for j, s in enumerate(levels[d - 1]):
                col = cols_.get(j, {})
                want = {face_pos[f]: sg % p for f, sg in vr.facets(tuple(s))}
                neg = {i: -v % p for i, v in want.items()}
                ok = []
                if col == want:
                    ok.append(1)
                if col == neg:
                    ok.append(-1)
                ctx.check(bool(ok), "boundary of %r is %r" % (s, col), w)
                sign = set(ok) if sign is None else sign & set(ok)
                ctx.check(bool(sign), "inconsistent orientation in degree "
                          "%d" % d, w)
            if d > 1 and M and mats[d - 1]:
                low = sparse(mats[d - 1])
                for col in sparse(M).values():
                    tot = {}
                    for i, x in col.items():
                        for j, y in low.get(i, {}).items():
                            tot[j] = tot.get(j, 0) + x * y
                    ctx.check(not any(v % p for v in tot.values()),
                              "boundary of a boundary is not zero", w)


def levels_of(cpx, n, top):
    return [[s for s in cpx if len(s) == d + 1] for d in range(1, top + 1)]


SURF = {
    "rp2": [(0, 1, 4), (0, 1, 5), (0, 2, 3), (0, 2, 5), (0, 3, 4), (1, 2, 3),
            (1, 2, 4), (1, 3, 5), (2, 4, 5), (3, 4, 5)],
    "torus": [tuple(sorted(((i) % 7, (i + 1) % 7, (i + 3) % 7)))
              for i in range(7)] + [
             tuple(sorted(((i) % 7, (i + 2) % 7, (i + 3) % 7)))
             for i in range(7)],
    "sphere": [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)],
}


def closure(tri):
    out = set()
    for t in tri:
        for k in range(2, len(t) + 1):
            out.update(itertools.combinations(t, k))
    return sorted(out, key=lambda s: (len(s), s))


def run(case, ctx):
    k = case["k"]
    if k == "all":
        n = case["n"]
        for cpx in case["cpx"]:
            cpx = [tuple(s) for s in cpx]
            top = max([len(s) - 1 for s in cpx] + [1])
            for extra in (0, 1):
                L = levels_of(cpx, n, top + extra)
                orders = [L, [lv[::-1] for lv in L],
                          [lv[1:] + lv[:1] for lv in L]]
                for p in PRIMES:
                    for q, lv in enumerate(orders):
                        if q and p > 3:
                            continue
                        ctx.state()
                        verify(ctx, lv, n, p, dict(levels=lv, n=n, p=p))
        ctx.sample(dict(n=n, complex=case["cpx"][-1]))
    elif k == "graph":
        n = case["n"]
        for code in range(case["a"], case["b"]):
            edges = [e for i, e in enumerate(
                itertools.combinations(range(n), 2)) if code >> i & 1]
            cl = vr.cliques(n, edges, 4)[1:]
            for p in case["ps"]:
                ctx.state()
                verify(ctx, cl, n, p, dict(edges=edges, p=p))
        ctx.sample(dict(n=n, edges=edges))
    elif k == "full":
        n, md = case["n"], case["md"]
        L = [list(itertools.combinations(range(n), d + 1))
             for d in range(1, md + 1)]
        L2 = [lv[::-1] for lv in L]
        for p in ((2, 3, 5) if md < 5 else (3,)):
            for lv in (L, L2) if md < 5 else (L2,):
                ctx.state()
                verify(ctx, lv, n, p, dict(n=n, md=md, p=p))
        ctx.sample(dict(n=n, max_dim=md))
    elif k == "many":
        n = case["n"]
        e = sorted(set(tuple(sorted((i, (i + s) % n))) for i in range(n)
                       for s in (1, 2)))
        L = vr.cliques(n, e, 2)[1:]
        for p in (2, 3, 1009, 65537):
            ctx.state()
            verify(ctx, [lv[7:] + lv[:7] for lv in L], n, p, dict(case, p=p))
        ctx.sample(dict(case))
    else:
        for name, tri in SURF.items():
            cpx = closure(tri)
            n = 1 + max(v for s in cpx for v in s)
            for p in PRIMES:
                for rot in range(4):
                    L = levels_of(cpx, n, 2)
                    L = [lv[rot:] + lv[:rot] for lv in L]
                    ctx.state()
                    verify(ctx, L, n, p, dict(surface=name, p=p, rot=rot))
        ctx.sample("rp2, torus, sphere")
