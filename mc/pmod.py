"""Reference persistence modules and morphisms (definition level).

A module is a list of bars (b, d), right-open.  A morphism A -> B is a matrix
F (list of rows, rows indexed by B, columns by A).  At radius r it acts between
the spans of the generators active at r.
"""
from . import fp


def active(bars, r):
    return [i for i, (b, d) in enumerate(bars) if b <= r < d]


def crit(*barlists):
    s = set()
    for bars in barlists:
        for b, d in bars:
            s.add(b)
            s.add(d)
    return sorted(s)


def compatible(a, b):
    """May a generator with bar a have a nonzero component on bar b?"""
    return b[0] <= a[0] < b[1] <= a[1]


class _Memo(dict):
    pass


def image_bars(A, B, F, p, radii):
    aA = [active(A, r) for r in radii]
    aB = [active(B, r) for r in radii]
    memo = {}

    def rho(i, j):
        k = (i, j)
        if k not in memo:
            memo[k] = fp.rank(fp.submat(F, aB[j], aA[i]), p) \
                if aB[j] and aA[i] else 0
        return memo[k]
    return fp.bars_from_ranks(radii, rho)


def kernel_bars(A, B, F, p, radii):
    aA = [active(A, r) for r in radii]
    aB = [active(B, r) for r in radii]
    kers = []
    for i in range(len(radii)):
        ns = fp.nullspace(fp.submat(F, aB[i], aA[i]), len(aA[i]), p)
        kers.append(ns)

    def rho(i, j):
        keep = [k for k, a in enumerate(aA[i]) if a in aA[j]]
        if not keep or not kers[i]:
            return 0
        return fp.rank([[v[k] for k in keep] for v in kers[i]], p)
    return fp.bars_from_ranks(radii, rho)


def quotient_bars(B, Ngen, Mgen, p, radii):
    """(N + M) / N inside the module B; N and M given as lists of
    ((birth, death), vector in B)."""
    aB = [active(B, r) for r in radii]

    def vecs(gen, i, j):
        return [[v[k] for k in aB[j]] for (b, d), v in gen
                if b <= radii[i] < d]
    memo = {}

    def rho(i, j):
        if (i, j) not in memo:
            if not aB[j]:
                memo[i, j] = 0
            else:
                N = vecs(Ngen, j, j)
                memo[i, j] = fp.rank(N + vecs(Mgen, i, j), p) - fp.rank(N, p)
        return memo[i, j]
    return fp.bars_from_ranks(radii, rho)


def homology_bars(A, B, C, G, F, p, radii):
    """ker(F: B->C) / im(G: A->B), as a persistence module."""
    aA = [active(A, r) for r in radii]
    aB = [active(B, r) for r in radii]
    aC = [active(C, r) for r in radii]
    Z, Bd = [], []
    for i in range(len(radii)):
        Z.append(fp.nullspace(fp.submat(F, aC[i], aB[i]), len(aB[i]), p)
                 if aC[i] else
                 [[int(k == l) for k in range(len(aB[i]))]
                  for l in range(len(aB[i]))])
        Bd.append(fp.columns(fp.submat(G, aB[i], aA[i]), range(len(aA[i])))
                  if aA[i] and aB[i] else [])
    memo = {}

    def rho(i, j):
        if (i, j) not in memo:
            pos = {b: k for k, b in enumerate(aB[j])}
            moved = []
            for v in Z[i]:
                w = [0] * len(aB[j])
                for k, b in enumerate(aB[i]):
                    if b in pos:
                        w[pos[b]] = v[k]
                moved.append(w)
            memo[i, j] = fp.rank(Bd[j] + moved, p) - fp.rank(Bd[j], p)
        return memo[i, j]
    return fp.bars_from_ranks(radii, rho)
