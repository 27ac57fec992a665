"""Clouds with prescribed covers (not only cubical ones)."""
import itertools
import numpy as np
from . import ssrun


def dist_from(n, edges, eps, far):
    """All distances close to 1 (hence euclidean): edge level l -> 1+eps*l."""
    D = np.full((n, n), 1 + eps * far)
    for (i, j), l in edges.items():
        D[i, j] = D[j, i] = 1 + eps * l
    np.fill_diagonal(D, 0)
    return D


def build(reg, E, keep, lev, eps=.012, far=12):
    """reg: vertex -> set of regions, E: {(u, v): level}, keep: vertices."""
    idx = {v: k for k, v in enumerate(keep)}
    e = {}
    for (u, v), l in E.items():
        if u in idx and v in idx:
            e[tuple(sorted((idx[u], idx[v])))] = l
    D = dist_from(len(keep), e, eps, far)
    m = max(max(s) for s in reg.values()) + 1
    regions = [[idx[v] for v in keep if l in reg[v]] for l in range(m)]
    return ssrun.embed(D), regions, 1 + eps * (lev + .5)


def cone_system(m):
    """Two points common to m regions, joined by paths in the intersections
    of m - 1 regions, which are filled by cones in smaller intersections.

    A vertex c_T (T a set of regions) is adjacent to the two points and to
    every c_U with U > T.  With all cones the classes of the corner die
    through the highest differential; removing cones gives every partial
    situation."""
    full = frozenset(range(m))
    reg = {"a": full, "b": full}
    names = ["a", "b"]
    for k in range(m - 1, 0, -1):
        for T in itertools.combinations(range(m), k):
            reg[T] = frozenset(T)
            names.append(T)
    edges = []
    for T in names[2:]:
        edges.append(("a", T))
        edges.append(("b", T))
        for U in names[2:]:
            if len(U) > len(T) and set(T) < set(U):
                edges.append((U, T))
    return names, reg, edges


def orbits(m, names, subsets):
    """Representatives of vertex subsets under permutations of regions."""
    perms = list(itertools.permutations(range(m)))
    seen = set()
    for sub in subsets:
        key = min(tuple(sorted(tuple(sorted(q[i] for i in T)) for T in sub))
                  for q in perms)
        if key not in seen:
            seen.add(key)
            yield sub


RP2 = ["123", "124", "135", "146", "156", "236", "245", "256", "345", "346"]


def projective(groups):
    """Barycentric subdivision of the projective plane on 6 points; region i
    is the union of the closed stars of the points in groups[i]."""
    faces = sorted(set("".join(c) for t in RP2 for k in (1, 2, 3)
                       for c in itertools.combinations(t, k)),
                   key=lambda x: (len(x), x))
    edges = [(u, v) for u in faces for v in faces
             if u != v and set(u) < set(v)]
    reg = star_regions(faces, edges, groups)
    return faces, reg, edges


def star_regions(faces, edges, groups):
    adj = {f: {f} for f in faces}
    for u, v in edges:
        adj[u].add(v)
        adj[v].add(u)
    reg = {}
    for f in faces:
        reg[f] = frozenset(i for i, g in enumerate(groups)
                           if any(f in adj[x] for x in g))
    return reg


def winding(turns, n):
    """A path that winds around a cylinder, closed through a second region;
    the layers of the cylinder meet at level 2."""
    N = turns * n
    names = [("v", i) for i in range(N)] + [("b", 0)]
    reg = {v: frozenset([0]) for v in names}
    reg["v", 0] = reg["v", N - 1] = frozenset([0, 1])
    reg["b", 0] = frozenset([1])
    E = {(("v", i), ("v", i + 1)): 1 for i in range(N - 1)}
    E[("v", 0), ("b", 0)] = E[("v", N - 1), ("b", 0)] = 1
    for i in range(N):
        for j in range(i + 2, N):
            if (j - i) % n in (0, 1, n - 1):
                E[("v", i), ("v", j)] = 2
    return names, reg, E
