"""Reference filtered complexes and persistent homology (plain Python).

Textbook definitions only; nothing here is shared with the library.
"""
import itertools
import numpy as np
import scipy.spatial.distance as sdist

from . import fp


def dist_matrix(X):
    X = np.asarray(X, dtype=float)
    if len(X) == 0:
        return np.zeros((0, 0))
    return sdist.squareform(sdist.pdist(X))


def rips(D, max_r, max_dim):
    """dict simplex(tuple) -> radius for all cliques with diameter < max_r."""
    n = len(D)
    adj = [set(j for j in range(n) if j != i and D[i][j] < max_r)
           for i in range(n)]
    out = {}
    level = {}
    for i in range(n):
        level[(i,)] = 0.0
    out.update(level)
    for d in range(max_dim):
        nxt = {}
        for s, r in level.items():
            common = set.intersection(*[adj[v] for v in s])
            for v in common:
                if v > s[-1]:
                    nxt[s + (v,)] = max(r, max(float(D[v][u]) for u in s))
        out.update(nxt)
        level = nxt
        if not level:
            break
    return out


def facets(s):
    return [(s[:i] + s[i + 1:], -1 if i % 2 else 1) for i in range(len(s))]


def reduce_columns(cols, p):
    """Standard persistence reduction of sparse columns (dict row -> coeff).

    Returns list low (pivot row or None per column)."""
    owner = {}
    lows = []
    red = []
    for c in cols:
        c = {k: v % p for k, v in c.items() if v % p}
        while c:
            low = max(c)
            if low not in owner:
                break
            o = red[owner[low]]
            q = c[low] * fp.inv(o[low], p) % p
            for k, v in o.items():
                w = (c.get(k, 0) - q * v) % p
                if w:
                    c[k] = w
                else:
                    c.pop(k, None)
        red.append(c)
        if c:
            low = max(c)
            owner[low] = len(red) - 1
            lows.append(low)
        else:
            lows.append(None)
    return lows


def persistence(simplices, max_r, p, top=None):
    """Barcodes by degree of a filtered complex {simplex: radius}.

    Bars (b, d) with b < d, classes that never die end at max_r."""
    order = sorted(simplices, key=lambda s: (simplices[s], len(s), s))
    pos = {s: i for i, s in enumerate(order)}
    maxd = max([len(s) for s in order] + [1]) - 1
    if top is None:
        top = maxd
    cols = []
    for s in order:
        if len(s) == 1:
            cols.append({})
        else:
            cols.append({pos[f]: sg for f, sg in facets(s)})
    lows = reduce_columns(cols, p)
    paired = {}
    for j, low in enumerate(lows):
        if low is not None:
            paired[low] = j
    bars = [[] for _ in range(top + 1)]
    for i, s in enumerate(order):
        if lows[i] is not None:
            continue
        d = len(s) - 1
        if d > top:
            continue
        b = simplices[s]
        e = simplices[order[paired[i]]] if i in paired else max_r
        if b < e:
            bars[d].append((b, e))
    return [sorted(b) for b in bars]


def cloud_barcodes(X, max_r, max_dim, p, top=None):
    D = dist_matrix(X)
    S = rips(D, max_r, max_dim)
    return persistence(S, max_r, p, max_dim if top is None else top)


# ---------------------------------------------------------------------------
# comparing barcodes with floating point end points

class Clusters(object):
    """Groups critical values that differ only by rounding."""

    def __init__(self, values, tol=1e-8):
        vals = sorted(set(float(v) for v in values))
        scale = max([abs(v) for v in vals] + [1e-300])
        self.tol = tol * scale
        self.rep = []
        for v in vals:
            if not self.rep or v - self.rep[-1][1] > self.tol:
                self.rep.append([v, v])
            else:
                self.rep[-1][1] = v

    def index(self, v):
        v = float(v)
        for k, (a, b) in enumerate(self.rep):
            if a - self.tol <= v <= b + self.tol:
                return k
        return "unknown radius %r" % v

    def canon(self, bars):
        out = []
        for b, d in bars:
            i, j = self.index(b), self.index(d)
            if isinstance(i, str) or isinstance(j, str) or i != j:
                out.append((i, j))
        return sorted(out, key=repr)

    def pretty(self, canon):
        def f(i):
            return i if isinstance(i, str) else round(self.rep[i][0], 6)
        return [(f(i), f(j)) for i, j in canon]


def bars_of(basis):
    """Bars of a library barcode_basis as a list of float pairs."""
    b = np.asarray(basis.barcode, dtype=float)
    if b.size == 0:
        return []
    return [tuple(r) for r in b.reshape(-1, 2).tolist()]


def cliques(n, edges, max_dim):
    """All cliques by dimension of a graph, as sorted tuples."""
    adj = [set() for _ in range(n)]
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    levels = [[(i,) for i in range(n)]]
    for d in range(max_dim):
        nxt = []
        for s in levels[-1]:
            for v in set.intersection(*[adj[u] for u in s]):
                if v > s[-1]:
                    nxt.append(s + (v,))
        levels.append(nxt)
    return levels
