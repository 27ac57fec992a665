"""Reference Mayer-Vietoris double complex of a cover (plain Python).

Generators are pairs (sigma, s): sigma a simplex of the nerve (tuple of
regions), s a simplex of the Vietoris-Rips complex of the points common to
these regions (tuple of point numbers).  The column is dim sigma, the row
dim s, the radius that of s.
"""
import numpy as np
from . import fp, vr


def nerve_simplices(nerve):
    """List per dimension of the nerve simplices as tuples."""
    out = [[(i,) for i in range(int(nerve[0]))]]
    for level in nerve[1:]:
        level = np.asarray(level)
        if level.size == 0:
            break
        out.append([tuple(int(x) for x in row) for row in level])
    return out


class Double(object):
    def __init__(self, sigmas, points, D, max_r, max_dim, p):
        """sigmas[n]: nerve simplices; points[n][k]: point numbers of the
        k-th; D: distances of the whole cloud."""
        self.p = p
        self.max_r = max_r
        self.max_dim = max_dim
        self.S = vr.rips(D, max_r, max_dim)
        self.sigmas = sigmas
        self.cells = {}     # (n, q) -> list of (sigma, s)
        for n, level in enumerate(sigmas):
            for q in range(max_dim + 1):
                self.cells[n, q] = []
            for k, sg in enumerate(level):
                pts = set(int(x) for x in points[n][k])
                for s in self.S:
                    if set(s) <= pts:
                        self.cells[n, len(s) - 1].append((sg, s))
        self.cols = len(sigmas)
        self.cl = vr.Clusters(list(self.S.values()) + [0., max_r])
        # one radius per cluster: the largest value in it
        self.radii = [b for a, b in self.cl.rep]

    def radius(self, cell):
        return self.S[cell[1]]

    def vert(self, cell):
        sg, s = cell
        if len(s) == 1:
            return {}
        return {(sg, f): e for f, e in vr.facets(s)}

    def cech(self, cell):
        sg, s = cell
        if len(sg) == 1:
            return {}
        return {(f, s): e for f, e in vr.facets(sg)}

    def diff(self, cell):
        """Total differential: vertical + (-1)^row Cech."""
        d = dict(self.vert(cell))
        e = -1 if len(cell[1]) % 2 == 0 else 1
        for c, x in self.cech(cell).items():
            d[c] = d.get(c, 0) + e * x
        return d

    # ------------------------------------------------------------------
    def reduce(self, rad, m):
        """Reduced basis of the total chains of degree m at radius rad.

        Returns a list of (start column, lead, end column or None, low) where
        lead / low are the components of the reduced chain in its own column
        and of its boundary in the column of the boundary's pivot."""
        p = self.p
        order = []
        for n in range(min(self.cols - 1, m) + 1):
            q = m - n
            if q > self.max_dim:
                continue
            order += [c for c in self.cells[n, q] if self.radius(c) <= rad]
        tgt = {}
        for n in range(min(self.cols - 1, m - 1) + 1) if m > 0 else ():
            q = m - 1 - n
            if q > self.max_dim:
                continue
            for c in self.cells[n, q]:
                tgt[c] = len(tgt)
        owner = {}
        out = []
        for c in order:
            d = {tgt[k]: v % p for k, v in self.diff(c).items() if v % p} \
                if m > 0 else {}
            x = {c: 1}
            while d:
                low = max(d)
                if low not in owner:
                    break
                od, ox = owner[low]
                t = d[low] * fp.inv(od[low], p) % p
                for a, b in ((d, od), (x, ox)):
                    for k, v in b.items():
                        w = (a.get(k, 0) - t * v) % p
                        if w:
                            a[k] = w
                        else:
                            a.pop(k, None)
            n = len(c[0]) - 1
            lead = {k: v for k, v in x.items() if len(k[0]) - 1 == n}
            if not d:
                out.append((n, lead, None, None))
                continue
            low = max(d)
            owner[low] = (d, x)
            if not hasattr(self, "_names"):
                self._names = {}
            key = m
            if key not in self._names:
                self._names[key] = [None] * len(tgt)
                for k, i in tgt.items():
                    self._names[key][i] = k
            names = self._names[key]
            e = len(names[low][0]) - 1
            out.append((n, lead, e, {names[k]: v for k, v in d.items()
                                     if len(names[k][0]) - 1 == e}))
        return out

    def page_spaces(self, m_max):
        """For every radius index i and total degree m <= m_max: reduction."""
        red = []
        for rad in self.radii:
            red.append([self.reduce(rad, m) for m in range(m_max + 2)])
        return red


class Pages(object):
    """Cycle and boundary subspaces of every page in every position."""

    def __init__(self, dc, m_max):
        self.dc = dc
        self.red = dc.page_spaces(m_max)
        self.memo = {}

    def Z(self, k, n, q, i):
        """Leading parts of the k-page cycles at (n, q), radius index i."""
        return [lead for s, lead, e, low in self.red[i][n + q]
                if s == n and (e is None or s - e >= k)]

    def B(self, k, n, q, i):
        """Leading parts of the boundaries divided out on page k."""
        return [low for s, lead, e, low in self.red[i][n + q + 1]
                if e == n and s - e <= k - 1]

    def bars(self, k, n, q):
        """Barcode (in cluster indices) of the page k entry (n, q)."""
        N = len(self.dc.radii)
        Zs = [self.Z(k, n, q, i) for i in range(N - 1)]
        Bs = [self.B(k, n, q, i) for i in range(N - 1)]
        # the spaces are nested in k, so equal sizes mean equal spaces
        key = (n, q, tuple(map(len, Zs)), tuple(map(len, Bs)))
        if key in self.memo:
            return self.memo[key]
        R = {}
        for j in range(N - 1):
            sp = Span(self.dc.p)
            for v in Bs[j]:
                sp.add(v)
            rb = sp.rank
            for i in range(j + 1):
                for v in Zs[i]:
                    sp.add(v)
                R[i, j] = sp.rank - rb
        out = fp.bars_from_ranks(list(range(N)), lambda i, j: R[i, j])
        self.memo[key] = out
        return out


class Span(object):
    """Incremental span of sparse vectors over Z/p."""

    def __init__(self, p):
        self.p = p
        self.rows = {}
        self.rank = 0
        self.order = {}

    def reduce(self, v):
        p = self.p
        v = {k: x % p for k, x in v.items() if x % p}
        for k in v:
            self.order.setdefault(k, len(self.order))
        while v:
            low = max(v, key=self.order.__getitem__)
            o = self.rows.get(low)
            if o is None:
                return v, low
            t = v[low]
            for k, x in o.items():
                w = (v.get(k, 0) - t * x) % p
                if w:
                    v[k] = w
                else:
                    v.pop(k, None)
        return v, None

    def add(self, v):
        v, low = self.reduce(v)
        if low is None:
            return False
        t = fp.inv(v[low], self.p)
        self.rows[low] = {k: x * t % self.p for k, x in v.items()}
        self.rank += 1
        return True

    def contains(self, v):
        return self.reduce(v)[1] is None


def of_result(ss, X, max_r, max_dim, p):
    """Reference double complex for the cover a result was computed with."""
    sig = nerve_simplices(ss.nerve)
    pts = [[[int(x) for x in ss.points_IN[n][k]] for k in range(len(level))]
           for n, level in enumerate(sig)]
    return Double(sig, pts, vr.dist_matrix(X), max_r, max_dim, p)


def local_cells(ss, sig, n, k, q):
    """Simplices (global point numbers) of a local complex, in its order."""
    IN = ss.points_IN[n][k]
    comp = ss.subcomplexes[n][k]
    if q == 0:
        return [(int(x),) for x in IN[:int(comp[0])]] if np.ndim(
            comp[0]) == 0 else [(int(x),) for x in IN]
    if q >= len(comp):
        return []
    rows = np.asarray(comp[q])
    if rows.size == 0:
        return []
    return [tuple(int(IN[int(v)]) for v in row) for row in rows]


def read_chains(ss, sig, ch, n, q, number, p):
    """local_chains -> list (per class) of {(sigma, s): coefficient}.

    Simplices are written with increasing point numbers; the sign of the
    permutation is accounted for."""
    out = [dict() for _ in range(number)]
    for k, sg in enumerate(sig[n]):
        if k >= len(ch.ref) or len(ch.ref[k]) == 0:
            continue
        cells = local_cells(ss, sig, n, k, q)
        coord = np.asarray(ch.coord[k])
        for row, ref in enumerate(ch.ref[k]):
            for j, x in enumerate(coord[row]):
                x = int(round(float(x))) % p
                if x:
                    s, e = _sorted_sign(cells[j])
                    key = (sg, s)
                    v = (out[int(ref)].get(key, 0) + e * x) % p
                    if v:
                        out[int(ref)][key] = v
                    else:
                        out[int(ref)].pop(key, None)
    return out


def _sorted_sign(s):
    t = list(s)
    e = 1
    for i in range(len(t)):
        for j in range(len(t) - 1 - i):
            if t[j] > t[j + 1]:
                t[j], t[j + 1] = t[j + 1], t[j]
                e = -e
    return tuple(t), e


def apply(f, chain, p):
    out = {}
    for c, x in chain.items():
        for k, v in f(c).items():
            w = (out.get(k, 0) + x * v) % p
            if w:
                out[k] = w
            else:
                out.pop(k, None)
    return out
