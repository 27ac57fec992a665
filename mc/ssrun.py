"""Running create_MV_ss and reading its result (public attributes only)."""
import numpy as np
from . import vr
import permaviss.covers.cubical_cover as _cc
import permaviss.spectral_sequence.MV_spectral_seq as _mv
from permaviss.spectral_sequence.MV_spectral_seq import create_MV_ss


def compute(ctx, X, r, dim, div, ov, p):
    return ctx.call("create_MV_ss", create_MV_ss, X, r, dim, div, ov, p)


def barcodes(ss):
    return [vr.bars_of(b) for b in ss.persistent_homology]


class Reference(object):
    """Reference barcodes of a cloud up to degree dim - 1."""

    def __init__(self, X, r, dim, p):
        self.D = vr.dist_matrix(X)
        self.S = vr.rips(self.D, r, dim)
        self.cl = vr.Clusters(list(self.S.values()) + [0., r])
        self.bars = vr.persistence(self.S, r, p, dim - 1)
        self.canon = [self.cl.canon(b) for b in self.bars]

    def compare(self, ctx, ss, w):
        got = barcodes(ss)
        ctx.equal(len(got), len(self.canon),
                  "number of homology degrees returned", w)
        for d, (g, c) in enumerate(zip(got, self.canon)):
            ctx.step()
            gc = self.cl.canon(g)
            if gc != c:
                ctx.fail("degree %d barcode: got %r, direct computation gives"
                         " %r" % (d, self.cl.pretty(gc), self.cl.pretty(c)),
                         w)
        return got


class custom_cover(object):
    """Makes create_MV_ss use a given cover instead of the cubical one.

    .used tells whether the library asked for the cover at all."""

    def __init__(self, cover):
        self.cover = cover
        self.used = 0

    def _gen(self, *a, **k):
        self.used += 1
        return self.cover

    def __enter__(self):
        self.saved = []
        for m in (_cc, _mv):
            if "generate_cover" in vars(m):
                self.saved.append((m, m.generate_cover))
                m.generate_cover = self._gen
        return self

    def __exit__(self, *a):
        for m, f in self.saved:
            m.generate_cover = f
        return False


def make_cover(X, regions):
    """Cover by the given point sets; the nerve is the full simplex."""
    import itertools
    regs = [sorted(r) for r in regions]
    m = len(regs)
    nerve = [m]
    IN = [[np.array(r, dtype=int) for r in regs]]
    pc = [[X[np.array(r, dtype=int)] for r in regs]]
    for d in range(1, m):
        sx, ii, pp = [], [], []
        for s in itertools.combinations(range(m), d + 1):
            inter = np.array(sorted(set.intersection(
                *[set(regs[k]) for k in s])), dtype=int)
            sx.append(s)
            ii.append(inter)
            pp.append(X[inter])
        nerve.append(np.array(sx))
        IN.append(ii)
        pc.append(pp)
    nerve.append(np.array([]))
    IN.append([])
    pc.append([])
    return pc, IN, nerve


def embed(D):
    """Points with the given distances (classical scaling)."""
    D = np.asarray(D, dtype=float)
    n = len(D)
    J = np.eye(n) - np.ones((n, n)) / n
    w, V = np.linalg.eigh(-.5 * J @ (D ** 2) @ J)
    if w.min() < -1e-9:
        raise ValueError("not euclidean")
    return V * np.sqrt(np.clip(w, 0, None))


def covers_complex(D, r, regions, max_dim):
    """Whether every simplex lies in a region."""
    S = vr.rips(np.asarray(D), r, max_dim)
    regs = [set(x) for x in regions]
    return all(any(set(s) <= q for q in regs) for s in S)
