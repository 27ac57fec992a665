"""C23: lifts to the first page split cycles into classes and boundaries.

For every position, first_page_lift and cech_diff_and_lift are called with
batches of vertical cycles that exist at given radii; the answers are checked
as identities of chains.
"""
import numpy as np
from .. import total
from . import sscases
from permaviss.spectral_sequence.local_chains_class import local_chains

ID = "C23"
CHUNK = 4
ASSUMPTIONS = [
    "the stored local boundaries, bases of the local homologies and the "
    "library's Cech differential are right (C04, C12 and C02 validate them)",
]


def cases(tier):
    return sscases.cases(tier)


def local_data(ss, sig, dc, n, q):
    """Per region: cells, their radius indices, boundary matrix from above,
    stored classes."""
    out = []
    for k in range(len(sig[n])):
        cells = total.local_cells(ss, sig, n, k, q)
        up = total.local_cells(ss, sig, n, k, q + 1)
        M = np.zeros((len(cells), len(up)), dtype=int)
        if cells and up:
            M = np.rint(np.asarray(ss.zero_diff[n][k][q + 1])).astype(int)
        H = ss.Hom[0][n][k][q]
        if H.dim > 0 and cells:
            C = np.rint(np.asarray(H.coordinates)).astype(int)
            births = [dc.cl.index(b) for b in H.barcode[:, 0]]
        else:
            C, births = np.zeros((len(cells), 0), dtype=int), []
        out.append(dict(
            cells=cells, M=M, C=C, births=births,
            at=[dc.cl.index(dc.S[tuple(sorted(s))]) for s in cells],
            up=[dc.cl.index(dc.S[tuple(sorted(s))]) for s in up]))
    return out


def cycles(loc, p, last):
    """Vertical cycles: lists of (region, coefficients), with the index of a
    radius where all their simplices exist."""
    parts = []              # (region, vector)
    for k, d in enumerate(loc):
        for j in range(d["C"].shape[1]):
            parts.append((k, d["C"][:, j] % p))
        m = d["M"].shape[1]
        pick = range(m) if m <= 12 else range(0, m, max(1, m // 12))
        for j in pick:
            parts.append((k, d["M"][:, j] % p))
        if m > 1:
            v = d["M"][:, ::2].sum(axis=1)
            parts.append((k, v % p))

    def born(k, v):
        return max([loc[k]["at"][i] for i in np.nonzero(v)[0]] or [0])
    out = []
    for k, v in parts:
        if np.any(v):
            b = born(k, v)
            out.append(([(k, v)], b))
            if b < last:
                out.append(([(k, (p - 1) * v % p)], last))
    # several regions at once
    for step in (1, 2):
        for a in range(0, len(parts) - step, 2):
            (k, v), (l, w) = parts[a], parts[-1 - a // 2 * step]
            if k == l:
                x = [(k, (v + 2 * w) % p)]
            else:
                x = [(k, v), (l, w)]
            x = [(k, v) for k, v in x if np.any(v)]
            if x:
                out.append((x, max(born(k, v) for k, v in x)))
    return out


def to_chains(ss, sig, n, zs):
    ch = local_chains(len(sig[n]))
    by = {}
    for g, (parts, _) in enumerate(zs):
        for k, v in parts:
            by.setdefault(k, []).append((g, v))
    for k, rows in by.items():
        ch.add_entry(k, np.array([g for g, _ in rows]),
                     np.array([v for _, v in rows], dtype=float))
    return ch


def dense(ch, number, k, size, p):
    """Part of a local_chains object on region k: a row per chain."""
    V = np.zeros((number, size), dtype=int)
    if len(ch.ref[k]) > 0:
        C = np.rint(np.asarray(ch.coord[k], dtype=float)).astype(int)
        np.add.at(V, np.asarray(ch.ref[k]).astype(int), C)
    return V % p


def verify(ctx, what, loc, want, idx, B, lift, sign, p, w):
    """want(k): the chains on region k as rows; idx: their radius indices."""
    idx = np.asarray(idx)
    G = len(idx)
    offs = np.cumsum([0] + [d["C"].shape[1] for d in loc])
    B = np.asarray(B, dtype=float).reshape(G, -1)
    ctx.equal(B.shape[1], int(offs[-1]), "%s: classes of the first page" %
              what, w)
    B = np.rint(B).astype(int) % p
    for k, d in enumerate(loc):
        b = B[:, offs[k]:offs[k + 1]]
        L = dense(lift, G, k, len(d["up"]), p)
        got = (b.dot(d["C"].T) + sign * L.dot(d["M"].T)) % p
        ctx.step(G)
        bad = np.nonzero((got != want(k) % p).any(axis=1))[0]
        ctx.check(len(bad) == 0, "%s: classes plus boundary differ from the "
                  "chain in region %d" % (what, k), w)
        for coef, born, name in (
                (b, d["births"], "a class that is not born yet"),
                (L, d["up"], "a simplex that does not exist yet")):
            late = (coef != 0) & (np.array(born, dtype=int)[None, :] >
                                  idx[:, None])
            ctx.check(not late.any(), "%s: uses %s" % (what, name), w)


def run(case, ctx):
    got = sscases.compute(case, ctx)
    if got is None:
        return
    X, r, dim, p, ss = got
    dc = total.of_result(ss, X, r, dim, p)
    sig, cols = dc.sigmas, dc.cols
    last = len(dc.radii) - 2
    if last < 0:
        return
    rad = [x + dc.cl.tol / 2 for x in dc.radii]
    for q in range(dim):
        locs = [local_data(ss, sig, dc, n, q) for n in range(cols)]
        allz = [cycles(loc, p, last) for loc in locs]
        for n in range(cols):
            w = dict(case, column=n, row=q)
            loc, zs = locs[n], allz[n]
            if not zs:
                continue
            idx = [i for _, i in zs]
            R = np.array([rad[i] for i in idx])
            ch = to_chains(ss, sig, n, zs)
            B, lift = ctx.call("first_page_lift", ss.first_page_lift, n, q,
                               ch, R)
            ch = to_chains(ss, sig, n, zs)
            verify(ctx, "first_page_lift", loc,
                   lambda k: dense(ch, len(zs), k, len(loc[k]["cells"]), p),
                   idx, B, lift, 1, p, w)
            ctx.tag("cycles lifted", len(zs))
            if n == 0:
                continue
            im = ctx.call("cech_diff", ss.cech_diff, n - 1, q, ch)
            B, lift = ctx.call("cech_diff_and_lift", ss.cech_diff_and_lift,
                               n, q, ch, R)
            loc = locs[n - 1]
            # the total differential of the chain and its lift is the
            # combination of classes
            verify(ctx, "cech_diff_and_lift", loc,
                   lambda k: dense(im, len(zs), k, len(loc[k]["cells"]), p),
                   idx, B, lift, -1, p, w)
            ctx.tag("Cech images lifted", len(zs))
