"""C04: the Cech differential and the local boundaries form a double complex.
"""
import numpy as np
from .. import total
from . import sscases
from permaviss.spectral_sequence.local_chains_class import local_chains

ID = "C04"
CHUNK = 4
cases = sscases.cases


def sign_between(got, want, p):
    """Signs e with got = e want (both sparse chains)."""
    out = []
    for e in (1, -1):
        keys = set(got) | set(want)
        if all((got.get(k, 0) - e * want.get(k, 0)) % p == 0 for k in keys):
            out.append(e)
    return out


class Conv(object):
    def __init__(self):
        self.s = {}

    def put(self, ctx, key, ok, msg, w):
        ctx.check(len(ok) > 0, msg, w)
        if len(ok) == 1:
            ctx.check(self.s.setdefault(key, ok[0]) == ok[0],
                      msg + " (sign changes from simplex to simplex)", w)


def run(case, ctx):
    got = sscases.compute(case, ctx)
    if got is None:
        return
    X, r, dim, p, ss = got
    dc = total.of_result(ss, X, r, dim, p)
    sig, cols = dc.sigmas, dc.cols
    w = dict(case)
    vert, cech = Conv(), Conv()
    # local complexes are the Vietoris-Rips complexes of the intersections
    for n in range(cols):
        for q in range(dim + 1):
            mine = sorted(dc.cells[n, q])
            lib = sorted((sg, tuple(sorted(s))) for k, sg in enumerate(sig[n])
                         for s in total.local_cells(ss, sig, n, k, q))
            ctx.equal(lib, mine, "simplices at column %d, row %d" % (n, q),
                      w)
    # vertical differentials
    for n in range(cols):
        for k, sg in enumerate(sig[n]):
            for q in range(1, dim + 1):
                src = total.local_cells(ss, sig, n, k, q)
                dst = total.local_cells(ss, sig, n, k, q - 1)
                if not src:
                    continue
                M = np.asarray(ss.zero_diff[n][k][q])
                for j, s in enumerate(src):
                    s0, e0 = total._sorted_sign(s)
                    img = {}
                    for i, t in enumerate(dst):
                        x = int(round(float(M[i, j]))) % p
                        if x:
                            t0, e1 = total._sorted_sign(t)
                            img[sg, t0] = e0 * e1 * x % p
                    vert.put(ctx, q, sign_between(img, dc.vert((sg, s0)), p),
                             "boundary of %r in region %r" % (s, sg), w)
    # Cech differentials: one class per simplex, then combinations
    for n in range(1, cols):
        for q in range(dim):
            cells = []
            ch = local_chains(len(sig[n]))
            number = sum(len(total.local_cells(ss, sig, n, k, q))
                         for k in range(len(sig[n])))
            if number == 0:
                continue
            for k, sg in enumerate(sig[n]):
                loc = total.local_cells(ss, sig, n, k, q)
                if loc:
                    ch.add_entry(k, np.arange(len(cells), len(cells) +
                                              len(loc)), np.eye(len(loc)))
                    cells += [(sg, s) for s in loc]
            im = ctx.call("cech_diff", ss.cech_diff, n - 1, q, ch)
            out = total.read_chains(ss, sig, im, n - 1, q, number, p)
            for (sg, s), img in zip(cells, out):
                s0, e0 = total._sorted_sign(s)
                want = {c: e0 * v for c, v in dc.cech((sg, s0)).items()}
                cech.put(ctx, (n, q), sign_between(img, want, p),
                         "Cech differential of %r from intersection %r" % (
                             s, sg), w)
                ctx.tag("simplices of columns > 0")
            # combinations: class g has coefficient (g+1)(j+1) on cell j
            ch2 = local_chains(len(sig[n]))
            off = 0
            want = [dict(), dict()]
            for k, sg in enumerate(sig[n]):
                loc = total.local_cells(ss, sig, n, k, q)
                if not loc:
                    continue
                rows = [g for g in (0, 1) if (k + g) % 3 != 2]
                if rows:
                    C = np.array([[(g + 1) * (off + j + 1) % p
                                   for j in range(len(loc))] for g in rows],
                                 dtype=float)
                    ch2.add_entry(k, np.array(rows), C)
                    for a, g in enumerate(rows):
                        for j, s in enumerate(loc):
                            for c, v in out[off + j].items():
                                x = want[g].get(c, 0) + v * int(C[a, j])
                                want[g][c] = x % p
                off += len(loc)
            im = ctx.call("cech_diff", ss.cech_diff, n - 1, q, ch2)
            have = total.read_chains(ss, sig, im, n - 1, q, 2, p)
            for g in (0, 1):
                ctx.equal(have[g], {c: v for c, v in want[g].items() if v},
                          "Cech differential of a combination, column %d, "
                          "row %d" % (n, q), w)
    for (n, q), e in cech.s.items():
        if p > 2 and (n, q - 1) in cech.s:
            ctx.equal(cech.s[n, q - 1], -e, "Cech and vertical differentials "
                      "do not anticommute at column %d, row %d" % (n, q), w)
            ctx.tag("anticommuting squares")
