"""C03: representatives in the total complex."""
import numpy as np
from .. import total, vr
from . import sscases

ID = "C03"
CHUNK = 2
cases = sscases.cases


class Signs(object):
    """The sign between the vertical and the Cech part may be any product
    f(column) g(row): those are the conventions of a double complex.  Kept as
    a parity union-find over columns and rows."""

    def __init__(self):
        self.par = {}

    def find(self, a):
        e = 1
        while a in self.par:
            a, x = self.par[a]
            e *= x
        return a, e

    def add(self, n, q, e):
        (a, x), (b, y) = self.find(("col", n)), self.find(("row", q))
        if a == b:
            return x * y == e
        self.par[a] = (b, x * y * e)
        return True


def signs(ctx, f, n, q, lhs, rhs, p, msg, w):
    """lhs = e rhs for a consistent sign e."""
    ctx.step()
    ok = []
    for e in (1, -1):
        t = dict(lhs)
        for k, v in rhs.items():
            t[k] = (t.get(k, 0) + e * v) % p
        if not any(v % p for v in t.values()):
            ok.append(e)
    if not ok:
        ctx.fail(msg, w)
    if len(ok) == 1 and not f.add(n, q, ok[0]):
        ctx.fail(msg + " (inconsistent signs)", w)


def run(case, ctx):
    got = sscases.compute(case, ctx)
    if got is None:
        return
    X, r, dim, p, ss = got
    dc = total.of_result(ss, X, r, dim, p)
    cols = dc.cols
    sig = dc.sigmas
    PG = total.Pages(dc, cols - 1 + dim)
    N = len(dc.radii)
    w = dict(case)
    f = Signs()
    for P in range(1, ss.no_pages):
        page = P + 1
        for n in range(cols):
            for q in range(dim):
                H = ss.Hom[P][n][q]
                if H.dim == 0 or not sscases.valid(page, n, q, dim):
                    continue
                bars = vr.bars_of(H)
                idx = [(dc.cl.index(b), dc.cl.index(d)) for b, d in bars]
                where = "page %d, column %d, row %d" % (page, n, q)
                reps = ss.Hom_reps[P][n][q]
                ch = []
                for i, c in enumerate(reps):
                    if n - i < 0:
                        break
                    if q + i > dim:
                        continue
                    ch.append(total.read_chains(ss, sig, c, n - i, q + i,
                                                len(bars), p))
                ctx.check(len(ch) > 0, where + ": no representatives", w)
                for g in range(len(bars)):
                    birth = dc.radii[idx[g][0]]
                    for i, part in enumerate(ch):
                        for cell in part[g]:
                            ctx.check(cell[1] in dc.S and
                                      dc.S[cell[1]] <= birth,
                                      "%s: representative %d uses a simplex "
                                      "that appears after its birth" % (
                                          where, g), w)
                    ctx.equal(total.apply(dc.vert, ch[0][g], p), {},
                              where + ": leading part is not a local cycle",
                              w)
                    for i in range(1, min(P, n) + 1):
                        if q + i > dim:
                            break
                        lhs = total.apply(dc.vert, ch[i][g], p) if i < len(
                            ch) else {}
                        rhs = total.apply(dc.cech, ch[i - 1][g], p)
                        signs(ctx, f, n - i + 1, q + i - 1, lhs, rhs, p,
                              "%s: total complex representative %d does not "
                              "close up in column %d" % (where, g, n - i), w)
                # the leading parts are a barcode basis of the page entry
                for i in range(N - 1):
                    sp = total.Span(p)
                    zc = total.Span(p)
                    for v in PG.B(page, n, q, i):
                        sp.add(v)
                    Z = PG.Z(page, n, q, i)
                    for v in Z:
                        zc.add(v)
                    for v in PG.B(page, n, q, i):
                        zc.add(v)
                    dimE = zc.rank - sp.rank
                    act = [g for g in range(len(bars))
                           if idx[g][0] <= i < idx[g][1]]
                    ctx.equal(len(act), dimE, "%s: number of classes at "
                              "radius %.6g" % (where, dc.radii[i]), w)
                    for g in range(len(bars)):
                        if idx[g][1] <= i:
                            ctx.check(sp.contains(ch[0][g]),
                                      "%s: representative %d does not vanish "
                                      "at its death" % (where, g), w)
                    for g in act:
                        ctx.check(zc.contains(ch[0][g]),
                                  "%s: representative %d is no cycle of the "
                                  "page" % (where, g), w)
                        ctx.check(sp.add(ch[0][g]),
                                  "%s: representatives are dependent at "
                                  "radius %.6g" % (where, dc.radii[i]), w)
                ctx.tag("entries checked, column %s" % (n if n < 3 else ">2"),
                        1)
                if len(ch) > 2:
                    ctx.tag("representatives with three or more parts")
