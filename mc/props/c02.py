"""C02: every page entry has the barcode of the Mayer-Vietoris page."""
import numpy as np
from .. import ssrun, total, vr
from . import sscases

ID = "C02"
CHUNK = 2
cases = sscases.cases


def run(case, ctx):
    got = sscases.compute(case, ctx)
    if got is None:
        return
    X, r, dim, p, ss = got
    dc = total.of_result(ss, X, r, dim, p)
    cols = dc.cols
    PG = total.Pages(dc, cols - 1 + dim)
    M = ss.page_dim_matrix
    w = dict(case)
    for page in range(1, ss.no_pages + 1):
        for n in range(cols):
            for q in range(dim):
                if page == 1:
                    bars = [b for loc in ss.Hom[0][n]
                            for b in vr.bars_of(loc[q])]
                else:
                    bars = vr.bars_of(ss.Hom[page - 1][n][q])
                ctx.equal(int(M[page][q, n]), len(bars),
                          "page %d dimension table entry (%d,%d)" % (
                              page, n, q), w)
                if not sscases.valid(page, n, q, dim):
                    continue
                want = PG.bars(page, n, q)
                have = dc.cl.canon(bars)
                if have != sorted(want, key=repr):
                    ctx.fail("page %d entry (column %d, row %d): got %r, "
                             "expected %r" % (
                                 page, n, q, dc.cl.pretty(have),
                                 dc.cl.pretty(want)), w)
                ctx.step()
                if n > 0 and page > 1 and want:
                    ctx.tag("nonzero entries in column > 0, page %d" % page)
    for k in range(2, ss.no_pages):
        if np.any(M[k] != M[k + 1]):
            ctx.tag("page %d changed the ranks" % k)
    # the last page adds up to the homology of the whole complex
    ref = ssrun.Reference(X, r, dim, p)
    ref.compare(ctx, ss, w)
    diag = [[b for n in range(min(m + 1, cols)) for b in dc.cl.canon(
        vr.bars_of(ss.Hom[ss.no_pages - 1][n][m - n]) if ss.no_pages > 1
        else [x for loc in ss.Hom[0][n] for x in vr.bars_of(loc[m - n])])]
        for m in range(dim)]
    for m in range(dim):
        if sorted(diag[m], key=repr) != ref.canon[m]:
            ctx.tag("extension problem is not trivial")
