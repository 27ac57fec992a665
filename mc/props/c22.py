"""C22: extension coefficients continue classes after their last-page death.

For every generator of the last page that dies before max_r, its total
complex representative minus the combination given by the extension
coefficients must be a boundary of the total complex at the radius of death.
"""
import numpy as np
from .. import total, vr
from . import sscases
from permaviss.spectral_sequence.local_chains_class import local_chains

ID = "C22"
CHUNK = 2
ASSUMPTIONS = [
    "the boundary in the total complex is the vertical boundary plus or minus "
    "the library's own Cech differential (C04 validates that one)",
]


def cases(tier):
    """Cases where a class can be continued first."""
    late = []
    for name, c in sscases.cases(tier):
        if name.startswith("memberships"):
            late.append((name, c))
        else:
            yield name, c
    for x in late[::1 if tier == "thorough" else 3]:
        yield x


def cech_signs(ctx, ss, sig, cols, dim, p):
    """Sign of the library's Cech differential in every position."""
    out = {}
    for n in range(1, cols):
        for q in range(dim + 1):
            for k, sg in enumerate(sig[n]):
                loc = total.local_cells(ss, sig, n, k, q)
                if not loc:
                    continue
                ch = local_chains(len(sig[n]))
                ch.add_entry(k, np.array([0]), np.eye(len(loc))[:1])
                im = ctx.call("cech_diff", ss.cech_diff, n - 1, q, ch)
                got = total.read_chains(ss, sig, im, n - 1, q, 1, p)[0]
                s, e = total._sorted_sign(loc[0])
                c = (sg[1:], s)         # coefficient +1 in the reference
                out[n, q] = 1 if (got.get(c, 0) - e) % p == 0 else -1
                break
    return out


def vert_signs(ss, sig, dc, cols, dim, p):
    """Sign of the library's local boundaries in every row."""
    out = {}
    for q in range(1, dim + 1):
        for n in range(cols):
            for k, sg in enumerate(sig[n]):
                src = total.local_cells(ss, sig, n, k, q)
                dst = total.local_cells(ss, sig, n, k, q - 1)
                if not src or q in out or not np.any(
                        ss.zero_diff[n][k][q]):
                    continue
                s, e = total._sorted_sign(src[0])
                col = np.asarray(ss.zero_diff[n][k][q])[:, 0]
                i = int(np.nonzero(col)[0][0])
                x = col[i]
                t, f = total._sorted_sign(dst[i])
                want = dc.vert((sg, s))[sg, t]
                out[q] = 1 if (int(round(float(x))) * e * f - want) % p == 0 \
                    else -1
    return out


def run(case, ctx):
    got = sscases.compute(case, ctx)
    if got is None:
        return
    X, r, dim, p, ss = got
    P = ss.no_pages - 1
    if P < 1:
        return
    dc = total.of_result(ss, X, r, dim, p)
    cols, sig = dc.cols, dc.sigmas
    w = dict(case)
    reps, bars, raw = {}, {}, {}
    for n in range(cols):
        for q in range(dim):
            if n + q < dim:
                raw[n, q] = vr.bars_of(ss.Hom[P][n][q])
                cl = [(dc.cl.index(b), dc.cl.index(d)) for b, d in raw[n, q]]
                G = len(cl)
                bars[n, q] = cl
                if G == 0:
                    continue
                tot = [dict() for _ in range(G)]
                for i, c in enumerate(ss.Hom_reps[P][n][q]):
                    if n - i < 0:
                        break
                    for g, part in enumerate(total.read_chains(
                            ss, sig, c, n - i, q + i, G, p)):
                        tot[g].update(part)
                reps[n, q] = tot
    todo = []
    for (n, q), cl in bars.items():
        if n == 0 or not cl or not any(d < len(dc.radii) - 1 for b, d in cl):
            continue
        blocks = ss.extensions[n][q]
        ctx.check(len(blocks) > 0, "no extension coefficients in column %d, "
                  "row %d" % (n, q), w)
        for g, (b, d) in enumerate(cl):
            if d >= len(dc.radii) - 1:
                continue
            v = dict(reps[n, q][g])
            used = 0
            for i in range(n + 1):
                if i >= len(blocks) or np.size(blocks[i]) == 0:
                    continue
                col = np.asarray(blocks[i])[:, g]
                for k, x in enumerate(col):
                    x = int(round(float(x))) % p
                    if not x:
                        continue
                    used += 1
                    tb, td = bars[n - i, q + i][k]
                    # radii that differ by rounding form one cluster
                    live = tb <= d < td or (
                        tb <= d == td and raw[n, q][g][1] <
                        raw[n - i, q + i][k][1])
                    ctx.check(live, "extension of generator %d of "
                              "column %d, row %d uses a class of column %d "
                              "that does not live at its death" % (
                                  g, n, q, n - i), w)
                    for c, y in reps[n - i, q + i][k].items():
                        z = (v.get(c, 0) - x * y) % p
                        if z:
                            v[c] = z
                        else:
                            v.pop(c, None)
                    ctx.tag("coefficients over %d columns" % i)
                    if 1 < x < p - 1:
                        ctx.tag("coefficients other than 1 and -1")
            if not used:
                ctx.tag("classes that really die")
            todo.append((n, q, g, d, v))
    if not todo:
        return
    e0 = cech_signs(ctx, ss, sig, cols, dim, p)
    v0 = vert_signs(ss, sig, dc, cols, dim, p)
    bad = None
    for eps in (1, -1):
        bad = None

        def diff(cell):
            n, q = len(cell[0]) - 1, len(cell[1]) - 1
            D = {c: v0.get(q, 1) * x for c, x in dc.vert(cell).items()}
            for c, x in dc.cech(cell).items():
                D[c] = D.get(c, 0) + eps * e0.get((n, q), 1) * x
            return D
        spans = {}
        for n, q, g, d, v in todo:
            m = n + q
            ctx.step()
            if total.apply(diff, v, p):
                bad = ("representative %d of column %d, row %d is not a "
                       "cycle of the total complex" % (g, n, q))
                break
            if (m, d) not in spans:
                sp = spans[m, d] = total.Span(p)
                for a in range(min(cols - 1, m + 1) + 1):
                    for c in dc.cells[a, m + 1 - a] if m + 1 - a <= dim \
                            else ():
                        if dc.radius(c) <= dc.radii[d]:
                            sp.add(diff(c))
            if not spans[m, d].contains(v):
                bad = ("generator %d of column %d, row %d, is not homologous "
                       "at its death %.6g to the combination given by the "
                       "extension coefficients" % (g, n, q, dc.radii[d]))
                break
        if bad is None:
            break
    if bad is not None:
        ctx.fail(bad, w)
    ctx.tag("classes continued or bounded", len(todo))
