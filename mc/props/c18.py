"""C18: elimination that respects filtration radii and barcodes."""
import itertools
import numpy as np
from .. import fp
from permaviss.gauss_mod_p.gauss_mod_p import gauss_col_rad, gauss_barcodes
from .c17 import ints, digits

ID = "C18"


def cases(tier):
    # radius elimination: s reduced columns, t columns to express
    shapes = [(2, 2, 1, 1), (2, 3, 1, 1), (2, 3, 2, 1), (2, 3, 3, 1),
              (2, 2, 2, 2), (3, 2, 1, 1), (3, 2, 2, 1), (5, 2, 2, 1),
              (2, 3, 2, 2), (3, 3, 2, 1), (7, 2, 1, 1), (7, 2, 2, 1)]
    if tier == "thorough":
        shapes += [(2, 4, 3, 1), (3, 3, 3, 1), (5, 3, 2, 1), (2, 3, 3, 2),
                   (11, 2, 2, 1), (2, 4, 2, 1), (2, 4, 4, 1)]
    for p, m, s, t in shapes:
        tot = p ** (m * (s + t))
        blk = 1200
        for a in range(0, tot, blk):
            yield "radius p=%d rows=%d cols=%d+%d" % (p, m, s, t), dict(
                k="rad", p=p, m=m, s=s, t=t, a=a, b=min(tot, a + blk))
    for p in (2, 3, 5, 7, 13, 101):
        for n in range(1, 11):
            yield "radius structured", dict(k="radbig", p=p, n=n)
    # barcode elimination
    bshapes = [(2, 1, 1), (2, 2, 1), (2, 1, 2), (2, 2, 2), (3, 1, 1),
               (3, 2, 1), (5, 1, 1)]
    if tier == "thorough":
        bshapes += [(3, 1, 2), (3, 2, 2), (2, 3, 1), (2, 2, 3)]
    for p, m, s in bshapes:
        for rows in itertools.combinations_with_replacement(BARS, m):
            yield "barcodes p=%d rows=%d cols=%d" % (p, m, s), dict(
                k="bar", p=p, rows=rows, s=s)
    for p in (2, 3, 5, 7, 13, 101):
        for n in range(2, 9):
            yield "barcodes structured", dict(k="barbig", p=p, n=n)
    for e in (-60, -34, 30):
        for p in (2, 3, 13):
            for n in (3, 5, 7):
                yield "scales", dict(k="radbig", p=p, n=n, sc=2. ** e)
                yield "scales", dict(k="barbig", p=p, n=n, sc=2. ** e)
    for p in (2, 3, 13, 251):
        for n in (20, 36, 68):
            yield "radius large", dict(k="radbig", p=p, n=n)
        for n in (16, 30):
            yield "barcodes large", dict(k="barbig", p=p, n=n)


# standard barcode order, as the function requires of rows and columns
BARS = [(0, 3), (0, 2), (0, 1), (1, 3), (1, 2), (2, 3)]
CHUNK = 2


def rad_check(ctx, A, R, s, p, dtype=float):
    w = dict(A=A, R=R, start_index=s, p=p)
    m, n = len(A), len(A[0])
    cols = fp.columns(A, range(n))
    allow = [[k for k in range(s) if R[k] <= R[j]] for j in range(n)]
    ok = all(fp.in_span(cols[j], [cols[k] for k in allow[j]], p)
             for j in range(s, n))
    a, r = np.array(A, dtype=dtype), np.array(R, dtype=float)
    keep = a.copy(), r.copy()
    ctx.traces += 1
    try:
        Red, T = gauss_col_rad(a, r, s, p)
    except (RuntimeError, ValueError):
        ctx.check(not ok, "columns in the span were reported irreducible", w)
        ctx.tag("radius: irreducible")
        return
    ctx.check(ok, "columns outside of the span were accepted", w)
    ctx.tag("radius: reduced")
    Red, T = ints(Red), ints(T)
    ctx.equal(fp.matmul(A, T, p), [[x % p for x in q] for q in Red],
              "A T differs from the reduced matrix", w)
    for j in range(n):
        for i in range(n):
            v = T[i][j] % p
            if i == j:
                ctx.check(v == 1, "diagonal of T", w)
            elif v:
                ctx.check(j >= s and i in allow[j],
                          "column %d uses column %d of larger radius or "
                          "index" % (j, i), w)
        if j >= s:
            ctx.check(not any(Red[i][j] for i in range(m)),
                      "column %d was not reduced to zero" % j, w)
    ctx.check(np.array_equal(a, keep[0]) and np.array_equal(r, keep[1]),
              "inputs were modified", w)


def bar_check(ctx, A, rows, cols, s, p, dtype=float):
    w = dict(A=A, rows=rows, cols=cols, start_index=s, p=p)
    n = len(cols)
    M = fp.columns(A, range(n))
    want = True
    for j in range(s, n):
        b = cols[j][0]
        ar = [i for i, (x, y) in enumerate(rows) if x <= b < y]
        ac = [k for k in range(s) if cols[k][0] <= b < cols[k][1]]
        if ar and not fp.in_span([M[j][i] for i in ar],
                                 [[M[k][i] for i in ar] for k in ac], p):
            want = False
    a = np.array(A, dtype=dtype)
    rb, cb = np.array(rows, dtype=float), np.array(cols, dtype=float)
    keep = a.copy(), rb.copy(), cb.copy()
    ctx.traces += 1
    try:
        C = gauss_barcodes(a, rb, cb, s, p)
    except (RuntimeError, ValueError):
        ctx.check(not want, "expressible columns were rejected", w)
        ctx.tag("barcodes: rejected")
        return
    ctx.check(want, "inexpressible columns were accepted", w)
    ctx.tag("barcodes: expressed")
    ctx.equal(np.shape(C), (s, n - s), "shape of the coefficients", w)
    C = ints(C) if s else []
    for j in range(s, n):
        b = cols[j][0]
        ar = [i for i, (x, y) in enumerate(rows) if x <= b < y]
        ac = [k for k in range(s) if cols[k][0] <= b < cols[k][1]]
        for k in range(s):
            if C[k][j - s] % p:
                ctx.check(k in ac, "an inactive column is used", w)
        for i in ar:
            v = sum(C[k][j - s] * M[k][i] for k in range(s)) % p
            ctx.check(v == M[j][i] % p,
                      "the combination does not give column %d" % j, w)
        if s:
            ctx.check(all(0 <= C[k][j - s] < p for k in range(s)),
                      "coefficients not reduced", w)
    ctx.check(all(np.array_equal(x, y) for x, y in zip((a, rb, cb), keep)),
              "inputs were modified", w)


def run(case, ctx):
    p, k = case["p"], case["k"]
    sc = case.get("sc", 1)
    if k == "rad":
        m, s, t = case["m"], case["s"], case["t"]
        n = s + t
        for code in range(case["a"], case["b"]):
            d = digits(code, p, m * n)
            A = [d[i * n:(i + 1) * n] for i in range(m)]
            # precondition: distinct pivots among the first s columns
            piv = []
            for j in range(s):
                nz = [i for i in range(m) if A[i][j]]
                piv.append(nz[-1] if nz else None)
            if None in piv or len(set(piv)) < s:
                continue
            for R in itertools.product((0, 1, 2), repeat=n):
                if 0 not in R or (1 not in R and 2 in R):
                    continue        # same order pattern as another vector
                ctx.state()
                rad_check(ctx, A, list(R), s, p, float if code % 2 else int)
        ctx.sample(dict(p=p, rows=m, cols=[s, t], codes=[case["a"],
                                                         case["b"]]))
    elif k == "radbig":
        n = case["n"]
        # upper triangular columns, every column a different combination
        base = [[(1 + i * j) % p if i < j else (1 if i == j else 0)
                 for j in range(n)] for i in range(n)]
        for t in range(n) if n < 12 else (0, n // 2, n - 1):
            for sh in range(3 if n < 12 else 1):
                x = [(j * j + sh) % p if j <= t else 0 for j in range(n)]
                b = fp.matvec(base, x, p)
                A = [base[i] + [b[i]] for i in range(n)]
                ctx.state()
                R = [i * sc for i in range(n)]
                rad_check(ctx, A, R + [t * sc], n, p)
                rad_check(ctx, A, R + [(t - 1) * sc], n, p)
                rad_check(ctx, A, [0] * n + [0], n, p)
        ctx.sample(dict(p=p, n=n))
    elif k == "bar":
        rows, s = case["rows"], case["s"]
        rows = [tuple(r) for r in rows]
        m = len(rows)
        for cols in itertools.combinations_with_replacement(BARS, s):
            for tgt in BARS:
                for code in range(p ** (m * (s + 1))):
                    d = digits(code, p, m * (s + 1))
                    A = [d[i * (s + 1):(i + 1) * (s + 1)] for i in range(m)]
                    ctx.state()
                    bar_check(ctx, A, rows, list(cols) + [tgt], s, p,
                              int if code % 2 else float)
        ctx.sample(dict(p=p, rows=rows, cols=s))
    else:
        n = case["n"]
        rows = sorted((((i // 2) * .5, 6. - (i % 3)) for i in range(n)),
                      key=lambda b: (b[0], -b[1]))
        cols = sorted((((i // 2) * .5, 5. - (i % 2)) for i in range(n)),
                      key=lambda b: (b[0], -b[1]))
        for sh in range(4 if n < 12 else 1):
            A = [[(i * j + i + sh + j * j) % p for j in range(n)]
                 for i in range(n)]
            for tb in (0., .5, 1., 1.5, 4., 4.5, 5.5):
                act = [j for j, (x, y) in enumerate(cols) if x <= tb < y]
                xs = [((j + sh) * 2 + 1) % p if j in act else 0
                      for j in range(n)]
                b = fp.matvec(A, xs, p)
                for dlt in (0, 1):
                    c = list(b)
                    c[0] = (c[0] + dlt) % p
                    c2 = fp.matvec(A, [x * 2 % p for x in xs], p)
                    M = [A[i] + [c[i], c2[i]] for i in range(n)]
                    ctx.state()
                    bar_check(
                        ctx, M, [(x * sc, y * sc) for x, y in rows],
                        [(x * sc, y * sc) for x, y in
                         cols + [(tb, 7.), (tb, 6.5)]], n, p)
        ctx.sample(dict(p=p, n=n))
