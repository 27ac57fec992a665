"""C17: linear algebra modulo a prime."""
import itertools
import numpy as np
from .. import fp
from permaviss.gauss_mod_p.arithmetic_mod_p import (
    add_mod_c, add_arrays_mod_c, inv_mod_p)
from permaviss.gauss_mod_p.gauss_mod_p import gauss_col, index_pivot
from permaviss.gauss_mod_p.functions import (
    multiply_mod_p, solve_mod_p, solve_matrix_mod_p)

ID = "C17"
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 101, 127,
          211, 251, 257, 509, 997, 1009]


def cases(tier):
    for p in PRIMES:
        yield "arithmetic", dict(k="arith", p=p)
    for c in range(4, 60):
        if any(c % q == 0 for q in range(2, c)):
            yield "composite", dict(k="comp", p=c)
    shapes = [(2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (2, 3, 2),
              (2, 2, 3), (2, 3, 3), (2, 2, 4), (2, 4, 2), (2, 3, 4),
              (2, 4, 3), (3, 1, 3), (3, 3, 1), (3, 2, 2), (3, 2, 3),
              (3, 3, 2), (5, 1, 2), (5, 2, 1), (5, 2, 2), (7, 2, 2),
              (11, 1, 3), (3, 3, 3), (13, 2, 1), (11, 2, 1)]
    if tier == "thorough":
        shapes += [(2, 4, 4), (2, 3, 5), (2, 5, 3), (3, 2, 4), (3, 4, 2),
                   (5, 2, 3), (5, 3, 2), (11, 2, 2), (13, 2, 2)]
    for p, m, n in shapes:
        tot = p ** (m * n)
        blk = 1500
        for a in range(0, tot, blk):
            yield "matrices p=%d %dx%d" % (p, m, n), dict(
                k="mat", p=p, m=m, n=n, a=a, b=min(tot, a + blk))
    for p in (2, 3, 5):
        vals = [-p - 1, -1, 0, p, 2 * p + 1]
        for a in range(0, len(vals) ** 4, 200):
            yield "unreduced entries", dict(k="raw", p=p, m=2, n=2, vals=vals,
                                            a=a, b=a + 200)
    for p in PRIMES:
        for fam in range(6):
            yield "structured", dict(k="struct", p=p, fam=fam,
                                     N=14 if tier == "quick" else 30)
    for p in (8191, 65521, 65537, 1000003):
        for blk in range(-4, 5):
            yield "large primes", dict(k="inv", p=p, blk=blk)
        for fam in range(6):
            yield "large primes", dict(k="struct", p=p, fam=fam, N=10)
    for p, sizes in ((2, (40, 70, 130)), (3, (40, 70, 129)), (31, (40, 66)),
                     (257, (36, 65))):
        for n in sizes:
            for fam in range(6):
                if fam == 1 and n > 70:
                    continue
                yield "large matrices", dict(k="struct", p=p, fam=fam, N=n,
                                             only=1)


def digits(x, base, k):
    out = []
    for _ in range(k):
        out.append(x % base)
        x //= base
    return out


def ints(M):
    out = []
    for row in np.asarray(M).tolist():
        r = []
        for x in (row if isinstance(row, list) else [row]):
            if x != int(x):
                raise ValueError("not an integer: %r" % x)
            r.append(int(x))
        out.append(r)
    return out


def gauss_check(ctx, A, p, dtype):
    a = np.array(A, dtype=dtype)
    keep = a.copy()
    w = dict(A=A, p=p, dtype=str(dtype))
    out = ctx.call("gauss_col", gauss_col, a, p)
    ctx.check(np.array_equal(a, keep), "gauss_col modified its input", w)
    R, T = ints(out[0]), ints(out[1])
    n = len(A[0])
    ctx.equal((len(R), len(R[0])), (len(A), n), "shape of R", w)
    ctx.equal((len(T), len(T[0])), (n, n), "shape of T", w)
    Tm = [[x % p for x in r] for r in T]
    ctx.equal(fp.matmul(A, Tm, p), [[x % p for x in r] for r in R],
              "A T differs from R", w)
    for i in range(n):
        for j in range(i + 1):
            ctx.check(Tm[i][j] == int(i == j),
                      "T is not unit upper triangular", w)
    seen = set()
    for j in range(n):
        col = [R[i][j] for i in range(len(A))]
        raw = [i for i, x in enumerate(col) if x]
        mod = [i for i, x in enumerate(col) if x % p]
        ctx.equal(raw, mod, "reduced column not in canonical residues", w)
        if mod:
            ctx.check(mod[-1] not in seen, "two columns share a pivot", w)
            seen.add(mod[-1])
    ctx.equal(len(seen), fp.rank(A, p), "number of nonzero columns", w)
    return R, T


def solve_check(ctx, A, b, p, dtype):
    a, bb = np.array(A, dtype=dtype), np.array(b, dtype=dtype)
    keep = a.copy(), bb.copy()
    w = dict(A=A, b=b, p=p)
    cols = fp.columns(A, range(len(A[0])))
    want = fp.in_span(b, cols, p)
    ctx.traces += 1
    try:
        x = solve_mod_p(a, bb, p)
    except ValueError:
        ctx.check(not want, "a solvable system was reported unsolvable", w)
        return
    ctx.check(want, "an unsolvable system was answered", w)
    ctx.equal(np.shape(x), (len(A[0]),), "shape of the solution", w)
    xs = ints(np.asarray(x).reshape(1, -1))[0]
    ctx.equal(fp.matvec(A, xs, p), [v % p for v in b], "A x", w)
    ctx.check(all(0 <= v < p for v in xs), "x not reduced mod p", w)
    ctx.check(np.array_equal(a, keep[0]) and np.array_equal(bb, keep[1]),
              "solve_mod_p modified its input", w)


def solve_matrix_check(ctx, A, rhs, p, dtype):
    """rhs: list of right-hand sides, passed as the rows of B."""
    a, bb = np.array(A, dtype=dtype), np.array(rhs, dtype=dtype)
    w = dict(A=A, B=rhs, p=p)
    cols = fp.columns(A, range(len(A[0])))
    want = all(fp.in_span(b, cols, p) for b in rhs)
    ctx.traces += 1
    try:
        X = solve_matrix_mod_p(a, bb, p)
    except ValueError:
        ctx.check(not want, "solvable matrix equation reported unsolvable", w)
        return
    ctx.check(want, "unsolvable matrix equation answered", w)
    ctx.equal(np.shape(X), (len(A[0]), len(rhs)), "shape of X", w)
    Xi = ints(X)
    for k, b in enumerate(rhs):
        x = [Xi[i][k] for i in range(len(Xi))]
        ctx.equal(fp.matvec(A, x, p), [v % p for v in b],
                  "column %d of X" % k, w)


def run(case, ctx):
    p = case["p"]
    k = case["k"]
    if k == "arith":
        lo, hi = -2 * p - 3, 2 * p + 3
        span = range(lo, hi) if p < 60 else itertools.chain(
            range(-p - 9, -p + 10), range(-9, p + 10))
        for a in span:
            ctx.state()
            for cast in (int, np.int64, np.float64):
                x = cast(a)
                if a % p == 0:
                    ctx.traces += 1
                    try:
                        r = inv_mod_p(x, p)
                    except ValueError:
                        ctx.step()
                    else:
                        ctx.fail("inv_mod_p(%d, %d) returned %r" % (a, p, r))
                else:
                    r = ctx.call("inv_mod_p", inv_mod_p, x, p)
                    ctx.check(r == int(r) and 0 < r < p and
                              int(r) * a % p == 1,
                              "inv_mod_p(%d, %d) = %r" % (a, p, r))
        for a in range(-p - 1, p + 2, max(1, p // 9)):
            for b in range(-p - 1, p + 2, max(1, p // 9)):
                ctx.state()
                ctx.equal(int(ctx.call("add_mod_c", add_mod_c, a, b, p)),
                          (a + b) % p, "add_mod_c(%d,%d,%d)" % (a, b, p))
        v = np.arange(-p - 2, p + 3)
        for s in range(-p - 1, p + 2, max(1, p // 9)):
            for dt in (int, float):
                x, y = v.astype(dt), np.full(len(v), s).astype(dt)
                got = ctx.call("add_arrays_mod_c", add_arrays_mod_c, x, y, p)
                ctx.equal([int(t) for t in got],
                          [(int(t) + s) % p for t in v], "add_arrays_mod_c")
                ctx.check(np.array_equal(x, v) and np.all(y == s),
                          "add_arrays_mod_c modified its input")
        ctx.sample("inv_mod_p(a,%d) for all residues" % p)
    elif k == "comp":
        import math
        for a in range(-p, 2 * p):
            ctx.state()
            ctx.traces += 1
            try:
                r = inv_mod_p(a, p)
            except ValueError:
                continue
            ctx.check(math.gcd(a, p) == 1,
                      "inv_mod_p(%d, %d) = %r although no inverse exists" % (
                          a, p, r))
            ctx.check(int(r) * a % p == 1, "inv_mod_p(%d, %d)" % (a, p))
    elif k in ("mat", "raw"):
        m, n = case["m"], case["n"]
        vals = case.get("vals") or list(range(p))
        for code in range(case["a"], min(case["b"], len(vals) ** (m * n))):
            d = [vals[t] for t in digits(code, len(vals), m * n)]
            A = [d[i * n:(i + 1) * n] for i in range(m)]
            ctx.state()
            if code == case["a"]:
                ctx.sample(dict(A=A, p=p))
            for dt in ((int, float) if p ** (m * n) < 1000 or k == "raw"
                       else ((float,) if code % 2 else (int,))):
                gauss_check(ctx, A, p, dt)
            # last column as right-hand side
            if n > 1:
                M = [r[:-1] for r in A]
                b = [r[-1] for r in A]
                solve_check(ctx, M, b, p, float if code % 3 else int)
                if n > 2:
                    M2 = [r[:-2] for r in A]
                    b2 = [r[-2] for r in A]
                    solve_matrix_check(ctx, M2, [b, b2], p, float)
                solve_matrix_check(ctx, M, [b], p, int)
            if m * n <= 6:
                B = fp.transpose(A)
                X, Y = np.array(A), np.array(B)
                got = ctx.call("multiply_mod_p", multiply_mod_p, X, Y, p)
                ctx.equal(ints(got), fp.matmul(A, B, p), "multiply_mod_p",
                          dict(A=A, B=B, p=p))
                ctx.check(np.array_equal(X, A) and np.array_equal(Y, B),
                          "multiply_mod_p modified its input")
            nz = [i for i, x in enumerate(d) if x]
            ctx.equal(int(ctx.call("index_pivot", index_pivot, np.array(d))),
                      nz[-1] if nz else -1, "index_pivot(%r)" % d)
    elif k == "inv":
        # every residue of a window around each multiple of p / 4
        mid = case["blk"] * p // 4
        for a in range(mid - 60, mid + 61):
            ctx.state()
            if a % p == 0:
                continue
            for cast in (int, np.int64, np.float64):
                r = ctx.call("inv_mod_p", inv_mod_p, cast(a), p)
                ctx.check(r == int(r) and 0 < r < p and
                          int(r) * a % p == 1,
                          "inv_mod_p(%d, %d) = %r" % (a, p, r))
        ctx.sample("inv_mod_p(a,%d) around %d" % (p, mid))
    else:
        fam = case["fam"]
        big = "only" in case
        for n in [case["N"]] if big else range(1, case["N"] + 1):
            for m in [n - 3] if big else sorted(
                    set([n, max(1, n - 3), n + 2])):
                if fam == 0:
                    A = [[(i * j + 1) % p for j in range(n)] for i in range(m)]
                elif fam == 1:
                    A = [[pow(i + 2, j, p) for j in range(n)]
                         for i in range(m)]
                elif fam == 2:
                    A = [[(i * i + 3 * j * i + j * j * j) % p
                          for j in range(n)] for i in range(m)]
                elif fam == 3:
                    A = [[(p - 1) if abs(i - j) == 1 else 2 * (i == j) % p
                          for j in range(n)] for i in range(m)]
                elif fam == 4:
                    A = [[1 if i >= j else p - 1 for j in range(n)]
                         for i in range(m)]
                else:
                    A = [[(p - 1 - (i ^ j)) % p for j in range(n)]
                         for i in range(m)]
                ctx.state()
                if n == 3:
                    ctx.sample(dict(A=A, p=p))
                gauss_check(ctx, A, p, float)
                x = [(3 * j + 1) % p for j in range(n)]
                b = fp.matvec(A, x, p)
                solve_check(ctx, A, b, p, float)
                b2 = list(b)
                b2[0] = (b2[0] + 1) % p
                solve_check(ctx, A, b2, p, float)
                solve_matrix_check(
                    ctx, A, [b, fp.matvec(A, x[::-1], p), [0] * m], p, float)
                B = fp.transpose(A)
                got = ctx.call("multiply_mod_p", multiply_mod_p, np.array(A),
                               np.array(B), p)
                ctx.equal(ints(got), fp.matmul(A, B, p), "multiply_mod_p",
                          dict(A=A, B=B, p=p))
