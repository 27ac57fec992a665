"""C14: relative images and quotients of persistence modules."""
import itertools
import numpy as np
from .. import fp, pmod, vr
from permaviss.persistence_algebra.barcode_bases import barcode_basis
from permaviss.persistence_algebra.image_kernel import image_kernel
from permaviss.persistence_algebra.module_persistence_homology import quotient
from .c13 import (multisets, matrices, compatible_positions, col, basis, std,
                  MORE)

ID = "C14"
CHUNK = 4


def cases(tier):
    plan = [(2, 1, 1, 1), (2, 1, 1, 2), (2, 2, 1, 1), (2, 1, 2, 1),
            (2, 2, 1, 2), (2, 1, 2, 2), (3, 1, 1, 1), (3, 1, 1, 2),
            (5, 1, 1, 1), (7, 1, 1, 1)]
    if tier == "thorough":
        plan += [(3, 2, 1, 1), (3, 1, 2, 1), (2, 2, 2, 1), (2, 2, 2, 2),
                 (3, 2, 1, 2), (5, 1, 1, 2)]
    for p, s, m, nb in plan:
        for N in multisets(s):
            yield "relative p=%d %d|%d -> %d" % (p, s, m, nb), dict(
                k="rel", p=p, N=N, m=m, nb=nb)
    for p in (2, 3, 5, 7, 11, 101):
        for n in (3, 4, 5, 7, 9):
            for sh in range(4 if tier == "quick" else 16):
                yield "relative structured", dict(k="relbig", p=p, n=n, sh=sh)
    for p in (2, 5, 251):
        for n in (17, 34):
            yield "relative large", dict(k="relbig", p=p, n=n, sh=n // 9)
    # exact changes of scale
    for e in (-60, -34, 30):
        for p in (2, 3, 11):
            for sh in range(4):
                yield "scales", dict(k="relbig", p=p, n=5, sh=sh,
                                     sc=2. ** e)
            for A in multisets(2):
                yield "scales", dict(k="coker", p=p, A=A, nb=2, limit=6,
                                     sc=2. ** e)
    # quotient of a module by the image of a morphism, and of a kernel
    for p, na, nb in [(2, 1, 1), (2, 1, 2), (2, 2, 2), (3, 1, 1), (3, 2, 1),
                      (3, 1, 2), (5, 1, 1), (2, 2, 3), (3, 2, 2)]:
        for A in multisets(na):
            yield "cokernels p=%d %d->%d" % (p, na, nb), dict(
                k="coker", p=p, A=A, nb=nb)
    for A in itertools.combinations(MORE, 3):
        yield "cokernels p=2 3->3, radii 0..4", dict(
            k="coker", p=2, A=A, nb=3, wide=True,
            limit=6 if tier == "quick" else 40)


def rel_verify(ctx, N, M, B, F, p):
    s = len(N)
    A = list(N) + list(M)
    w = dict(N=N, M=M, B=B, F=F, p=p)
    bA = basis(A, False)
    bB = basis(B, False)
    Fm = np.array(F, dtype=float).reshape(len(B), len(A))
    keep = Fm.copy()
    Im, Pre = ctx.call("image_kernel", image_kernel, bA, bB, Fm, p,
                       start_index=s)
    ctx.check(np.array_equal(Fm, keep), "the matrix was modified", w)
    rad = pmod.crit(A, B)
    cols = fp.columns(F, range(len(A)))
    Ng = [(A[j], cols[j]) for j in range(s)]
    Mg = [(A[j], cols[j]) for j in range(s, len(A))]
    bars = vr.bars_of(Im)
    ctx.equal(sorted(bars), pmod.quotient_bars(B, Ng, Mg, p, rad),
              "bars of the relative image", w)
    if bars:
        ctx.tag("nonzero quotient")
    ic = col(Im.coordinates, len(bars), len(B))
    pc = col(Pre, len(bars), len(A) - s)

    def span(g, r):
        a = pmod.active(B, r)
        return [[v[i] for i in a] for (b, d), v in g if b <= r < d]
    keys = [(x, -y) for x, y in bars]
    ctx.check(keys == sorted(keys), "not in standard order", w)
    for j, (b, d) in enumerate(bars):
        a = pmod.active(B, b)
        v = [ic[j][i] for i in a]
        ctx.check(all(B[i][0] <= b for i in range(len(B)) if ic[j][i] % p),
                  "generator %d uses unborn generators" % j, w)
        ctx.check(fp.in_span(v, span(Ng, b) + span(Mg, b), p),
                  "generator %d is not in the module at its birth" % j, w)
        ad = pmod.active(B, d)
        if ad:
            ctx.check(fp.in_span([ic[j][i] for i in ad], span(Ng, d), p),
                      "generator %d survives its death" % j, w)
        ctx.check(all(A[s + q][0] <= b for q in range(len(A) - s)
                      if pc[j][q] % p), "preimage %d is born later" % j, w)
        v = [sum(F[i][s + q] * pc[j][q] for q in range(len(A) - s)
                 if A[s + q][1] > b) - ic[j][i] for i in a]
        ctx.check(fp.in_span(v, span(Ng, b), p),
                  "preimage %d maps elsewhere" % j, w)
    for r in rad[:-1]:
        a = pmod.active(B, r)
        V = [[ic[j][i] for i in a] for j, (b, d) in enumerate(bars)
             if b <= r < d]
        Nr = span(Ng, r)
        if V:
            ctx.check(fp.rank(Nr + V, p) == fp.rank(Nr, p) + len(V),
                      "generators at %r are dependent modulo the "
                      "submodule" % r, w)


def coker_verify(ctx, A, B, F, p):
    """B / image(F) and kernel(F) / 0."""
    w = dict(A=A, B=B, F=F, p=p)
    bA, bB = basis(A, False), basis(B, False)
    Fm = np.array(F, dtype=float).reshape(len(B), len(A))
    Im, Ker, _ = ctx.call("image_kernel", image_kernel, bA, bB, Fm, p)
    full = barcode_basis(bB.barcode, bB, np.identity(len(B)))
    if len(A) % 2:
        full.sort()
    before = (vr.bars_of(full), np.asarray(full.coordinates).tolist(),
              vr.bars_of(Im), np.asarray(Im.coordinates).tolist())
    Q = ctx.call("quotient", quotient, full, Im, p)
    ctx.check(before == (vr.bars_of(full),
                         np.asarray(full.coordinates).tolist(),
                         vr.bars_of(Im), np.asarray(Im.coordinates).tolist()),
              "quotient modified its arguments", w)
    rad = pmod.crit(A, B)
    cols = fp.columns(F, range(len(A)))
    Ng = [(A[j], cols[j]) for j in range(len(A))]
    Mg = [(B[i], [int(i == k) for k in range(len(B))])
          for i in range(len(B))]
    bars = vr.bars_of(Q)
    ctx.equal(sorted(bars), pmod.quotient_bars(B, Ng, Mg, p, rad),
              "bars of the quotient", w)
    qc = col(Q.coordinates, len(bars), len(B))
    if Im.dim and bars:
        ctx.tag("nontrivial cokernel")

    def span(g, r):
        a = pmod.active(B, r)
        return [[v[i] for i in a] for (b, d), v in g if b <= r < d]
    for j, (b, d) in enumerate(bars):
        ctx.check(all(B[i][0] <= b for i in range(len(B)) if qc[j][i] % p),
                  "class uses unborn generators", w)
        ad = pmod.active(B, d)
        if ad:
            ctx.check(fp.in_span([qc[j][i] for i in ad], span(Ng, d), p),
                      "class survives its death", w)
    for r in rad[:-1]:
        a = pmod.active(B, r)
        V = [[qc[j][i] for i in a] for j, (b, d) in enumerate(bars)
             if b <= r < d]
        Nr = span(Ng, r)
        if a:
            ctx.check(fp.rank(Nr + V, p) == fp.rank(Nr, p) + len(V) ==
                      len(a), "classes at %r are not a basis of the "
                      "quotient" % r, w)
    # quotient by zero is the module itself
    zero = barcode_basis([], bA)
    Q0 = ctx.call("quotient", quotient, Ker, zero, p)
    ctx.equal(sorted(vr.bars_of(Q0)), sorted(vr.bars_of(Ker)),
              "quotient by the zero module", w)


def scaled(bars, case):
    sc = case.get("sc")
    return [(x * sc, y * sc) for x, y in bars] if sc else bars


def run(case, ctx):
    k, p = case["k"], case["p"]
    if k == "rel":
        N = [tuple(b) for b in case["N"]]
        for M in multisets(case["m"]):
            for B in multisets(case["nb"]):
                for b in ([list(B), list(B)[::-1]] if case["nb"] < 3 and
                          list(B) != list(B)[::-1] else [std(B)]):
                    for m in ([list(M), list(M)[::-1]]
                              if len(M) > 1 and b == list(B) and
                              list(M) != list(M)[::-1] else [list(M)]):
                        for F in matrices(N + m, b, p):
                            ctx.state()
                            rel_verify(ctx, N, m, b, F, p)
        ctx.sample(dict(N=N, M=m, B=b, F=F, p=p))
    elif k == "relbig":
        n, sh = case["n"], case["sh"]
        for s in (1, n // 2, n - 1):
            A = [((i * 3 + sh) % 4, 6 + (i * 5 + sh) % 3) for i in range(n)]
            B = [((i * 2) % 3, 4 + (i * 7 + sh) % 3) for i in range(n)]
            A, B = scaled(A, case), scaled(B, case)
            for f in range(2):
                F = [[0] * n for _ in range(n)]
                for i, j in compatible_positions(A, B):
                    F[i][j] = ((i * j + f + sh) if f == 0 else
                               (i + j * j + sh)) % p
                ctx.state()
                rel_verify(ctx, A[:s], A[s:], B, F, p)
        ctx.sample(dict(N=A[:s], M=A[s:], B=B, F=F, p=p))
    else:
        A = [tuple(b) for b in case["A"]]
        for B in (itertools.combinations(MORE, case["nb"])
                  if case.get("wide") else multisets(case["nb"])):
            for b in ([list(B), list(B)[::-1]]
                      if not case.get("wide") else [list(B)]):
                for F in matrices(A, b, p, case.get("limit")):
                    ctx.state()
                    coker_verify(ctx, scaled(A, case), scaled(b, case), F, p)
        ctx.sample(dict(A=A, B=b, F=F, p=p))
