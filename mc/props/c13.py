"""C13: image and kernel of morphisms of persistence modules."""
import itertools
import numpy as np
from .. import fp, pmod, vr
from permaviss.persistence_algebra.barcode_bases import barcode_basis
from permaviss.persistence_algebra.image_kernel import image_kernel

ID = "C13"
CHUNK = 4
BARS = [(b, d) for b in range(4) for d in range(b + 1, 4)]
MORE = [(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (1, 4), (2, 3),
        (2, 4), (3, 4)]


def multisets(n, bars=BARS):
    return list(itertools.combinations_with_replacement(bars, n))


def compatible_positions(A, B):
    return [(i, j) for i in range(len(B)) for j in range(len(A))
            if pmod.compatible(A[j], B[i])]


def matrices(A, B, p, limit=None):
    pos = compatible_positions(A, B)
    tot = p ** len(pos)
    step = 1
    if limit and tot > limit:
        step = tot // limit | 1
    for code in range(0, tot, step):
        F = [[0] * len(A) for _ in B]
        c = code
        for i, j in pos:
            F[i][j] = c % p
            c //= p
        yield F


def cases(tier):
    plan = [(2, 1, 1), (2, 2, 1), (2, 1, 2), (2, 2, 2), (3, 1, 1), (3, 2, 1),
            (3, 1, 2), (3, 2, 2), (5, 1, 1), (5, 2, 1), (5, 1, 2),
            (2, 3, 2), (2, 2, 3)]
    if tier == "thorough":
        plan += [(3, 3, 2), (3, 2, 3), (5, 2, 2), (7, 2, 2)]
    for p, na, nb in plan:
        for A in multisets(na):
            yield "p=%d %d->%d generators" % (p, na, nb), dict(
                k="all", p=p, A=A, nb=nb, order=na + nb <= 4)
    # three generators on both sides: every barcode pair, every morphism
    for A in multisets(3):
        yield "p=2 3->3 generators", dict(
            k="all", p=2, A=A, nb=3, order=False,
            limit=16 if tier == "quick" else None)
    for p in (2, 3, 5, 7, 11, 13, 31, 101, 211, 1009):
        for n in (3, 4, 5, 6, 8, 10):
            for sh in range(3 if tier == "quick" else 12):
                yield "larger structured morphisms", dict(
                    k="struct", p=p, n=n, sh=sh)
    for e in (-60, -34, 30):
        for p in (2, 3, 11):
            for n in (3, 4, 5):
                yield "scales", dict(k="struct", p=p, n=n, sh=n % 3,
                                     sc=2. ** e)
    for p in (2, 5, 251):
        for n in (17, 34):
            yield "large morphisms", dict(k="struct", p=p, n=n, sh=n // 9)
    for p in (2, 3, 5):
        for n in (1100, 1101):
            yield "long reductions", dict(k="reduce", p=p, n=n)
    for A in itertools.combinations(MORE, 4):
        yield "p=2 4->3 generators, radii 0..4", dict(
            k="some", p=2, A=A, nb=3, limit=6 if tier == "quick" else 60)
    yield "invalid", dict(k="invalid")


def col(M, k, n):
    if k == 0:
        return []
    M = np.asarray(M)
    if M.shape != (n, k):
        raise ValueError("shape %r instead of %r" % (M.shape, (n, k)))
    out = []
    for c in M.T.tolist():
        for x in c:
            if x != int(x):
                raise ValueError("non-integer coefficient %r" % x)
        out.append([int(x) for x in c])
    return out


def basis(bars, presort):
    b = barcode_basis(np.array(bars, dtype=float).reshape(len(bars), 2))
    if presort:
        b.sort()
    return b


def verify(ctx, A, B, F, p, presort=False, scale=1.):
    w = dict(A=A, B=B, F=F, p=p, presorted=presort)
    bA = basis([(x * scale, y * scale) for x, y in A], presort)
    bB = basis([(x * scale, y * scale) for x, y in B], presort)
    M = np.array(F, dtype=float).reshape(len(B), len(A))
    keep = M.copy()
    out = ctx.call("image_kernel", image_kernel, bA, bB, M, p)
    ctx.check(np.array_equal(M, keep) and
              vr.bars_of(bA) == [(x * scale, y * scale) for x, y in A] and
              vr.bars_of(bB) == [(x * scale, y * scale) for x, y in B],
              "the arguments were modified", w)
    Im, Ker, Pre = out
    rad = pmod.crit(A, B)
    ix = {r * scale: r for r in rad}

    def bars(b):
        res = []
        for x, y in vr.bars_of(b):
            if x not in ix or y not in ix:
                ctx.fail("bar (%r, %r) ends at a radius where nothing "
                         "happens" % (x, y), w)
            res.append((ix[x], ix[y]))
        return res
    ib, kb = bars(Im), bars(Ker)
    wi = pmod.image_bars(A, B, F, p, rad)
    wk = pmod.kernel_bars(A, B, F, p, rad)
    ctx.equal(sorted(ib), wi, "bars of the image", w)
    ctx.equal(sorted(kb), wk, "bars of the kernel", w)
    for name, bb in (("image", ib), ("kernel", kb)):
        keys = [(x, -y) for x, y in bb]
        ctx.check(keys == sorted(keys), "%s not in standard order" % name, w)
    ic = col(Im.coordinates, len(ib), len(B))
    kc = col(Ker.coordinates, len(kb), len(A))
    pc = col(Pre, len(ib), len(A))
    if ib:
        ctx.tag("nonzero image")
    if kb:
        ctx.tag("nonzero kernel")
    for j, (b, d) in enumerate(ib):
        # preimage: active combination whose image is the generator
        aB = pmod.active(B, b)
        v = fp.matvec(F, pc[j], p)
        ctx.check(all(v[i] == ic[j][i] % p for i in aB),
                  "the preimage of image generator %d maps elsewhere" % j, w)
        ctx.check(all(A[a][0] <= b for a in range(len(A)) if pc[j][a] % p),
                  "the preimage of generator %d is born later" % j, w)
        ctx.check(all(B[i][0] <= b for i in range(len(B)) if ic[j][i] % p),
                  "image generator %d uses unborn generators" % j, w)
        ctx.check(not any(ic[j][i] % p for i in pmod.active(B, d)),
                  "image generator %d survives its death" % j, w)
    for j, (b, d) in enumerate(kb):
        ctx.check(all(A[a][0] <= b for a in range(len(A)) if kc[j][a] % p),
                  "kernel generator %d uses unborn generators" % j, w)
        ctx.check(not any(kc[j][a] % p for a in pmod.active(A, d)),
                  "kernel generator %d survives its death" % j, w)
    for r in rad[:-1]:
        aB, aA = pmod.active(B, r), pmod.active(A, r)
        Fr = fp.submat(F, aB, aA)
        V = [[ic[j][i] for i in aB] for j, (b, d) in enumerate(ib)
             if b <= r < d]
        W = fp.columns(Fr, range(len(aA))) if aB else []
        ctx.check(fp.rank(V, p) == len(V) == fp.rank(V + W, p) if aB else
                  not V, "image generators at %r are not a basis" % r, w)
        V = [[kc[j][a] for a in aA] for j, (b, d) in enumerate(kb)
             if b <= r < d]
        ctx.check(fp.rank(V, p) == len(V), "kernel generators at %r are "
                  "dependent" % r, w)
        for v in V:
            ctx.check(not any(fp.matvec(Fr, v, p)),
                      "kernel generator is not mapped to zero at %r" % r, w)


def perms(bars):
    """The orders given to the library: as listed and reversed."""
    out = [list(bars)]
    if list(bars)[::-1] != list(bars):
        out.append(list(bars)[::-1])
    return out


def std(bars):
    return sorted(bars, key=lambda b: (b[0], -b[1]))


def long_reduction(case, ctx):
    """Column i is e_i + e_(i+1) and the last one e_n + c e_0: reducing it
    takes n steps, and it is in the span if c = -(-1)^n."""
    n, p = case["n"], case["p"]
    one = [(0., 1.)] * (n + 1)
    for c in sorted(set([1, p - 1])):
        F = np.zeros((n + 1, n + 1))
        for i in range(n):
            F[i, i] = F[i + 1, i] = 1
        F[n, n] = 1
        F[0, n] = c
        dep = int((c + (-1) ** n) % p == 0)
        ctx.state()
        w = dict(case, c=c)
        Im, Ker, Pre = ctx.call("image_kernel", image_kernel,
                                basis(one, False), basis(one, False), F, p)
        ctx.equal((int(Im.dim), int(Ker.dim)), (n + 1 - dep, dep),
                  "dimensions of image and kernel", w)
        ctx.check(np.array_equal(np.dot(F, Pre) % p,
                                 np.asarray(Im.coordinates) % p),
                  "the preimages map elsewhere", w)
        if dep:
            k = np.asarray(Ker.coordinates)
            ctx.check(np.any(k % p) and not np.any(np.dot(F, k) % p),
                      "kernel generator", w)
    ctx.sample(case)


def run(case, ctx):
    k, p = case["k"], case.get("p")
    if k in ("all", "some"):
        A0 = [tuple(b) for b in case["A"]]
        for B0 in (multisets(case["nb"]) if k == "all" else
                   itertools.combinations(MORE, case["nb"])):
            lim = case.get("limit")
            orders = [(std(A0), std(B0), True)]
            if k == "all":
                orders.append((list(A0), list(B0), False))
                if case["order"]:
                    for a in perms(A0):
                        for b in perms(B0):
                            if (a, b) != (list(A0), list(B0)):
                                orders.append((a, b, False))
                else:
                    orders = [orders[0], (std(A0)[::-1], std(B0)[::-1],
                                          False)]
            if lim:
                orders = orders[:1]
            for A, B, pre in orders:
                for F in matrices(A, B, p, lim):
                    ctx.state()
                    verify(ctx, A, B, F, p, pre)
        ctx.sample(dict(A=A, B=B, F=F, p=p))
    elif k == "reduce":
        long_reduction(case, ctx)
    elif k == "struct":
        n, sh = case["n"], case["sh"]
        for m in (n, n - 1, n + 2):
            A = [((i * 3 + sh) % 4, 6 + (i * 5 + sh) % 3) for i in range(n)]
            B = [((i * 2) % 3, 4 + (i * 7 + sh) % 3) for i in range(m)]
            for f in range(3):
                F = [[0] * n for _ in range(m)]
                for i, j in compatible_positions(A, B):
                    F[i][j] = ((i * j + f + sh) if f == 0 else
                               (i + j * j + sh) if f == 1 else
                               (i + 1) * (j + 2) * (sh + 1)) % p
                ctx.state()
                verify(ctx, A, B, F, p, False, case.get("sc", .1))
        ctx.sample(dict(A=A, B=B, F=F, p=p))
    else:
        A = basis([(0, 2), (1, 3)], False)
        B = basis([(0, 2)], False)
        for F in (np.ones((2, 2)), np.ones((1, 3)), np.ones((1, 1))):
            ctx.state()
            ctx.traces += 1
            try:
                image_kernel(A, B, F, 2)
            except ValueError:
                ctx.step()
            else:
                ctx.fail("matrix of shape %r accepted" % (F.shape,))
