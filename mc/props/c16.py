"""C16: modules glued by extension coefficients (broken barcode bases)."""
import itertools
import numpy as np
from .. import fp, pmod, vr
from permaviss.persistence_algebra.barcode_bases import barcode_basis
from permaviss.persistence_algebra.image_kernel import image_kernel
from .c13 import multisets

ID = "C16"
CHUNK = 4
TOP = 4
BARS = [(b, d) for b in range(TOP) for d in range(b + 1, TOP + 1)]


def cases(tier):
    for p, n in [(2, 1), (3, 1), (2, 2), (3, 2), (5, 2), (7, 2), (2, 3),
                 (3, 3)]:
        for bars in multisets(n, BARS):
            yield "glued modules p=%d n=%d" % (p, n), dict(
                k="all", p=p, bars=bars)
    for bars in multisets(4, BARS):
        yield "glued modules p=2 n=4", dict(k="all", p=2, bars=bars)
    for p, n in [(3, 4), (5, 3), (7, 3)] + (
            [(2, 5), (5, 4), (11, 3)] if tier == "thorough" else []):
        for bars in multisets(n, BARS):
            yield "glued modules p=%d n=%d" % (p, n), dict(
                k="all", p=p, bars=bars)
    # every pair of generators of submodules of a module with three bars
    for bars in multisets(3, BARS):
        yield "submodules of glued modules p=2 n=3", dict(
            k="sub", p=2, bars=bars)
    for p in (2, 3, 5, 7, 11, 101):
        for n in (4, 5, 6, 8):
            for sh in range(5 if tier == "quick" else 25):
                yield "long chains of extensions", dict(k="chain", p=p, n=n,
                                                        sh=sh)
    for e in (-60, -34, 30):
        for p in (2, 3, 11):
            for n in (4, 6):
                for sh in range(4):
                    yield "scales", dict(k="chain", p=p, n=n, sh=sh,
                                         sc=2. ** e)
    for p in (2, 5, 251):
        for n in (17, 36):
            yield "many extensions", dict(k="chain", p=p, n=n, sh=n // 9)


def positions(bars):
    """(k, i): generator i may continue as generator k after its death."""
    return [(k, i) for k in range(len(bars)) for i in range(len(bars))
            if bars[i][1] < TOP_OF(bars) and
            bars[k][0] <= bars[i][1] < bars[k][1]]


def TOP_OF(bars):
    return max(TOP, max(d for b, d in bars))


def module_bars(bars, E, F, births, p):
    """Barcode of the submodule generated by the columns of F (born at
    `births`) in the module whose generator i becomes sum_k E[k][i] g_k at
    its death."""
    top = TOP_OF(bars)
    rad = sorted(set(x for b in bars for x in b) | set(births) | {top})
    n = len(bars)

    def step(v, r):
        """pass the radius r: generators dying at r are replaced"""
        dying = [i for i in range(n) if bars[i][1] == r]
        w = [0 if i in dying else v[i] for i in range(n)]
        for i in dying:
            for k in range(n):
                w[k] = (w[k] + E[k][i] * v[i]) % p
        return w
    # orbit of every generator
    m = len(births)
    cur = {}
    at = []
    for r in rad:
        for j in cur:
            cur[j] = step(cur[j], r)
        for j in range(m):
            if births[j] == r:
                cur[j] = [F[i][j] % p for i in range(n)]
        at.append({j: list(v) for j, v in cur.items()})

    def rho(i, j):
        act = pmod.active(bars, rad[j])
        vs = [[at[j][q][x] for x in act] for q in at[i]]
        return fp.rank(vs, p) if act and vs else 0
    return fp.bars_from_ranks(rad, rho)


def verify(ctx, bars, E, p, perm, F=None, births=None):
    """Library call as used by the spectral sequence: all generators, no
    deaths, mapped into the glued module."""
    n = len(bars)
    top = TOP_OF(bars)
    if F is None:
        F = [[int(i == j) for j in range(n)] for i in range(n)]
        births = [b for b, d in bars]
    w = dict(bars=bars, broken=E, p=p, perm=perm, F=F, births=births)
    pb = [bars[i] for i in perm]
    PE = np.array([[E[a][b] for b in perm] for a in perm], dtype=float)
    B = barcode_basis(np.array(pb, dtype=float), broken_basis=True,
                      broken_differentials=PE)
    order = B.sort(send_order=True)
    A = barcode_basis(np.array([[b, top] for b in births], dtype=float))
    oa = A.sort(send_order=True)
    M = np.array([F[i] for i in perm], dtype=float)[order][:, oa]
    Im, Pre = ctx.call("image_kernel", image_kernel, A, B, M, p)
    want = module_bars(bars, E, F, births, p)
    ctx.equal(sorted(vr.bars_of(Im)), [tuple(map(float, x)) for x in want],
              "barcode of the glued module", w)
    if want != sorted(bars):
        ctx.tag("bars changed by gluing")
    keys = [(x, -y) for x, y in vr.bars_of(Im)]
    ctx.check(keys == sorted(keys), "not in standard order", w)


def run(case, ctx):
    k, p = case["k"], case["p"]
    if k in ("all", "sub"):
        bars = [tuple(b) for b in case["bars"]]
        n = len(bars)
        pos = positions(bars)
        tot = p ** len(pos)
        for code in range(tot):
            E = [[0] * n for _ in range(n)]
            c = code
            for a, b in pos:
                E[a][b] = c % p
                c //= p
            for perm in ([list(range(n)), list(range(n))[::-1]]
                         if n < 4 and k == "all" else [list(range(n))]):
                ctx.state()
                verify(ctx, bars, E, p, perm)
            if k == "sub" or n == 2 and p <= 3:
                # every one- and two-generator submodule
                for births in itertools.combinations_with_replacement(
                        sorted(set(x for b in bars for x in b))[:-1], 2):
                    ok = [[i for i in range(n)
                           if bars[i][0] <= b < bars[i][1]] for b in births]
                    for v in itertools.product(range(p), repeat=len(ok[0])):
                        for u in itertools.product(range(p),
                                                   repeat=len(ok[1])):
                            F = [[0, 0] for _ in range(n)]
                            for i, x in zip(ok[0], v):
                                F[i][0] = x
                            for i, x in zip(ok[1], u):
                                F[i][1] = x
                            ctx.state()
                            verify(ctx, bars, E, p, list(range(n)), F,
                                   list(births))
        ctx.sample(dict(bars=bars, broken=E, p=p))
    else:
        n, sh = case["n"], case["sh"]
        bars = []
        for i in range(n):
            b = (i * (sh + 1)) % (n - 1)
            bars.append((b, b + 1 + (i * 3 + sh) % 3))
        sc = case.get("sc", 1)
        bars = [(b * sc, d * sc) for b, d in bars]
        pos = positions(bars)
        for f in range(4):
            E = [[0] * n for _ in range(n)]
            for q, (a, b) in enumerate(pos):
                E[a][b] = ((q * f + sh + a) if f < 3 else 1) % p
            for perm in (list(range(n)), list(range(n))[::-1]):
                ctx.state()
                verify(ctx, bars, E, p, perm)
        ctx.sample(dict(bars=bars, broken=E, p=p))
