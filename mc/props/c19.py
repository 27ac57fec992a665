"""C19: barcode bases behave as ordered lists of (bar, coordinate) pairs."""
import itertools
import numpy as np
from permaviss.persistence_algebra.barcode_bases import barcode_basis
from .c17 import ints

ID = "C19"
CHUNK = 2
END = [0, 1, 2]
PAIRS = [(b, d) for b in range(3) for d in range(3)] + [(0, 3), (1, 3)]
SCALES = [1, 0.1, 1e-6, 1e-9, 1e6]


def cases(tier):
    for n in (0, 1, 2, 3):
        for bars in itertools.product(PAIRS, repeat=n):
            yield "operation histories n=%d" % n, dict(
                k="hist", bars=bars, depth=2 if n == 3 else 3)
    valid = [(b, d) for b in range(4) for d in range(b + 1, 4)]
    for n in (1, 2, 3):
        for bars in itertools.combinations_with_replacement(valid, n):
            yield "broken bases n=%d" % n, dict(
                k="broken", bars=bars, ps=[2, 3] if n < 3 else [2])
    for n in (4, 7, 12, 25, 70, 140):
        for sc in SCALES:
            for sh in range(4 if n < 70 else 1):
                yield "long bases", dict(k="long", n=n, scale=sc, sh=sh)
    yield "invalid arguments", dict(k="invalid")


def read(bas):
    b = np.asarray(bas.barcode, dtype=float)
    bars = [tuple(x) for x in b.reshape(-1, 2).tolist()] if b.size else []
    return bars


class Model(object):
    """Reference: a list of records (bar, coordinate column, label)."""

    def __init__(self, bars, coords):
        self.rec = [(tuple(map(float, b)), tuple(c), i)
                    for i, (b, c) in enumerate(zip(bars, coords))
                    if b[0] < b[1]]
        self.n = len(self.rec)

    def query(self, r):
        act = [i for i, (b, c, l) in enumerate(self.rec) if b[0] <= r < b[1]]
        bi = [i for i, (b, c, l) in enumerate(self.rec) if b[0] == r]
        de = [i for i, (b, c, l) in enumerate(self.rec) if b[1] == r]
        return act, bi, de


def same(ctx, bas, mod, with_coord, w):
    ctx.equal(int(bas.dim), mod.n, "dim", w)
    ctx.equal(read(bas), [b for b, c, l in mod.rec], "bars", w)
    if with_coord and mod.n:
        C = ints(bas.coordinates)
        ctx.equal([tuple(C[i][j] for i in range(len(C)))
                   for j in range(mod.n)], [c for b, c, l in mod.rec],
                  "coordinates do not follow their bars", w)
    if mod.n:
        ends = sorted(set(x for b, c, l in mod.rec for x in b))
        probe = ends + [(x + y) / 2. for x, y in zip(ends, ends[1:])] + [
            ends[0] - 1, ends[-1] + 1]
        for r in probe:
            act, bi, de = mod.query(r)
            ctx.equal([int(x) for x in bas.active(r)], act,
                      "active(%r)" % r, w)
            ctx.equal([int(x) for x in bas.birth(r)], bi, "birth(%r)" % r, w)
            ctx.equal([int(x) for x in bas.death(r)], de, "death(%r)" % r, w)
        ctx.equal([float(x) for x in bas.changes_list()], ends,
                  "changes_list", w)
        ctx.check(read(bas) == [b for b, c, l in mod.rec],
                  "queries modified the basis", w)


def apply_sort(ctx, bas, mod, precision, send, w):
    if precision is None:
        order = ctx.call("sort", bas.sort, send_order=send)
    else:
        order = ctx.call("sort", bas.sort, precision=precision,
                         send_order=send)

    def key(rec):
        b = rec[0]
        if precision is not None:
            b = (float(np.around(b[0], decimals=precision)),
                 float(np.around(b[1], decimals=precision)))
        return (b[0], -b[1])
    old = list(mod.rec)
    if send:
        order = [int(x) for x in order]
        ctx.equal(sorted(order), list(range(len(old))),
                  "the returned order is not a permutation", w)
        new = [old[i] for i in order]
    else:
        # ties may come in any order: read the permutation off the result
        got = read(bas)
        left = list(old)
        new = []
        C = ints(bas.coordinates)
        for j, b in enumerate(got):
            col = tuple(C[i][j] for i in range(len(C)))
            pick = [r for r in left if r[0] == b and r[1] == col]
            ctx.check(bool(pick), "sort lost or changed a generator", w)
            new.append(pick[0])
            left.remove(pick[0])
    keys = [key(r) for r in new]
    ctx.check(keys == sorted(keys), "not in standard barcode order", w)
    mod.rec = new
    ctx.check(bas.sorted, "sorted flag not set", w)


def hist(case, ctx):
    bars = [tuple(b) for b in case["bars"]]
    n = len(bars)
    coords = [[i + 1, 7 - i] for i in range(n)]
    cmat = np.array(coords).T.reshape(2, n) if n else np.array([[]])
    prev = barcode_basis(np.array([[0, 5], [0, 5]]))
    alphabet = ["sort", "order", "prec"] if any(
        b < d for b, d in bars) else []
    for depth in range(case["depth"] + 1):
        for ops in itertools.product(alphabet, repeat=depth):
            ctx.state()
            w = dict(bars=bars, ops=ops)
            inp = np.array(bars, dtype=float).reshape(n, 2) if n else []
            keep = np.copy(inp)
            ck = np.copy(cmat)
            bas = ctx.call("barcode_basis", barcode_basis, inp, prev, cmat,
                           store_well_defined=bool(n))
            mod = Model(bars, coords)
            if n:
                ctx.equal([bool(x) for x in bas.well_defined],
                          [b < d for b, d in bars], "well_defined", w)
            same(ctx, bas, mod, True, w)
            for op in ops:
                if op == "sort":
                    apply_sort(ctx, bas, mod, None, False, w)
                elif op == "order":
                    apply_sort(ctx, bas, mod, None, True, w)
                else:
                    apply_sort(ctx, bas, mod, 0, True, w)
                same(ctx, bas, mod, True, w)
            ctx.check(np.array_equal(inp, keep) and np.array_equal(cmat, ck),
                      "the arguments were modified", w)
    ctx.sample(dict(bars=bars))


def broken(case, ctx):
    bars = [tuple(b) for b in case["bars"]]
    n = len(bars)
    for p in case["ps"]:
        pos = [(k, i) for k in range(n) for i in range(n)
               if bars[k][0] <= bars[i][1] < bars[k][1]]
        for vals in itertools.product(range(p), repeat=len(pos)):
            E = [[0] * n for _ in range(n)]
            for (k, i), v in zip(pos, vals):
                E[k][i] = v
            for perm in itertools.permutations(range(n)):
                pb = [bars[i] for i in perm]
                PE = [[E[a][b] for b in perm] for a in perm]
                for srt in (False, True):
                    ctx.state()
                    w = dict(bars=pb, broken=PE, p=p, sorted=srt)
                    bas = ctx.call(
                        "barcode_basis", barcode_basis,
                        np.array(pb, dtype=float), broken_basis=True,
                        broken_differentials=np.array(PE, dtype=float))
                    rec = list(range(n))
                    if srt:
                        rec = [int(x) for x in ctx.call(
                            "sort", bas.sort, send_order=True)]
                        keys = [(pb[i][0], -pb[i][1]) for i in rec]
                        ctx.check(keys == sorted(keys), "order", w)
                    ctx.equal(read(bas), [tuple(map(float, pb[i]))
                                          for i in rec], "bars", w)
                    ctx.equal(ints(bas.broken_differentials),
                              [[PE[a][b] for b in rec] for a in rec],
                              "broken differentials do not follow the bars",
                              w)
                    # update: dying rows are replaced by their expression
                    for r in (1., 2., 2.5):
                        A = [[(3 * i + j + 1) % p for j in range(2)]
                             for i in range(n)]
                        got = ints(ctx.call(
                            "update_broken", bas.update_broken,
                            np.array(A, dtype=float), r, p))
                        dying = [i for i in range(n) if pb[rec[i]][1] == r]
                        want = [[0 if i in dying else A[i][j]
                                 for j in range(2)] for i in range(n)]
                        for i in dying:
                            for k in range(n):
                                for j in range(2):
                                    want[k][j] += PE[rec[k]][rec[i]] * A[i][j]
                        ctx.equal([[x % p for x in row] for row in got],
                                  [[x % p for x in row] for row in want],
                                  "update_broken at %r" % r, w)
    ctx.sample(dict(bars=bars))


def run(case, ctx):
    k = case["k"]
    if k == "hist":
        hist(case, ctx)
    elif k == "broken":
        broken(case, ctx)
    elif k == "long":
        n, sc, sh = case["n"], case["scale"], case["sh"]
        bars = [((i * 7 + sh) % 5 * sc,
                 ((i * 7 + sh) % 5 + (i * i + sh) % 4) * sc)
                for i in range(n)]
        coords = [[i, n - i] for i in range(n)]
        prev = barcode_basis(np.array([[0, 5], [0, 5]]))
        for send in (True, False):
            ctx.state()
            w = dict(bars=bars)
            bas = ctx.call("barcode_basis", barcode_basis, np.array(bars),
                           prev, np.array(coords).T)
            mod = Model(bars, coords)
            same(ctx, bas, mod, True, w)
            apply_sort(ctx, bas, mod, None, send, w)
            same(ctx, bas, mod, True, w)
            apply_sort(ctx, bas, mod, None, True, w)
            same(ctx, bas, mod, True, w)
        ctx.sample(dict(bars=bars))
    else:
        prev = barcode_basis(np.array([[0, 2], [0, 2]]))
        B = np.array([[0., 1.], [0., 2.]])
        for what, f in [
            ("coordinate rows", lambda: barcode_basis(
                B, prev, np.ones((3, 2)))),
            ("coordinate columns", lambda: barcode_basis(
                B, prev, np.ones((2, 3)))),
            ("broken without differentials", lambda: barcode_basis(
                B, broken_basis=True)),
            ("broken size", lambda: barcode_basis(
                B, broken_basis=True, broken_differentials=np.ones((3, 2)))),
            ("broken size", lambda: barcode_basis(
                B, broken_basis=True, broken_differentials=np.ones((2, 3)))),
        ]:
            ctx.state()
            ctx.traces += 1
            try:
                f()
            except ValueError:
                ctx.step()
            else:
                ctx.fail("inconsistent arguments accepted: " + what)
