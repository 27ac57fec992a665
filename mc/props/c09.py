"""C09: flag complexes and nerves of cubical covers."""
import itertools
import numpy as np
from .. import vr
from permaviss.simplicial_complexes.flag_complex import flag_complex
from permaviss.covers.cubical_cover import (
    nerve_hypercube_cover, next_hypercube)

ID = "C09"


def cases(tier):
    for n in (1, 2, 3, 4):
        yield "all graphs n=%d" % n, dict(k="graphs", n=n, a=0,
                                          b=2 ** (n * (n - 1) // 2))
    for a in range(0, 1024, 64):
        yield "all graphs n=5", dict(k="graphs", n=5, a=a, b=a + 64)
    for a in range(0, 32768, 512):
        if tier == "thorough":
            yield "all graphs n=6", dict(k="graphs", n=6, a=a, b=a + 512)
        else:
            # dense graphs: at most four edges missing
            codes = [c for c in range(a, a + 512) if bin(c).count("1") >= 11]
            if codes:
                yield "dense graphs n=6", dict(k="graphs", n=6, codes=codes)
    for n in range(7, 11):
        yield "structured graphs", dict(k="struct", n=n)
    for n in (40, 130, 260, 300):
        yield "graphs with many vertices", dict(k="big", n=n)
    for n in (11, 12):
        yield "full simplices", dict(k="full", n=n)
    divs = [[a] for a in list(range(1, 9)) + [40, 270]]
    divs += [list(d) for d in itertools.product(range(1, 6), repeat=2)]
    divs += [list(d) for d in itertools.product(range(1, 4), repeat=3)
             if np.prod(d) <= (12 if tier == "quick" else 27)]
    divs += [list(d) for d in itertools.product(range(1, 3), repeat=4)
             if np.prod(d) <= 8]
    divs += [[1, 1, 1, 3], [3, 1, 1, 1], [1, 3, 1, 2], [2, 1, 3, 1],
             [1, 4, 1], [4, 1, 2], [1, 1, 6], [10, 1], [1, 10],
             [9, 9], [30, 2], [2, 30]]
    if tier == "thorough":
        divs += [[7, 3], [3, 7], [1, 1, 2, 4], [2, 2, 1, 3]]
    for d in divs:
        yield "nerve of %dD covers" % len(d), dict(k="nerve", div=d)
    for d in itertools.product(range(1, 4), repeat=3):
        yield "hypercube order", dict(k="next", div=list(d))
    for d in itertools.product(range(1, 7), repeat=2):
        yield "hypercube order", dict(k="next", div=list(d))
    for d in itertools.product(range(1, 4), repeat=4):
        yield "hypercube order", dict(k="next", div=list(d))
    yield "invalid", dict(k="invalid")


def edges_of(code, n):
    out = []
    for k, e in enumerate(itertools.combinations(range(n), 2)):
        if code >> k & 1:
            out.append(e)
    return out


def simplices(level):
    return [tuple(int(v) for v in s) for s in np.asarray(level).tolist()]


def verify(ctx, got, n, edges, max_dim, ordered, w):
    ctx.equal(len(got), max_dim + 1, "number of levels", w)
    ctx.equal(int(got[0]), n, "number of vertices", w)
    want = vr.cliques(n, edges, max_dim)
    for d in range(1, max_dim + 1):
        s = simplices(got[d]) if np.size(got[d]) else []
        for x in s:
            ctx.check(len(set(x)) == d + 1, "degenerate simplex %r" % (x,), w)
            if ordered:
                ctx.check(list(x) == sorted(x), "simplex %r not ordered" % (
                    x,), w)
        ctx.equal(sorted(tuple(sorted(x)) for x in s), sorted(want[d]),
                  "simplices of dimension %d" % d, w)


def run(case, ctx):
    k = case["k"]
    if k in ("graphs", "struct"):
        n = case["n"]
        if k == "struct":
            allp = list(itertools.combinations(range(n), 2))
            graphs = [allp,
                      [e for e in allp if e[1] - e[0] <= 2],
                      [e for e in allp if e[1] - e[0] <= 3],
                      [e for e in allp if e != (0, n - 1)],
                      [e for e in allp if (e[0] + e[1]) % 3],
                      [e for e in allp if e[1] - e[0] != 1],
                      [e for e in allp if e[1] != n - 1]]
            dims = [1, 3, 4 if n > 8 else n - 1]
        else:
            codes = case.get("codes") or range(case["a"], case["b"])
            graphs = [edges_of(c, n) for c in codes]
            dims = range(0, n + 2) if n < 5 else [2, 3, n]
        for edges in graphs:
            for md in dims:
                ctx.state()
                w = dict(n=n, edges=edges, max_dim=md)
                variants = [(np.array(edges).reshape(-1, 2), True)]
                if n <= 4 or k == "struct":
                    variants.append((np.array(edges[::-1], dtype=float)
                                     .reshape(-1, 2), True))
                    variants.append(([list(e) for e in edges], True))
                    masks = range(1, 2 ** len(edges)) if n <= 4 else (
                        0x55555555555555555555, 2 ** len(edges) - 1)
                    if n == 4 and md not in (3, n + 1):
                        masks = (2 ** len(edges) - 1, 22)
                    # every orientation of the edges
                    for m in masks:
                        variants.append((np.array(
                            [e[::-1] if m >> i & 1 else e
                             for i, e in enumerate(edges)]).reshape(-1, 2),
                            False))
                for G, ordered in variants:
                    keep = np.copy(G)
                    got = ctx.call("flag_complex", flag_complex, G, n, md)
                    if md == 0:
                        ctx.equal((len(got), int(got[0])), (1, n),
                                  "0-dimensional flag complex", w)
                    else:
                        verify(ctx, got, n, edges, md, ordered, w)
                    ctx.check(np.array_equal(G, keep), "graph modified", w)
        ctx.sample(dict(n=n, edges=graphs[-1]))
    elif k in ("big", "full"):
        n = case["n"]
        if k == "full":
            graphs, dims = [list(itertools.combinations(range(n), 2))], [n]
        else:
            t = n // 3
            graphs = [
                sorted(set(tuple(sorted((i, (i + s) % n))) for i in range(n)
                           for s in (1, 2))),
                [(i, i + t) for i in range(t)] +
                [(i + t, i + 2 * t) for i in range(t)] +
                [(i, i + 2 * t) for i in range(t) if i % 5],
                [(0, i) for i in range(1, n)] +
                [(i, i + 1) for i in range(1, n - 1)]]
            dims = [2, 3]
        for edges in graphs:
            for md in dims:
                ctx.state()
                got = ctx.call("flag_complex", flag_complex,
                               np.array(edges), n, md)
                verify(ctx, got, n, edges, md, True, dict(n=n, max_dim=md))
        ctx.sample(dict(n=n))
    elif k == "nerve":
        div = case["div"]
        dim = len(div)
        cells = list(itertools.product(*[range(d) for d in div]))
        edges = [(i, j) for i, j in itertools.combinations(
            range(len(cells)), 2)
            if max(abs(a - b) for a, b in zip(cells[i], cells[j])) <= 1]
        for arg in (list(div), np.array(div)):
            ctx.state()
            got = ctx.call("nerve_hypercube_cover", nerve_hypercube_cover,
                           arg)
            verify(ctx, got, len(cells), edges, 2 ** dim, True,
                   dict(div=div))
            ctx.check(list(arg) == list(div), "div modified")
            if 2 ** dim >= 16:
                break
        ctx.sample(dict(div=div))
    elif k == "next":
        div = case["div"]
        want = list(itertools.product(*[range(d) for d in div]))
        for typ in (list, np.array):
            pos = typ([0] * len(div))
            ctx.state()
            for i in range(len(want)):
                ctx.equal(tuple(int(x) for x in pos), want[i],
                          "position %d of %r" % (i, div))
                if i < len(want) - 1:
                    ctx.call("next_hypercube", next_hypercube, pos, div)
            ctx.equal(list(div), case["div"], "div modified")
        ctx.sample(dict(div=div))
    else:
        ctx.state()
        ctx.traces += 1
        try:
            flag_complex(np.array([[0, 1]]), 2, -1)
        except ValueError:
            ctx.step()
        else:
            ctx.fail("negative dimension accepted")
