"""C20: sequences of operations on local chains agree with dense chains."""
import itertools
import numpy as np
from permaviss.spectral_sequence.local_chains_class import local_chains

ID = "C20"
CHUNK = 4
N = 3              # chains (expressions)


def cases(tier):
    refsets = [r for k in range(N + 1)
               for r in itertools.combinations(range(N), k)]
    # every pair of reference patterns on up to two cover elements
    for r0 in itertools.product(refsets, repeat=2):
        for r1 in itertools.product(refsets, repeat=2):
            yield "sums of two chains", dict(k="pair", a=r0, b=r1)
    depth = 3 if tier == "quick" else 4
    for start in itertools.product(refsets[::2], repeat=2):
        for p in (2, 3, 7):
            yield "operation histories", dict(k="hist", start=start, p=p,
                                              depth=depth)
    for n, regs in ((40, 3), (70, 6), (140, 2)):
        for p in (2, 5, 251):
            yield "large chains", dict(k="large", n=n, regs=regs, p=p)
    yield "invalid", dict(k="invalid")


WID = [2, 3]


def make(refs, seed, p):
    ch = local_chains(2)
    dense = [np.zeros((N, WID[i]), dtype=int) for i in range(2)]
    for i, ref in enumerate(refs):
        if len(ref):
            M = np.array([[(seed + 3 * r + 2 * c + i) % p + (r == c)
                           for c in range(WID[i])] for r in ref], dtype=float)
            ch.add_entry(i, np.array(ref, dtype=int), M)
            for k, r in enumerate(ref):
                dense[i][r] += M[k].astype(int)
        elif seed % 2:
            ch.add_entry(i, [], [])
    return ch, dense


def densify(ctx, ch, n, w):
    out = []
    ctx.check(len(ch.ref) == len(ch.coord) == 2, "number of entries", w)
    for i in range(2):
        M = np.zeros((n, WID[i]))
        ref = [int(x) for x in ch.ref[i]]
        ctx.check(len(set(ref)) == len(ref), "repeated references", w)
        if ref:
            c = np.asarray(ch.coord[i])
            ctx.check(c.shape == (len(ref), WID[i]),
                      "references and coordinates do not match", w)
            for k, r in enumerate(ref):
                M[r] += c[k]
        else:
            ctx.check(np.size(ch.coord[i]) == 0, "coordinates without "
                      "reference", w)
        out.append(M)
    return out


def eq(ctx, ch, dense, n, p, what, w):
    got = densify(ctx, ch, n, w)
    for i in range(2):
        ctx.check(np.array_equal(got[i] % p, np.asarray(dense[i]) % p),
                  "%s: got %r expected %r" % (
                      what, got[i].tolist(), np.asarray(dense[i]).tolist()),
                  w)


OPS = ["add", "addself", "minus", "sum", "sum0", "copy"]
MATS = [np.array([[1, 0, 2], [0, 1, 1], [1, 1, 0]]),
        np.array([[0, 0, 0], [1, 2, 1], [0, 0, 1]])]


def step(ctx, op, ch, dense, p, other, w):
    o_ch, o_d = other
    if op == "add":
        r = ctx.call("+", lambda: ch + o_ch)
        eq(ctx, o_ch, o_d, N, p, "second operand changed by +", w)
        eq(ctx, ch, dense, N, p, "first operand changed by +", w)
        return r, [a + b for a, b in zip(dense, o_d)]
    if op == "addself":
        r = ctx.call("+", lambda: ch + ch)
        return r, [a + a for a in dense]
    if op == "minus":
        ctx.call("minus", ch.minus)
        return ch, [-a for a in dense]
    if op in ("sum", "sum0"):
        M = MATS[op == "sum0"]
        r = ctx.call("sums", local_chains.sums, ch, M)
        eq(ctx, ch, dense, N, p, "operand changed by sums", w)
        return r, [M.dot(a) for a in dense]
    seq = ctx.call("copy_seq", local_chains.copy_seq, [ch, o_ch])
    ctx.check(len(seq) == 2, "copy_seq length", w)
    eq(ctx, seq[1], o_d, N, p, "copy", w)
    # changing the copy leaves the original alone and vice versa
    for i in range(2):
        if len(seq[0].ref[i]):
            seq[0].coord[i][:] = 1 - seq[0].coord[i]
    eq(ctx, ch, dense, N, p, "original changed through a copy", w)
    seq = ctx.call("copy_seq", local_chains.copy_seq, [ch])
    return seq[0], dense


def large(case, ctx):
    """Many chains over many cover elements, sparse references."""
    n, regs, p = case["n"], case["regs"], case["p"]
    wid = [3 + 11 * i for i in range(regs)]

    def mk(sh):
        ch = local_chains(regs)
        dense = [np.zeros((n, w), dtype=int) for w in wid]
        for i in range(regs):
            ref = [r for r in range(n) if (r * (i + 2) + sh) % 3 == 0]
            if i == sh % regs:
                ref = []
            if ref:
                M = np.array([[(r * c + sh + i) % p for c in range(wid[i])]
                              for r in ref], dtype=float)
                ch.add_entry(i, np.array(ref, dtype=int), M)
                dense[i][ref] = M.astype(int)
        return ch, dense

    def same(ch, dense, rows, what):
        for i in range(regs):
            got = np.zeros((rows, wid[i]))
            ref = [int(x) for x in ch.ref[i]]
            ctx.check(len(set(ref)) == len(ref), "repeated references", case)
            for j, r in enumerate(ref):
                got[r] += ch.coord[i][j]
            ctx.check(np.array_equal(got % p, np.asarray(dense[i]) % p),
                      what, case)
    for x in range(4):
        for y in range(4):
            ctx.state()
            a, da = mk(x)
            b, db = mk(y)
            s = ctx.call("+", lambda: a + b)
            ds = [u + v for u, v in zip(da, db)]
            same(s, ds, n, "a + b")
            same(a, da, n, "a changed")
            same(b, db, n, "b changed")
            M = np.array([[(i * j + x) % p if (i + j) % 5 == y else 0
                           for j in range(n)] for i in range(n // 2)])
            t = ctx.call("sums", local_chains.sums, s, M)
            same(t, [M.dot(u) for u in ds], n // 2, "sums")
            ctx.call("minus", t.minus)
            same(t, [-M.dot(u) for u in ds], n // 2, "minus")
            same(s, ds, n, "a + b changed")
    ctx.sample(case)


def run(case, ctx):
    k = case["k"]
    p = case.get("p", 5)
    local_chains.p = p
    if k == "pair":
        for seed in (0, 1):
            ctx.state()
            w = dict(a=case["a"], b=case["b"])
            a, da = make(case["a"], seed, p)
            b, db = make(case["b"], seed + 2, p)
            s = ctx.call("+", lambda: a + b)
            eq(ctx, s, [x + y for x, y in zip(da, db)], N, p, "a+b", w)
            eq(ctx, a, da, N, p, "a changed", w)
            eq(ctx, b, db, N, p, "b changed", w)
            for i in range(2):      # no aliasing of the result
                if len(s.ref[i]):
                    s.coord[i] += 1
            eq(ctx, a, da, N, p, "a changed through the sum", w)
            eq(ctx, b, db, N, p, "b changed through the sum", w)
            for M in MATS + [np.array([[1, 1, 1]]), np.ones((5, N))]:
                t = ctx.call("sums", local_chains.sums, a, M)
                eq(ctx, t, [M.dot(x) for x in da], len(M), p, "sums", w)
            # constructor from references and coordinates
            c = ctx.call("local_chains", local_chains, a.ref, a.coord)
            eq(ctx, c, da, N, p, "constructor", w)
            for i in range(2):
                if len(c.ref[i]):
                    c.coord[i] += 1
            eq(ctx, a, da, N, p, "a changed through the constructor", w)
        ctx.sample(case)
    elif k == "hist":
        for ops in itertools.product(OPS, repeat=case["depth"]):
            ctx.state()
            ch, dense = make(case["start"], 1, p)
            other = make([(0, 2), (1,)], 2, p)
            done = []
            for op in ops:
                done.append(op)
                w = dict(start=case["start"], p=p, ops=done)
                ch, dense = step(ctx, op, ch, dense, p, other, w)
                eq(ctx, ch, dense, N, p, "after " + op, w)
        ctx.sample(case)
    elif k == "large":
        large(case, ctx)
    else:
        M = np.ones((2, 3))
        for what, f in [
            ("rows", lambda: local_chains(1).add_entry(0, [0], M)),
            ("rows", lambda: local_chains(1).add_entry(0, [0, 1, 2], M)),
            ("empty", lambda: local_chains(1).add_entry(0, [0], [])),
            ("lengths", lambda: local_chains([[0, 1]], [M, M])),
            ("match", lambda: local_chains([[0]], [M])),
            ("arg", lambda: local_chains("x")),
            ("args", lambda: local_chains([[0]], [M], 3)),
        ]:
            ctx.state()
            ctx.traces += 1
            try:
                f()
            except ValueError:
                ctx.step()
            else:
                ctx.fail("inconsistent arguments accepted: " + what)
