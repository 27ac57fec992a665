"""C05: the result does not depend on how the work is scheduled."""
import os
import pickle
import numpy as np
from .. import clouds, pool, ssrun, vr

ID = "C05"
CHUNK = 2
ASSUMPTIONS = [
    "schedules are explored at task granularity (which worker process runs "
    "which tasks, in which order, and in which order results come back)",
    "one map call deviates at a time, in addition to all uniform strategies",
]

CLOUDS = [
    ("line", [[0.], [1], [2], [4], [5]], 1.5, 2, 2, 1.5, 2),
    ("line3", [[0.], [1], [2], [3], [5], [6], [6]], 1.5, 2, 3, 1.5, 3),
    ("ring", clouds.polygon(7, rot=.2).tolist(), .95, 2, 2, .95, 3),
    ("rings", np.vstack([clouds.polygon(5, .8, .3),
                         clouds.polygon(6, .8, cx=1.9)]).tolist(), .98, 2, 3,
     .98, 2),
    ("hexagon", clouds.polygon(6, rot=.3).tolist(), 1.825, 3, 2, 1.825, 2),
    ("grid", clouds.grid(3, 3).tolist(), 1.2, 2, 2, 1.2, 3),
    ("octahedron", clouds.octa(.505).tolist(), 1., 2, 2, 1., 3),
    ("single", [[1., 2.]], 1., 2, 2, 1., 2),
    ("gap", [[0., 0], [.3, 0], [5, 5], [5.2, 5], [0, 5]], 1., 2, 4, 1., 5),
]
BY_NAME = {c[0]: c for c in CLOUDS}


def partitions(n):
    """Set partitions of range(n) as restricted growth strings."""
    def rec(i, s, k):
        if i == n:
            yield list(s)
            return
        for x in range(k + 1):
            s.append(x)
            for y in rec(i + 1, s, max(k, x + 1)):
                yield y
            s.pop()
    return rec(0, [], 0)


def assignments(n, tier):
    """(worker of each task, order) pairs explored for a map of n tasks."""
    lim = 4 if tier == "quick" else 5
    if n <= lim:
        for s in partitions(n):
            yield s, 1
            if max(s) < n - 1:
                yield s, -1
    else:
        yield [0] * n, -1
        yield [0] * n, 1
        yield [i % 2 for i in range(n)], 1
        yield [i % 2 for i in range(n)], -1
        yield [int(i >= n // 2) for i in range(n)], 1
        yield [i // 2 for i in range(n)], -1
        for k in range(n):
            yield [int(i == k) for i in range(n)], 1


def fork_run(f, items, assign, order):
    """Tasks grouped by worker; each worker is a forked copy of this process
    that gets its tasks and returns its results pickled."""
    res = [None] * len(items)
    for wk in range(max(assign) + 1):
        mine = [i for i in range(len(items)) if assign[i] == wk][::order]
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                try:
                    job = pickle.loads(pickle.dumps(f))
                    out = [(i, job(pickle.loads(pickle.dumps(items[i]))))
                           for i in mine]
                    data = pickle.dumps(("ok", out))
                except BaseException as e:
                    data = pickle.dumps(("error", "%s: %s" % (
                        type(e).__name__, e)))
                with os.fdopen(wr, "wb") as h:
                    h.write(data)
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd, "rb") as h:
            data = h.read()
        os.waitpid(pid, 0)
        kind, out = pickle.loads(data)
        if kind == "error":
            raise RuntimeError("worker failed: " + out)
        for i, v in out:
            res[i] = v
    return res


UNIFORM = ["one process per task", "one worker", "one worker, last first",
           "two workers alternating", "in the calling process, last first",
           "completion order: as submitted", "completion order: rotated"]


def policy_of(name, sizes=None):
    def pol(f, items):
        n = len(items)
        if sizes is not None:
            sizes.append(n)
        if n == 0:
            return []
        if name == UNIFORM[0]:
            return fork_run(f, items, list(range(n)), 1)
        if name == UNIFORM[1]:
            return fork_run(f, items, [0] * n, 1)
        if name == UNIFORM[2]:
            return fork_run(f, items, [0] * n, -1)
        if name == UNIFORM[3]:
            return fork_run(f, items, [i % 2 for i in range(n)], 1)
        if name == UNIFORM[4]:
            out = [f(x) for x in items[::-1]]
            return out[::-1]
        return [f(x) for x in items]
    return pol


COMPLETE = {UNIFORM[5]: lambda r: r, UNIFORM[6]: lambda r: r[1:] + r[:1]}


def fingerprint(ss):
    """Everything a user reads off a result."""
    out = [ssrun.barcodes(ss), np.asarray(ss.page_dim_matrix).tolist()]
    for P in range(1, ss.no_pages):
        for n in range(len(ss.Hom[P])):
            for q in range(len(ss.Hom[P][n])):
                H = ss.Hom[P][n][q]
                item = [P, n, q, vr.bars_of(H)]
                if H.dim:
                    item.append(np.asarray(H.coordinates).tolist())
                    for ch in ss.Hom_reps[P][n][q]:
                        item.append([(list(map(int, r)),
                                      np.asarray(c).tolist())
                                     for r, c in zip(ch.ref, ch.coord)])
                out.append(item)
    return out


def execute(ctx, name, pol=None, comp=None, real=None):
    _, X, r, dim, div, ov, p = BY_NAME[name]
    pool.policy, pool.completion = pol, comp
    pool.use_real(real)
    try:
        ss = ssrun.compute(ctx, np.array(X), r, dim, div, ov, p)
    finally:
        pool.policy = pool.completion = None
        pool.use_real(None)
    return fingerprint(ss)


def cases(tier):
    for c in CLOUDS:
        for u in UNIFORM:
            yield "uniform schedules", dict(cloud=c[0], uniform=u)
        for k in ((1, 2) if tier == "quick" else (1, 2, 3, 5)):
            yield "genuine process pools", dict(cloud=c[0], real=k)
    for c in CLOUDS:
        # blocks of map calls; the number of calls is known when running
        if tier == "quick" and c[0] == "octahedron":
            continue
        blocks = 8
        for b in range(blocks):
            yield "one deviating map call", dict(cloud=c[0], block=b,
                                                 of=blocks, tier=tier)


def run(case, ctx):
    name = case["cloud"]
    sizes = []
    base = execute(ctx, name, policy_of("plain", sizes))
    w = dict(case)

    def same(got, what):
        ctx.state()
        ctx.step()
        if got != base:
            d = [a for a, b in zip(got, base) if a != b]
            ctx.fail("result depends on the schedule (%s): %s" % (
                what, repr(d[:1])[:300]), w)
    ctx.tag("map calls per run, up to %d" % (10 * (1 + len(sizes) // 10)))
    if "uniform" in case:
        u = case["uniform"]
        same(execute(ctx, name, policy_of(u), COMPLETE.get(u)), u)
    elif "real" in case:
        same(execute(ctx, name, real=case["real"]),
             "%d worker processes" % case["real"])
    else:
        for c in range(case["block"], len(sizes), case["of"]):
            if sizes[c] == 0:
                continue
            for assign, order in assignments(sizes[c], case["tier"]):
                k = [0]

                def pol(f, items):
                    k[0] += 1
                    if k[0] - 1 == c and len(items) == len(assign):
                        return fork_run(f, items, assign, order)
                    return [f(x) for x in items]
                w.update(call=c, workers=assign, order=order)
                same(execute(ctx, name, pol), "map call %d of %d" % (
                    c, len(sizes)))
    ctx.sample(dict(case, map_calls=sizes[:40]))
