"""C21: the sample generators return points of the shape they are named after.

The random number source is the environment here: its answers are scripted
from a finite alphabet and every script up to a length is explored."""
import contextlib
import itertools
import math
import numpy as np
from permaviss.sample_point_clouds import examples as ex
from permaviss.sample_point_clouds.examples import (
    take_sample, circle, random_circle, ball, random_sphere, random_cube,
    grid, grid_tridimensional, torus3D)

ID = "C21"
CHUNK = 4
LOW = [0., .125, .3, .6, .875, 1 - 2 ** -53]


class Script(object):
    """Uniform numbers in [0, 1): the script, repeated; after LONG answers to
    one call (a rejection loop) generic numbers close to one half."""
    LONG = 200

    def __init__(self, answers):
        self.a = list(answers)
        self.i = 0

    def one(self):
        if self.i >= self.LONG:
            v = .45 + .1 * (self.i * .6180339887498949 % 1.)
        else:
            v = self.a[self.i % len(self.a)]
        self.i += 1
        return v

    def rand(self, *shape):
        if not shape:
            return self.one()
        n = int(np.prod(shape))
        return np.array([self.one() for _ in range(n)]).reshape(shape)

    def size(self, size=None):
        if size is None:
            return self.one()
        return self.rand(*np.atleast_1d(size).tolist())

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.size(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return (low + np.floor((high - low) * self.size(size))).astype(
            int) if size is not None else int(low + (high - low) *
                                              self.one())

    def choice(self, a, *args, **k):
        n = a if np.ndim(a) == 0 else len(a)
        i = int(self.one() * n)
        return i if np.ndim(a) == 0 else a[i]


@contextlib.contextmanager
def scripted(answers):
    s = Script(answers)
    names = dict(rand=s.rand, random=s.size, random_sample=s.size,
                 uniform=s.uniform, randint=s.randint, ranf=s.size,
                 sample=s.size)
    old = {k: getattr(np.random, k) for k in names}
    for k, v in names.items():
        setattr(np.random, k, v)
    try:
        yield s
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)


def cases(tier):
    for n in range(1, 6):
        yield "greedy samples of plane points", dict(k="take", n=n,
                                                     tier=tier)
    L = 3 if tier == "quick" else 4
    for a in LOW:
        yield "scripted random numbers", dict(k="script", a=a, L=L)
    for n in range(1, 13):
        yield "deterministic shapes", dict(k="det", n=n)
    for seed in range(10 if tier == "quick" else 40):
        yield "seeded runs", dict(k="seed", seed=seed)


def shape(ctx, X, n, d, w):
    X = np.asarray(X, dtype=float)
    ctx.equal(X.shape, (n, d), "shape of the cloud", w)
    ctx.check(np.all(np.isfinite(X)), "coordinates are not finite", w)
    return X


def close(a, b, s=1.):
    return np.all(np.abs(np.asarray(a) - b) <= 1e-9 * max(1., abs(s)))


def verify_take(ctx, P, k, S, w):
    """S is a farthest point sample of P of size min(k, len(P))."""
    n = len(P)
    S = shape(ctx, S, min(k, n), P.shape[1], w)
    rest = P.tolist()
    chosen = []
    for row in S.tolist():
        if chosen:
            def gap(x):
                return min(math.dist(x, c) for c in chosen)
            best = max(gap(x) for x in rest)
            ctx.check(gap(row) >= best - 1e-9 * max(1., best),
                      "sample is not the farthest remaining point", w)
        ctx.check(row in rest, "sampled point is not in the cloud, or taken "
                  "twice", w)
        rest.remove(row)
        chosen.append(row)


class Reset(object):
    """ctx whose calls start the script anew"""

    def __init__(self, ctx, script):
        self.ctx, self.s = ctx, script

    def call(self, *a, **k):
        if self.s is not None:
            self.s.i = 0
        return self.ctx.call(*a, **k)

    def __getattr__(self, name):
        return getattr(self.ctx, name)


def random_shapes(ctx, n, w, tag, script=None):
    ctx = Reset(ctx, script)
    for r in (.5, 1., 3.):
        for d in (1, 2, 3, 4, 5, 6, 9):
            X = shape(ctx, ctx.call("ball", ball, n, r, d), n, d, w)
            ctx.check(np.all(np.linalg.norm(X, axis=1) <= r * (1 + 1e-9)),
                      "ball: point outside", w)
        for d in (2, 3, 4, 5, 7):
            X = shape(ctx, ctx.call("random_sphere", random_sphere, n, r, d),
                      n, d, w)
            ctx.check(close(np.linalg.norm(X, axis=1), r, r),
                      "random_sphere: point not at the radius", w)
        for eps in (0., .25):
            for c in (None, [0, 0], [3., -2.]):
                kw = dict() if c is None else dict(center=c)
                X = shape(ctx, ctx.call("random_circle", random_circle, n, r,
                                        eps, **kw), n, 2, w)
                t = np.linalg.norm(X - np.array(c or [0, 0]), axis=1)
                ctx.check(np.all(t >= r * (1 - 1e-9)) and
                          np.all(t <= r * (1 + eps) * (1 + 1e-9)),
                          "random_circle: point outside the annulus", w)
    for d in (1, 2, 3, 4, 6):
        X = shape(ctx, ctx.call("random_cube", random_cube, n, d), n, d, w)
        ctx.check(np.all(np.abs(X) <= .5), "random_cube: point outside", w)
    for a, b in ((1, 3), (.5, .75), (2., 2.)):
        X = shape(ctx, ctx.call("torus3D", torus3D, n, a, b), n, 3, w)
        t = (np.hypot(X[:, 0], X[:, 1]) - b) ** 2 + X[:, 2] ** 2
        ctx.check(close(t, a * a, a), "torus3D: point not on the torus", w)
    X = shape(ctx, ctx.call("torus3D", torus3D, n), n, 3, w)
    t = (np.hypot(X[:, 0], X[:, 1]) - 3) ** 2 + X[:, 2] ** 2
    ctx.check(close(t, 1.), "torus3D: default radii", w)
    ctx.tag(tag)


def signs(X):
    return set(tuple(r) for r in (np.asarray(X) > 0).tolist())


def run(case, ctx):
    k = case["k"]
    w = dict(case)
    if k == "take":
        n = case["n"]
        pts = [(0., 0), (1, 0), (2, 0), (0, 1), (1, 1), (2.5, 1.25)]
        for sub in itertools.combinations_with_replacement(pts, n):
            P = np.array(sub)
            for size in range(1, n + 2):
                for first in range(n):
                    with scripted([(first + .5) / n]):
                        S = ctx.call("take_sample", take_sample,
                                     np.copy(P), size)
                    ctx.state()
                    verify_take(ctx, P, size, S, dict(
                        w, cloud=sub, size=size, first=first))
        # larger clouds in three dimensions, real seeds
        for seed in range(5):
            G = np.array(list(itertools.product(range(3), repeat=3)),
                         dtype=float) * [1., 1.1, 1.3]
            for size in (1, 5, 12, 27, 40):
                S = ctx.call("take_sample", take_sample, G, size, seed=seed)
                T = ctx.call("take_sample", take_sample, G, size, seed=seed)
                ctx.state()
                verify_take(ctx, G, size, S, dict(w, size=size, seed=seed))
                ctx.check(np.array_equal(S, T), "take_sample: a seed does "
                          "not fix the result", w)
    elif k == "script":
        for tail in itertools.product(LOW, repeat=case["L"] - 1):
            ans = [case["a"]] + list(tail)
            if len(set(ans)) == 1:
                continue
            for n in (1, 3):
                with scripted(ans) as script:
                    random_shapes(ctx, n, dict(w, answers=ans),
                                  "scripted executions", script)
                ctx.state()
    elif k == "det":
        n = case["n"]
        for r in (.5, 1., 4.):
            X = shape(ctx, ctx.call("circle", circle, n, r), n, 2, w)
            ctx.check(close(np.linalg.norm(X, axis=1), r, r),
                      "circle: radius", w)
            ang = np.sort(np.mod(np.arctan2(X[:, 1], X[:, 0]) + 1e-9,
                                 2 * np.pi))
            gaps = np.diff(np.append(ang, ang[0] + 2 * np.pi))
            ctx.check(close(gaps, 2 * np.pi / n), "circle: not evenly "
                      "spaced", w)
            ctx.state()
        for m in range(1, 6):
            X = shape(ctx, ctx.call("grid", grid, n, m), n * m, 2, w)
            check_grid(ctx, X, (n, m), w)
            for q in range(1, 4):
                X = shape(ctx, ctx.call("grid_tridimensional",
                                        grid_tridimensional, n, m, q),
                          n * m * q, 3, w)
                check_grid(ctx, X, (n, m, q), w)
        try:
            torus3D(2, 3., 1.)
            ctx.fail("torus3D accepts a section larger than the torus", w)
        except ValueError:
            ctx.state()
    else:
        np.random.seed(case["seed"])
        st = np.random.get_state()
        random_shapes(ctx, 20, w, "seeded executions")
        # every part of the shape is reached
        X = random_sphere(300, 1., 3)
        ctx.equal(len(signs(X)), 8, "random_sphere: octants reached", w)
        X = random_cube(300, 3)
        ctx.equal(len(signs(X)), 8, "random_cube: octants reached", w)
        X = ball(300, 1., 3)
        ctx.equal(len(signs(X)), 8, "ball: octants reached", w)
        X = random_circle(200, 1., .2)
        ctx.equal(len(signs(X)), 4, "random_circle: quadrants reached", w)
        ctx.check(np.ptp(np.linalg.norm(X, axis=1)) > .05,
                  "random_circle: no noise", w)
        X = torus3D(300)
        ctx.equal(len(signs(X)), 8, "torus3D: octants reached", w)
        t = np.hypot(X[:, 0], X[:, 1])
        ctx.check(np.any(t > 3) and np.any(t < 3), "torus3D: one side only",
                  w)
        a = random_circle(9, 1., .3, seed=case["seed"])
        np.random.seed(999)
        np.random.rand(3)
        b = random_circle(9, 1., .3, seed=case["seed"])
        ctx.check(np.array_equal(a, b), "random_circle: a seed does not fix "
                  "the result", w)
        c = random_circle(9, 1., .3, seed=case["seed"] + 1)
        ctx.check(not np.array_equal(a, c), "random_circle: seed ignored", w)
        # so does a seed of numpy's generator when none is given
        G = np.array(list(itertools.product(range(9), repeat=2)), dtype=float)
        for f, args in ((random_circle, (6, 1., .3)), (ball, (6, 1., 3)),
                        (random_sphere, (6, 1., 3)), (random_cube, (6, 3)),
                        (torus3D, (6,)), (take_sample, (G, 3))):
            out = []
            for _ in range(2):
                np.random.seed(case["seed"])
                out.append(ctx.call(f.__name__, f, *args))
            ctx.check(np.array_equal(out[0], out[1]), "%s: numpy's seed does "
                      "not fix the result" % f.__name__, w)
        np.random.set_state(st)
        ctx.state()
    ctx.sample(w)


def check_grid(ctx, X, dims, w):
    ctx.state()
    want = sorted(tuple(i - (d - 1) / 2. for i, d in zip(ix, dims))
                  for ix in itertools.product(*[range(d) for d in dims]))
    got = sorted(tuple(r) for r in X.tolist())
    ctx.check(close(np.array(got), np.array(want)), "grid nodes", w)
