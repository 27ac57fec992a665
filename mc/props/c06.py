"""C06: calls are pure functions of their arguments, whatever came before."""
import itertools
import numpy as np
import scipy.spatial.distance as sdist
from .. import clouds, ssrun, vr
from permaviss.covers.cubical_cover import generate_cover
from permaviss.gauss_mod_p.gauss_mod_p import (
    gauss_col, gauss_col_rad, gauss_barcodes)
from permaviss.gauss_mod_p.functions import (
    multiply_mod_p, solve_mod_p, solve_matrix_mod_p)
from permaviss.gauss_mod_p.arithmetic_mod_p import add_arrays_mod_c
from permaviss.persistence_algebra.barcode_bases import barcode_basis
from permaviss.persistence_algebra.image_kernel import image_kernel
from permaviss.persistence_algebra.module_persistence_homology import (
    module_persistence_homology, quotient)
from permaviss.persistence_algebra.PH_classic import persistent_homology
from permaviss.simplicial_complexes.differentials import complex_differentials
from permaviss.simplicial_complexes.flag_complex import flag_complex
from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips
from permaviss.spectral_sequence.local_chains_class import local_chains
from .c05 import fingerprint

ID = "C06"
CHUNK = 1


# --------------------------------------------------------------------------
# comparing and scribbling over arbitrary results

def freeze(x):
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.astype(float).tolist()
                if x.dtype != object else [freeze(y) for y in x.ravel()])
    if isinstance(x, barcode_basis):
        return ("basis", int(x.dim), vr.bars_of(x),
                freeze(np.asarray(x.coordinates)) if x.dim and
                x.prev_basis is not None else None)
    if isinstance(x, local_chains):
        return ("chains", [[int(i) for i in r] for r in x.ref],
                [np.asarray(c).tolist() for c in x.coord])
    if isinstance(x, (list, tuple)):
        return [freeze(y) for y in x]
    if isinstance(x, (np.integer, np.floating)):
        return float(x)
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    if hasattr(x, "page_dim_matrix"):
        return fingerprint(x)
    if isinstance(x, (int, float, str, type(None), range)):
        return x
    return repr(type(x))


def scribble(x, depth=0, seen=None):
    """Overwrite every array reachable from a result."""
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 12:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype != object and x.flags.writeable:
            x[...] = 1
        elif x.dtype == object:
            for y in x.ravel():
                scribble(y, depth + 1, seen)
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y, depth + 1, seen)
        if isinstance(x, list) and depth:
            x.reverse()
    elif hasattr(x, "__dict__"):
        for y in list(vars(x).values()):
            scribble(y, depth + 1, seen)


# --------------------------------------------------------------------------
# the operations: name -> (make arguments, function)

def cloud_a():
    return clouds.polygon(6, rot=.3)


def cloud_b():
    return np.array([[0., 0], [1, 0], [1, 1], [0, 1], [2, .4], [2.1, 1.2]])


def dist(X):
    return sdist.squareform(sdist.pdist(X))


def bases():
    A = barcode_basis(np.array([[0., 3], [0, 2], [1, 3]]))
    B = barcode_basis(np.array([[0., 2], [0, 3], [1, 3]]))
    F = np.array([[1., 1, 0], [1, 0, 0], [0, 0, 1]])
    return A, B, F


def op_ss(X, r, dim, div, p):
    def make():
        return [X(), r, dim, div, r, p]
    return make, ssrun.create_MV_ss


def ph_args(X, r, p):
    def make():
        C, R = vietoris_rips(dist(X()), r, 2)
        return [complex_differentials(C, p), R, r, p]
    return make


def ik_args(p, start):
    def make():
        A, B, F = bases()
        return [A, B, F, p, start]
    return make


def quot_args(p):
    def make():
        A, B, F = bases()
        B.sort()
        Im, Ker, _ = image_kernel(A, B, F[[1, 0, 2]], p)
        full = barcode_basis(np.copy(B.barcode), B, np.identity(B.dim))
        return [full, Im, p]
    return make


def mph_args(p):
    def make():
        base = [barcode_basis(np.array([[0., 4], [1, 4]])),
                barcode_basis(np.array([[1., 4], [2, 4], [2, 3]])),
                barcode_basis(np.array([[3., 4]]))]
        return [[0, np.array([[1., 1, 0], [p - 1, p - 1, 0]]),
                 np.array([[1.], [p - 1], [0]])], base, p]
    return make


def rect(p):
    return lambda: [np.array([[1., 2, 0, 1], [3, 1, 1, 0], [0, 2, 4, 1]]), p]


OPS = {}
for _p in (2, 3, 5):
    OPS["ring p=%d" % _p] = op_ss(cloud_a, 1.05, 2, 2, _p)
    OPS["persistent homology p=%d" % _p] = (ph_args(cloud_a, 1.8, _p),
                                            persistent_homology)
    OPS["image and kernel p=%d" % _p] = (ik_args(_p, 0), image_kernel)
    OPS["gauss_col p=%d" % _p] = (rect(_p), gauss_col)
    OPS["homology of modules p=%d" % _p] = (mph_args(_p),
                                            module_persistence_homology)
OPS["block p=2"] = op_ss(cloud_b, 1.3, 2, 3, 2)
OPS["block p=3"] = op_ss(cloud_b, 1.5, 3, 2, 3)
OPS["relative image"] = (ik_args(3, 1), image_kernel)
OPS["quotient"] = (quot_args(2), quotient)
OPS["cover"] = (lambda: [2, .7, cloud_a()], generate_cover)
OPS["cover 3"] = (lambda: [3, .4, cloud_b()], generate_cover)
OPS["rips"] = (lambda: [dist(cloud_a()), 1.8, 2], vietoris_rips)
OPS["rips b"] = (lambda: [dist(cloud_b()), 1.5, 3], vietoris_rips)
OPS["flag complex"] = (lambda: [
    np.array([[0, 1], [0, 2], [1, 2], [2, 3]]), 4, 2], flag_complex)
OPS["differentials"] = (lambda: [
    vietoris_rips(dist(cloud_b()), 1.5, 2)[0], 3], complex_differentials)
OPS["gauss_col_rad"] = (lambda: [
    np.array([[1., 1, 2], [0, 1, 1], [0, 0, 0]]), np.array([0., 1, 2]), 2,
    3], gauss_col_rad)
OPS["gauss_barcodes"] = (lambda: [
    np.array([[1., 0, 1], [0, 1, 1]]), np.array([[0., 3], [1, 3]]),
    np.array([[0., 3], [1, 3], [1, 3]]), 2, 3], gauss_barcodes)
OPS["multiply"] = (lambda: [np.array([[1., 2], [3, 4]]),
                            np.array([[5., 6], [7, 8]]), 5], multiply_mod_p)
OPS["solve"] = (lambda: [np.array([[1., 2], [3, 4]]),
                         np.array([[5.], [6]])[:, 0], 5], solve_mod_p)
OPS["solve matrix"] = (lambda: [np.array([[1., 2], [3, 4]]),
                                np.array([[5., 6], [1, 2]]), 5],
                       solve_matrix_mod_p)
OPS["add arrays"] = (lambda: [np.array([[1., 2], [3, 4]]),
                              np.array([[5., 6], [7, 8]]), 5],
                     add_arrays_mod_c)
NAMES = list(OPS)
SLOW = [k for k in NAMES if k.startswith(("ring", "block"))]


def variations():
    """Calls that differ from a base call in one argument only."""
    G = {}

    def ss(X, r=1.3, dim=2, div=2, ov=1.3, p=3):
        return (lambda: [X(), r, dim, div, ov, p]), ssrun.create_MV_ss

    def wide():
        return clouds.grid(5, 3) * 1. + np.array([[.07, .03]]) * np.arange(
            15)[:, None] % .1

    def moved():
        X = cloud_b()
        X[-1] += .3
        return X
    G["spectral sequence"] = dict(
        base=ss(cloud_b), r=ss(cloud_b, r=1.05), r0=ss(cloud_b, r=1.25),
        dim=ss(cloud_b, dim=1), dim3=ss(cloud_b, dim=3),
        div=ss(cloud_b, div=3), div1=ss(cloud_b, div=1),
        ov=ss(cloud_b, ov=1.5), p2=ss(cloud_b, p=2), p7=ss(cloud_b, p=7),
        moved=ss(moved), order=ss(lambda: np.copy(cloud_b()[::-1])),
        swap=ss(lambda: np.copy(cloud_b()[:, ::-1])),
        scaled=ss(lambda: cloud_b() * .9),
        shifted=ss(lambda: cloud_b() + 3),
        lifted=ss(lambda: np.append(cloud_b(), [[1.]] * 6, axis=1)),
        fewer=ss(lambda: cloud_b()[:-1]), neg=ss(lambda: -cloud_b()))
    G["covers"] = {}
    for name, X in (("wide", wide), ("tall", lambda: np.copy(
            wide()[:, ::-1])), ("reversed", lambda: np.copy(wide()[::-1])),
            ("fewer", lambda: wide()[:-1]), ("scaled", lambda: wide() * 2)):
        for div in (2, 3, 4):
            for ov in (.5, .7):
                G["covers"]["%s %d %s" % (name, div, ov)] = (
                    lambda X=X, div=div, ov=ov: [div, ov, X()],
                    generate_cover)
    G["rips"] = {}
    G["homology"] = {}
    for name, X in (("a", cloud_a), ("b", cloud_b), ("moved", moved),
                    ("reversed", lambda: np.copy(cloud_b()[::-1])),
                    ("scaled", lambda: cloud_b() * .9)):
        for r in (1.25, 1.8):
            for d in (1, 2):
                G["rips"]["%s %s %d" % (name, r, d)] = (
                    lambda X=X, r=r, d=d: [dist(X()), r, d], vietoris_rips)
            for p in (2, 3, 5):
                G["homology"]["%s %s %d" % (name, r, p)] = (
                    ph_args(X, r, p), persistent_homology)
    G["differentials"] = {}
    for name, X in (("a", cloud_a), ("b", cloud_b), ("moved", moved)):
        for d in (1, 2, 3):
            for p in (2, 3, 5):
                G["differentials"]["%s %d %d" % (name, d, p)] = (
                    lambda X=X, d=d, p=p: [vietoris_rips(
                        dist(X()), 1.8, d)[0], p], complex_differentials)
    G["matrices"] = {}
    for p in (2, 3, 5, 7):
        for name, M in (("rect", [[1., 2, 0, 1], [3, 1, 1, 0], [0, 2, 4, 1]]),
                        ("other", [[2., 2, 0, 1], [3, 1, 1, 0],
                                   [0, 2, 4, 1]]),
                        ("tall", [[1., 3, 0], [2, 1, 2], [0, 1, 4],
                                  [1, 0, 1]])):
            G["matrices"]["gauss %s %d" % (name, p)] = (
                lambda M=M, p=p: [np.array(M), p], gauss_col)
    for g in G:
        for k, v in G[g].items():
            OPS["%s: %s" % (g, k)] = v
    return {g: ["%s: %s" % (g, k) for k in G[g]] for g in G}


GROUPS = variations()
CORE = ["ring p=2", "ring p=3", "ring p=5", "block p=3",
        "persistent homology p=2", "persistent homology p=3",
        "image and kernel p=5", "homology of modules p=3", "cover", "rips",
        "gauss_col p=5", "relative image"]


def do(ctx, name, w, mess=False):
    """Run one operation, check its arguments, return the frozen result."""
    make, f = OPS[name]
    args = make()
    before = freeze(args)
    np.random.seed(17)
    rs = np.random.get_state()[1].tolist()
    out = ctx.call(name, f, *args)
    ctx.check(freeze(args) == before, "%s modified its arguments" % name, w)
    ctx.check(np.random.get_state()[1].tolist() == rs,
              "%s consumed random numbers" % name, w)
    res = freeze(out)
    if mess:
        scribble(out)
        scribble(args)
    return res


_fresh = {}


def fresh(ctx, name):
    """Result of the operation in a process that has done nothing else."""
    if name not in _fresh:
        import os
        import pickle
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                make, f = OPS[name]
                data = pickle.dumps(freeze(f(*make())))
                with os.fdopen(wr, "wb") as h:
                    h.write(data)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd, "rb") as h:
            data = h.read()
        os.waitpid(pid, 0)
        if not data:
            ctx.fail("%s raised an exception in a fresh process" % name)
        _fresh[name] = pickle.loads(data)
    return _fresh[name]


def warm(ctx):
    for n in OPS:
        fresh(ctx, n)


# --------------------------------------------------------------------------

def cases(tier):
    for a in NAMES:
        yield "all pairs of operations", dict(k="pairs", a=a)
    for a in CORE:
        for b in CORE:
            yield "all triples of core operations", dict(
                k="triples", a=a, b=b)
    if tier == "thorough":
        for a in CORE[:6]:
            for b in CORE[:6]:
                for c in CORE[:6]:
                    yield "all quadruples", dict(k="quads", a=a, b=b, c=c)
    for g, ops in GROUPS.items():
        for a in ops:
            yield "calls that differ in one argument", dict(k="group", g=g,
                                                            a=a)
    for p1 in (2, 3, 5):
        for p2 in (2, 3, 5):
            yield "two results alive at once", dict(k="alive", p1=p1, p2=p2)
    for lay in ("F", "view", "reversed view", "readonly", "int", "list",
                "float32"):
        yield "memory layouts of the input", dict(k="layout", lay=lay)


def run(case, ctx):
    warm(ctx)
    k = case["k"]
    w = dict(case)
    if k in ("pairs", "triples", "quads"):
        pre = [case[x] for x in "abc" if x in case]
        nxt = NAMES if k == "pairs" else CORE[:6] if k == "quads" else CORE
        for mess in (False, True):
            for last in nxt:
                ctx.state()
                for name in pre + [last]:
                    got = do(ctx, name, w, mess)
                    if got != fresh(ctx, name):
                        ctx.fail("%s gives a different result after the "
                                 "history %r (results overwritten: %s)" % (
                                     name, pre + [last], mess), w)
                    ctx.step()
        ctx.sample(dict(history=pre + [nxt[-1]]))
    elif k == "group":
        for last in GROUPS[case["g"]]:
            ctx.state()
            for name in (case["a"], last):
                if do(ctx, name, w) != fresh(ctx, name):
                    ctx.fail("%s gives a different result after %r" % (
                        name, case["a"]), w)
                ctx.step()
        ctx.sample(w)
    elif k == "alive":
        p1, p2 = case["p1"], case["p2"]
        X, Y = clouds.octa(.505), cloud_a()
        a = ssrun.compute(ctx, X, 1., 2, 2, 1., p1)
        fa = fingerprint(a)

        def cech(ss):
            out = []
            for n in range(1, 4):
                for q in range(2):
                    H = ss.Hom[1][n][q]
                    if H.dim:
                        out.append(freeze(ss.cech_diff(
                            n - 1, q, ss.Hom_reps[1][n][q][0])))
            return out
        ca = cech(a)
        b = ssrun.compute(ctx, Y, 1.05, 2, 2, 1.05, p2)
        fb = fingerprint(b)
        ctx.state()
        ctx.check(fingerprint(a) == fa, "an earlier result changed", w)
        ctx.equal(cech(a), ca, "Cech differential of an earlier result", w)
        scribble(b)
        ctx.check(fingerprint(a) == fa, "results share memory", w)
        c = ssrun.compute(ctx, X, 1., 2, 2, 1., p1)
        ctx.check(fingerprint(c) == fa, "repeating gives another result", w)
        ctx.equal(cech(c), ca, "Cech differential of a repeated result", w)
        d = ssrun.compute(ctx, Y, 1.05, 2, 2, 1.05, p2)
        ctx.check(fingerprint(d) == fb, "repeating gives another result", w)
        ctx.tag("results alive together")
        ctx.sample(w)
    else:
        lay = case["lay"]
        for name, X in (("a", cloud_a()), ("b", cloud_b()),
                        ("o", clouds.octa(.505)),
                        ("g", clouds.grid(3, 2))):
            if lay == "int":
                X = np.round(X * 2)
            if lay == "float32":
                X = np.round(X * 64) / 64
            base = fingerprint(ssrun.compute(ctx, np.copy(X), 1.2, 2, 2, 1.2,
                                             3))
            if lay == "F":
                Y = np.asfortranarray(X)
            elif lay == "view":
                big = np.zeros((2 * len(X), X.shape[1] + 2)) + 99
                big[::2, 1:-1] = X
                Y = big[::2, 1:-1]
            elif lay == "reversed view":
                Y = np.copy(X[::-1])[::-1]
            elif lay == "readonly":
                Y = np.copy(X)
                Y.flags.writeable = False
            elif lay == "int":
                Y = X.astype(int)
            elif lay == "float32":
                Y = X.astype(np.float32)
            else:
                Y = np.array(X.tolist())
            keep = np.copy(Y)
            got = fingerprint(ssrun.compute(ctx, Y, 1.2, 2, 2, 1.2, 3))
            ctx.state()
            ctx.check(np.array_equal(keep, Y), "the cloud was modified", w)
            ctx.check(got == base, "result depends on the memory layout (%s)"
                      % lay, w)
        ctx.sample(w)
