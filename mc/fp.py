"""Reference linear algebra over Z/p, in plain Python integers.

Deliberately boring: lists of lists, textbook elimination, no numpy and no code
shared with the library under test.
"""


def inv(a, p):
    """Inverse of a mod p by Fermat (p prime)."""
    return pow(a % p, p - 2, p) if p > 2 else a % p


def echelon(rows, p):
    """Row-reduced echelon form of a list of row vectors.

    Returns (reduced nonzero rows, list of pivot columns)."""
    rows = [[x % p for x in r] for r in rows]
    piv = []
    out = []
    ncol = len(rows[0]) if rows else 0
    rest = rows
    for c in range(ncol):
        k = None
        for i, r in enumerate(rest):
            if r[c]:
                k = i
                break
        if k is None:
            continue
        r = rest.pop(k)
        q = inv(r[c], p)
        r = [x * q % p for x in r]
        rest = [_sub(s, r, s[c], p) if s[c] else s for s in rest]
        out = [_sub(s, r, s[c], p) if s[c] else s for s in out]
        out.append(r)
        piv.append(c)
        if not rest:
            break
    return out, piv


def _sub(s, r, c, p):
    return [(x - c * y) % p for x, y in zip(s, r)]


def rank(rows, p):
    """Rank of a list of vectors."""
    basis = {}
    n = 0
    for r in rows:
        r = [x % p for x in r]
        for c, x in enumerate(r):
            if not r[c]:
                continue
            b = basis.get(c)
            if b is None:
                q = inv(r[c], p)
                basis[c] = [y * q % p for y in r]
                n += 1
                break
            q = r[c]
            r = [(y - q * z) % p for y, z in zip(r, b)]
    return n


def in_span(vec, rows, p):
    return rank(list(rows) + [vec], p) == rank(rows, p)


def nullspace(mat, ncol, p):
    """Basis of {x : mat x = 0}; mat is a list of rows of length ncol."""
    red, piv = echelon(mat, p) if mat else ([], [])
    free = [c for c in range(ncol) if c not in piv]
    out = []
    for f in free:
        v = [0] * ncol
        v[f] = 1
        for r, c in zip(red, piv):
            v[c] = -r[f] % p
        out.append(v)
    return out


def matmul(A, B, p):
    """A (list of rows) times B (list of rows)."""
    if not A:
        return []
    n = len(B[0]) if B else 0
    return [[sum(a[k] * B[k][j] for k in range(len(B))) % p
             for j in range(n)] for a in A]


def matvec(A, v, p):
    return [sum(a * x for a, x in zip(row, v)) % p for row in A]


def transpose(A, nrows_if_empty=0):
    if not A:
        return [[] for _ in range(nrows_if_empty)]
    return [list(c) for c in zip(*A)]


def columns(M, idx):
    return [[row[j] for row in M] for j in idx]


def submat(M, rows, cols):
    return [[M[i][j] for j in cols] for i in rows]


def bars_from_ranks(radii, rho):
    """Barcode multiset of a persistence module from its rank function.

    radii: sorted critical values r_0 < ... < r_n; the module is constant on
    [r_i, r_{i+1}) and zero before r_0 and from r_n on.
    rho(i, j): rank of the map from index i to index j, i <= j < n.
    """
    n = len(radii) - 1

    def r(i, j):
        if i < 0 or j >= n:
            return 0
        return rho(i, j)

    bars = []
    for i in range(n):
        for j in range(i + 1, n + 1):
            m = (r(i, j - 1) - r(i - 1, j - 1)) - (r(i, j) - r(i - 1, j))
            if m:
                assert m > 0
                bars.extend([(radii[i], radii[j])] * m)
    return sorted(bars)
