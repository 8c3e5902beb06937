"""Structured generator matrices with a known reduced row echelon form, and maps."""
import os

os.environ.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
import numpy as np

from .common import *

PIV = ["first", "random", "last", "alternate", "late1", "gap", "cluster", "ends", "skip0"]
VAL = ["random", "max", "ones", "sparse", "bits", "dup", "prop", "zeros", "prefix", "near", "unitlike", "mixed", "zerofirst", "lastrow"]
MIX = ["dense", "identity", "rowperm", "lower", "scaled", "reversed"]


def rng(*s):
    return np.random.Generator(np.random.PCG64(int.from_bytes(hashlib.blake2b("/".join(map(str, s)).encode(), digest_size=16).digest(), "little")))


def pivots(kind, K, N, r, g):
    """r pivot columns, increasing."""
    if kind == "first":
        p = range(r)
    elif kind == "last":
        p = range(N - r, N)
    elif kind == "alternate":
        o = int(g.integers(0, 2))
        p = [i for i in range(N) if (i + o) % 2 == 0][:r]
    elif kind == "late1":                      # the last pivot in the last column
        p = list(range(r - 1)) + [N - 1]
    elif kind == "gap":                        # one column skipped somewhere
        h = int(g.integers(0, r + 1))
        p = [i for i in range(r + 1) if i != h]
    elif kind == "cluster":
        a = int(g.integers(0, N - r + 1))
        p = range(a, a + r)
    elif kind == "ends":
        h = int(g.integers(0, r + 1))
        p = list(range(h)) + list(range(N - (r - h), N))
    elif kind == "skip0":                      # the first columns are no pivots
        a = int(g.integers(1, 6))
        p = range(a, a + r)
    else:
        p = sorted(g.choice(N, r, replace=False).tolist())
    p = sorted(set(p))
    for i in range(N):
        if len(p) >= r:
            break
        if i not in p:
            p.append(i)
    return sorted(p)[:r]


def rref_of(c, K, N, r=None):
    """A reduced row echelon form of rank r (r x N) with the pivots and column structure asked for, and its pivot flags."""
    r = K if r is None else r
    g = rng("rref", c["s"])
    if r == 0:
        return np.zeros((0, N), np.int64), np.zeros(N, np.uint8)
    p = pivots(c["piv"], K, N, r, g)
    free = [i for i in range(N) if i not in set(p)]
    R = np.zeros((r, N), np.int64)
    for i, x in enumerate(p):
        R[i, x] = 1
    F = np.zeros((r, len(free)), np.int64)
    k = c["val"]
    n = len(free)
    if k in ("random", "dup", "prop", "near", "mixed", "prefix", "zerofirst", "lastrow"):
        F = g.integers(0, Q, (r, n))
    elif k == "max":
        F[:] = Q - 1
        F[g.random((r, n)) < 0.1] = 1
    elif k == "ones":
        F[:] = 1
    elif k == "sparse":
        F = g.integers(1, Q, (r, n)) * (g.random((r, n)) < 0.03)
    elif k == "bits":
        F = g.integers(0, 2, (r, n))
    elif k == "unitlike":
        for j in range(n):
            F[int(g.integers(0, r)), j] = int(g.integers(1, Q))
    if k in ("dup", "prop", "mixed") and n:
        src = g.integers(0, min(n, 4), n)
        for j in range(n):
            if k != "mixed" or g.random() < 0.5:
                F[:, j] = F[:, src[j]] * (1 if k == "dup" else int(g.integers(1, Q))) % Q
    if k in ("zeros", "mixed") and n:
        F = F if k == "mixed" else g.integers(0, Q, (r, n))
        for j in g.integers(0, n, max(1, n // 8)):
            F[:, j] = 0
    if k == "prefix" and r:                    # long common prefixes, possibly zero
        h = int(g.integers(1, r + 1))
        F[:h, :] = F[:h, :1] if g.random() < 0.5 else 0
    if k == "near" and r:                      # equal but for one entry
        F[:] = F[:, :1]
        for j in range(n):
            F[int(g.integers(0, r)), j] = int(g.integers(0, Q))
    if k == "zerofirst" and r:
        F[: int(g.integers(1, r + 1)), ::2] = 0
    if k == "lastrow" and r:                   # equal up to the last row
        F[:] = F[:, :1]
        F[r - 1] = g.integers(0, Q, n)
    for j, x in enumerate(free):               # below the staircase everything is zero
        m = x - j
        R[:m, x] = F[:m, j]
    flags = np.zeros(N, np.uint8)
    flags[p] = 1
    return R, flags


def invertible(kind, K, g):
    if kind == "identity":
        return np.eye(K, dtype=np.int64)
    if kind == "rowperm":
        return np.eye(K, dtype=np.int64)[g.permutation(K)]
    if kind == "reversed":
        return np.eye(K, dtype=np.int64)[::-1]
    if kind == "scaled":
        return np.eye(K, dtype=np.int64)[g.permutation(K)] * g.integers(1, Q, K)
    L = np.tril(g.integers(0, Q, (K, K)), -1) + np.diag(g.integers(1, Q, K))
    if kind == "lower":
        return L
    U = np.triu(g.integers(0, Q, (K, K)), 1) + np.eye(K, dtype=np.int64)
    return mul(L, U)[g.permutation(K)]


def mul(A, B):
    return (np.asarray(A, np.float64) @ np.asarray(B, np.float64)).astype(np.int64) % Q


def by(M):
    return np.asarray(M, np.uint8).tobytes()


def code(c, K, N):
    """Full-rank K x N matrix; returns (matrix, its reduced form, pivot flags)."""
    R, f = rref_of(c, K, N)
    g = rng("mix", c["s"])
    return mul(invertible(c["mix"], K, g), R), R, f


def codes(vals=VAL, pivs=PIV, mixes=MIX):
    return st.fixed_dictionaries(dict(s=seed32, piv=st.sampled_from(pivs), val=st.sampled_from(vals), mix=st.sampled_from(mixes)))


def all_kinds(step=1, off=0, vals=VAL, pivs=PIV):
    out = []
    for i, v in enumerate(vals):
        for j, p in enumerate(pivs):
            if (i + j) % step == off % step:
                out.append(dict(s=i * 31 + j, piv=p, val=v, mix=MIX[(i + 2 * j) % len(MIX)]))
    return out


MONO = ["random", "identity", "reverse", "rotate", "swap", "blocks", "scale"]


def monos():
    return st.fixed_dictionaries(dict(s=seed32, p=st.sampled_from(MONO), c=st.sampled_from(["random", "one", "max", "edge"])))


def monomap(m, N):
    """(coefficients, positions) as arrays"""
    g = rng("mono", m["s"])
    p = np.arange(N)
    k = m["p"]
    if k == "random":
        p = g.permutation(N)
    elif k == "reverse":
        p = p[::-1].copy()
    elif k == "rotate":
        p = np.roll(p, int(g.integers(1, N)))
    elif k == "swap":
        a, b = (int(x) for x in g.choice(N, 2, replace=False))
        p[a], p[b] = b, a
    elif k == "blocks":
        b = int(g.integers(2, 40))
        bl = [p[i:i + b] for i in range(0, N, b)]
        g.shuffle(tmp := list(range(len(bl))))
        p = np.concatenate([bl[i] for i in tmp])
    c = {"random": lambda: g.integers(1, Q, N), "one": lambda: np.ones(N, np.int64), "max": lambda: np.full(N, Q - 1), "edge": lambda: g.choice([1, 2, 63, 64, 125, 126], N)}[m["c"]]()
    return c.astype(np.uint8), p.astype(np.uint16)


def wire(m):
    from harness.worker import blob
    return blob(m[0].tobytes()) + blob(m[1].tobytes())


def unwire(r, n):
    c, p = r.blob(), r.blob()
    return np.frombuffer(c, np.uint8)[:n].copy(), np.frombuffer(p, np.uint16)[:n].copy()


def inv(m):
    c, p = m
    ic, ip = np.zeros_like(c), np.zeros_like(p)
    ip[p] = np.arange(len(p))
    ic[p] = [pow(int(x), -1, Q) for x in c]
    return ic, ip


def act_on(G, m):
    """column i goes to position p[i], scaled by c[i]"""
    R = np.zeros_like(G)
    R[:, m[1]] = G * m[0].astype(np.int64) % Q
    return R
