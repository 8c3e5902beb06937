from harness.worker import blob, u32

from .mats import *

RULE = "a case is non-trivial when an object was compressed and expanded and compared with the model's packing; distinct by (pivot set or permutation, values, buffer contents)"
ASSUME = ["the format is the model's: flags as one bit per column, then 7-bit values row by row over the non-pivot columns; positions then coefficients for actions; least significant bit first, unused bits zero"]
EXHAUSTIVE = ["every single entry position of an action (both fields) and, in thorough, of every matrix value, with an extreme value among zeros and the reverse"]


def matrix(c, K, N):
    R, f = rref_of(c, K, N)
    g = rng("fill", c["s"])
    v = c["fill"]
    free = np.flatnonzero(f == 0)
    if v != "rref":                                  # compression does not care about the staircase
        F = {"random": lambda: g.integers(0, Q, (K, len(free))), "max": lambda: np.full((K, len(free)), Q - 1), "zero": lambda: np.zeros((K, len(free)), np.int64), "alt": lambda: np.add.outer(np.arange(K), np.arange(len(free))) % 2 * (Q - 1),
             "one": lambda: (np.arange(K * len(free)) == int(g.integers(0, K * len(free)))).reshape(K, -1) * (Q - 1), "hole": lambda: (np.arange(K * len(free)) != int(g.integers(0, K * len(free)))).reshape(K, -1) * (Q - 1),
             "count": lambda: (np.arange(K * len(free)).reshape(K, -1) % Q), "bits": lambda: 1 << (g.integers(0, 7, (K, len(free))))}[v]()
        R = R.copy()
        R[:, free] = F
    return R, f


def run_mat(env, c):
    w, mp = env.w, env.mp
    K, N = mp.K, mp.N
    R, f = matrix(c, K, N)
    G = by(R)
    w.setmode(c["guard"], c["poison"])
    want = mp.pack_rref(G, f.tobytes())
    b = w.call(67, blob(G) + blob(f.tobytes()), "compress_rref").blob()
    env.eq(b, want, "compressed matrix")
    w.setmode(c["guard"], c["poison"] ^ 0xff)
    env.eq(w.call(68, blob(want), "expand_to_rref").blob(), G, "expanded matrix")
    q = w.call(66, blob(G) + blob(f.tobytes()), "generator_rref_compact / expand")
    env.eq(q.blob(), G, "matrix after compaction and expansion")
    free = np.flatnonzero(f == 0)
    env.eq(q.blob(), by(R[:, free]), "compacted columns")
    env.eq(un16(q.blob()), free.tolist(), "compacted column positions")
    return True


FILL = ["rref", "random", "max", "zero", "alt", "one", "hole", "count", "bits"]


def strat_mat(env):
    return st.fixed_dictionaries(dict(s=seed32, piv=st.sampled_from(PIV), val=st.sampled_from(VAL), fill=st.sampled_from(FILL), guard=st.integers(0, 1), poison=st.sampled_from([0, 0xff, 0x55, 0xaa])))


# --- any byte string of the right form survives expansion and compression
def run_bytes(env, c):
    w, mp = env.w, env.mp
    K, N = mp.K, mp.N
    g = rng("bytes", c["s"])
    f = np.zeros(N, np.uint8)
    f[pivots(c["piv"], K, N, K, g)] = 1
    fb = (N + 7) // 8
    flags = np.packbits(f, bitorder="little").tobytes()
    vals = g.integers(0, Q, K * (N - K))
    bits = ((vals[:, None] >> np.arange(7)) & 1).astype(np.uint8).reshape(-1)
    b = flags + np.packbits(bits, bitorder="little").tobytes()
    env.eq(len(b), mp.rb, "declared size")
    w.setmode(c["guard"], c["poison"])
    G = w.call(68, blob(b), "expand_to_rref").blob()
    A = np.frombuffer(G, np.uint8).reshape(K, N)
    free = np.flatnonzero(f == 0)
    env.eq(by(A[:, free]), by(vals), "expanded values")
    env.eq(by(A[:, f == 1]), by(np.eye(K)), "expanded pivot columns")
    env.eq(w.call(67, blob(G) + blob(f.tobytes()), "compress_rref").blob(), b, "bytes after expansion and compression")
    return True


def strat_bytes(env):
    return st.fixed_dictionaries(dict(s=seed32, piv=st.sampled_from(PIV), guard=st.integers(0, 1), poison=st.sampled_from([0, 0xff, 0x55])))


# --- actions
def action(c, K, N):
    g = rng("act", c["s"])
    k = c["p"]
    if k == "random":
        p = g.permutation(N)[:K]
    elif k == "first":
        p = np.arange(K)
    elif k == "last":
        p = np.arange(N - K, N)
    elif k == "desc":
        p = np.arange(N - 1, N - 1 - K, -1)
    elif k == "even":
        p = np.arange(0, N, 2)[:K]
    else:
        p = np.roll(np.arange(N), int(g.integers(0, N)))[:K]
    co = {"random": lambda: g.integers(1, Q, K), "one": lambda: np.ones(K, np.int64), "max": lambda: np.full(K, Q - 1), "count": lambda: np.arange(K) % 126 + 1, "bits": lambda: 1 << g.integers(0, 7, K)}[c["c"]]()
    return co.astype(np.uint8), p.astype(np.uint16)


def roundtrip(env, a, guard, poison, what):
    w, mp = env.w, env.mp
    w.setmode(guard, poison)
    want = mp.pack_act(a[0].tobytes(), a[1].tobytes())
    x = blob(a[0].tobytes()) + blob(a[1].tobytes())
    env.eq(w.call(56, x, "compress_monom_action").blob(), want, f"compressed action {what}")
    q = w.call(57, blob(want), "expand_to_monom_action")
    env.eq(q.blob(), a[0].tobytes(), f"coefficients of the expanded action {what}")
    env.eq(un16(q.blob()), a[1].tolist(), f"positions of the expanded action {what}")


def run_act(env, c):
    mp = env.mp
    K, N = mp.K, mp.N
    roundtrip(env, action(c, K, N), c["guard"], c["poison"], "")
    return True


def strat_act(env):
    return st.fixed_dictionaries(dict(s=seed32, p=st.sampled_from(["random", "first", "last", "desc", "even", "roll"]), c=st.sampled_from(["random", "one", "max", "count", "bits"]), guard=st.integers(0, 1), poison=st.sampled_from([0, 0xff, 0x55])))


# --- every place, every bit: nothing is shared between entries
def run_places(env, c):
    mp = env.mp
    K, N = mp.K, mp.N
    top = (1 << N.bit_length()) - 1
    for i in range(c["part"], K, c["of"]):
        for b in range(N.bit_length()):
            for inv_ in (0, 1):
                co, p = np.full(K, 127 * inv_, np.uint8), np.full(K, top * inv_, np.uint16)
                p[i] ^= 1 << b
                if b < 7:
                    co[i] ^= 1 << b
                roundtrip(env, (co, p), b & 1, 255 * inv_, f"with only bit {b} of entry {i} {'clear' if inv_ else 'set'}")
    return True


def run_mplaces(env, c):
    """single values of a matrix, spread over all places"""
    w, mp = env.w, env.mp
    K, N = mp.K, mp.N
    g = rng("mpl", c["s"])
    f = np.zeros(N, np.uint8)
    f[pivots(c["piv"], K, N, K, g)] = 1
    free = np.flatnonzero(f == 0)
    for i in range(c["part"], K * (N - K), c["step"]):
        F = np.zeros(K * (N - K), np.int64)
        F[i::7919] = Q - 1
        F[i] = 126 if i & 1 else 85
        R = np.zeros((K, N), np.int64)
        R[np.arange(K), np.flatnonzero(f)] = 1
        R[:, free] = F.reshape(K, -1)
        G = by(R)
        want = mp.pack_rref(G, f.tobytes())
        env.eq(w.call(67, blob(G) + blob(f.tobytes()), "compress_rref").blob(), want, f"compressed matrix with a value at {i}")
        env.eq(w.call(68, blob(want), "expand_to_rref").blob(), G, f"expanded matrix with a value at {i}")
    return True


def scenarios(tier):
    S = []
    q = tier == "quick"
    for ps, n in (("1B", 400), ("3B", 120), ("5B", 60)):
        for impl in ("ref", "avx2"):
            sp = Spec(impl, ps, groups=["api", "code", "mono"])
            fixed = [dict(s=i * 9 + j, piv=PIV[(i + j) % 9], val=VAL[(i * 5 + j) % len(VAL)], fill=x, guard=(i + j) & 1, poison=[0, 255, 85][(i + j) % 3]) for i, x in enumerate(FILL) for j in range({"1B": 9, "3B": 4, "5B": 2}[ps] if q else 9)]
            S.append(Scenario(f"matrix/{ps[0]}", run_mat, strat_mat, sp, n=(n, n * 60), parts=(2 if ps == "1B" else 1, 4), cost=8, fixed=fixed))
            S.append(Scenario(f"bytes/{ps[0]}", run_bytes, strat_bytes, sp, n=(n // 2, n * 40), parts=(1, 2), cost=6, fixed=[dict(s=i, piv=p, guard=i & 1, poison=[0, 255][i // 2 % 2]) for i, p in enumerate(PIV)]))
            S.append(Scenario(f"action/{ps[0]}", run_act, strat_act, sp, n=(n, n * 60), parts=(1, 2), cost=4, fixed=[dict(s=i * 5 + j, p=p, c=co, guard=j & 1, poison=[0, 255][i & 1]) for i, p in enumerate(["random", "first", "last", "desc", "even", "roll"]) for j, co in enumerate(["random", "one", "max", "count", "bits"])]))
            S.append(Scenario(f"entries/{ps[0]}", run_places, None, sp, n=(0, 0), cost=5, fixed=[dict(part=i, of=4) for i in range(4)]))
            st_ = {"1B": 53, "3B": 331, "5B": 1009}[ps] if q else {"1B": 1, "3B": 11, "5B": 31}[ps]
            S.append(Scenario(f"places/{ps[0]}", run_mplaces, None, sp, n=(0, 0), cost=9, fixed=[dict(s=i, piv=p, part=i * 7, step=st_ if q else st_ * 3) for i, p in enumerate(["first", "random", "alternate"])]))
            asan = Spec(impl, ps, "asan0", groups=["api", "code", "mono"])
            S.append(Scenario(f"asan-matrix/{ps[0]}", run_mat, strat_mat, asan, n=(30 if ps == "1B" else 8, 600), cost=6, fixed=fixed[:40] if ps == "1B" else [dict(f, guard=i & 1) for i, f in enumerate(fixed[:8])]))
            S.append(Scenario(f"asan-action/{ps[0]}", run_act, strat_act, asan, n=(40, 600), cost=6, fixed=[dict(s=i, p=p, c="max", guard=i & 1, poison=255) for i, p in enumerate(["random", "last", "desc", "even"])]))
    return S + through_scenarios("key", "responses")
