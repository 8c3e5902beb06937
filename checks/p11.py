from harness.worker import blob, u32

from .mats import *

RULE = "a case is non-trivial when the canonical form of a structured code was computed by the code under test and compared with the definition, and, where a map was drawn, with what a verifier derives from the response; distinct by (code structure, maps)"
ASSUME = ["codes have full rank and canonical values, as in every call the scheme makes", "the definition: every non-information column scaled to a leading one, columns sorted lexicographically"]


def canon(R, f):
    """the definition, on the known reduced form"""
    F = R[:, f == 0]
    cols = []
    for j in range(F.shape[1]):
        v = F[:, j]
        nz = np.flatnonzero(v)
        cols.append(by(v * pow(int(v[nz[0]]), -1, Q) % Q if len(nz) else v))
    cols.sort()
    return np.frombuffer(b"".join(cols), np.uint8).reshape(-1, R.shape[0]).T.copy()


def act_wire(a):
    return blob(a[0].tobytes()) + blob(a[1].tobytes())


# --- signer's commitment of G under a map, and the verifier's recomputation from another code of the same class
def run_pair(env, c):
    w, mp = env.w, env.mp
    K, N = mp.K, mp.N
    w.setmode(0, c["poison"])
    G, R, f = code(c["g"], K, N)
    if c["sf"]:
        # as in the scheme: a systematic code
        G = np.concatenate([np.eye(K, dtype=np.int64), rref_of(dict(c["g"], piv="first"), K, N)[0][:, K:]], 1)
    eph = monomap(c["e"], N)
    q = w.call(64, blob(by(G)) + wire(eph), "prepare_digest_input")
    V = q.blob()
    bar = unwire(q, K)
    mv, mc, mpos = mp.commit(by(G), eph[0].tobytes(), eph[1].tobytes())
    env.eq(V, mv, "canonical form of the signer's commitment")
    env.eq(bar[0].tobytes(), mc, "coefficients of the information set's map")
    env.eq(bar[1].tobytes(), mpos, "positions of the information set's map")
    # public code G' = RREF(G * Q); response = Q^-1 followed by the ephemeral map, on the information set
    Qs = monomap(c["q"], N)
    n, Gp, piv = mp.rref(by(act_on(G, Qs)))
    iq = inv(Qs)
    r = unwire(w.call(55, wire(iq) + act_wire(bar), "monomial_compose_action"), K)
    s = w.call(161, blob(Gp) + act_wire(r), "verifier's recomputation")
    env.need(s.u32() != 0, "the verifier found a deficient matrix")
    env.eq(s.blob(), V, "canonical form derived by the verifier")
    # the verifier may as well be given any other code of the same class
    if c["scale"]:
        t = (r[0].astype(np.int64) * c["scale"] % Q).astype(np.uint8)
        s = w.call(161, blob(Gp) + act_wire((t, r[1])), "verifier's recomputation")
        env.need(s.u32() != 0, "the verifier found a deficient matrix")
        env.eq(s.blob(), V, "canonical form after scaling the whole response")
    return True


def strat_pair(env):
    return st.fixed_dictionaries(dict(g=codes(), e=monos(), q=monos(), sf=st.booleans(), poison=st.sampled_from([0, 0xff, 0x55]), scale=st.sampled_from([0, 0, 2, 126, 77])))


# --- the two steps of the canonical form on a reduced matrix
def run_form(env, c):
    w, mp = env.w, env.mp
    K, N = mp.K, mp.N
    g = rng("form", c["g"]["s"])
    R, f = rref_of(c["g"], K, N)
    F = R[:, f == 0]
    free = np.flatnonzero(f == 0).astype(np.uint16)
    w.setmode(0, c["poison"])
    if c["kind"] in ("order", "scale", "both"):
        want = canon(R, f)
        if c["kind"] != "order":
            R = R.copy()
            R[:, free] = R[:, free] * g.integers(1, Q, len(free)) % Q
        if c["kind"] != "scale":
            free = free[g.permutation(len(free))]
        V = w.call(62, blob(by(R)) + blob(free.tobytes()), "lex_minimize").blob()
        A = np.frombuffer(V, np.uint8).reshape(K, N - K)
        for j in range(N - K):
            v = R[:, free[j]]
            nz = np.flatnonzero(v)
            x = v * pow(int(v[nz[0]]), -1, Q) % Q if len(nz) else v
            env.need((A[:, j] == x).all(), f"column {j} scaled wrongly: got {A[:6, j]} expected {x[:6]}")
        env.eq(w.call(63, blob(V), "lex_sort_cols").blob(), want.tobytes(), "sorted columns")
        return True
    # sorting alone: arbitrary column contents and initial orders
    n = N - K
    F = F.astype(np.uint8)
    cols = sorted(F[:, j].tobytes() for j in range(n))
    o = c["kind"]
    idx = list(range(n))
    if o == "desc":
        idx = idx[::-1]
    elif o == "rot":
        h = int(g.integers(0, n))
        idx = idx[h:] + idx[:h]
    elif o == "organ":
        idx = idx[::2] + idx[1::2][::-1]
    elif o == "swap":
        for _ in range(3):
            a, b = (int(x) for x in g.integers(0, n, 2))
            idx[a], idx[b] = idx[b], idx[a]
    elif o == "shuffle":
        g.shuffle(idx)
    V = np.frombuffer(b"".join(cols[i] for i in idx), np.uint8).reshape(n, K).T.copy()
    want = np.frombuffer(b"".join(cols), np.uint8).reshape(n, K).T.copy()
    env.eq(w.call(63, blob(V.tobytes()), "lex_sort_cols").blob(), want.tobytes(), f"columns sorted from {o} order")
    return True


KINDS = ["order", "scale", "both", "asc", "desc", "rot", "organ", "swap", "shuffle"]


def strat_form(env):
    return st.fixed_dictionaries(dict(g=codes(), kind=st.sampled_from(KINDS), poison=st.sampled_from([0, 0xff, 0x55])))


# --- columns that agree in every row but one: every row, every pair of leading values
def run_rows(env, c):
    w, mp = env.w, env.mp
    K, N = mp.K, mp.N
    n = N - K
    g = rng("rows", c["s"])
    base = g.integers(0, Q, K).astype(np.uint8)
    w.setmode(0, c["poison"])
    for h in range(c["from"], c["from"] + c["n"]):
        r = h % K
        V = np.repeat(base[:, None], n, 1)
        V[r] = g.integers(0, Q, n) if h % 3 else g.choice([0, 1, 63, 64, 126], n)
        if h % 2:
            V[r + 1:] = g.integers(0, Q, (K - r - 1, n))
        want = np.frombuffer(b"".join(sorted(V[:, j].tobytes() for j in range(n))), np.uint8).reshape(n, K).T.copy()
        env.eq(w.call(63, blob(V.tobytes()), "lex_sort_cols").blob(), want.tobytes(), f"columns that first differ in row {r}")
        Z = np.zeros((K, N), np.int64)                     # leading entry in row r, all values
        Z[r:, :] = g.integers(0, Q, (K - r, N))
        Z[r, :] = [1 + (j + h) % 126 for j in range(N)]
        free = np.arange(n, dtype=np.uint16) + (h % 2) * K
        V = np.frombuffer(w.call(62, blob(by(Z)) + blob(free.tobytes()), "lex_minimize").blob(), np.uint8).reshape(K, n)
        X = Z[:, free]
        want = X * np.array([pow(int(x), -1, Q) for x in X[r]]) % Q
        env.eq(V.tobytes(), by(want), f"columns with leading entry in row {r}")
    return True


def strat_rows(env):
    return st.fixed_dictionaries(dict(s=seed32, n=st.just(20), poison=st.sampled_from([0, 0xff]), **{"from": st.integers(0, 300)}))


def scenarios(tier):
    S = []
    q = tier == "quick"
    for ps, n in (("1B", 300), ("3B", 60), ("5B", 30)):
        K = PSETS[ps][2]
        for impl in ("ref", "avx2"):
            b = n if impl == "avx2" else n // 3
            sp = Spec(impl, ps, groups=["api", "code", "mono"])
            step = {"1B": 1, "3B": 3, "5B": 6}[ps] * (1 if impl == "avx2" else 3) if q else 1
            k = all_kinds(step)
            fixed = [dict(g=x, e=dict(s=i, p=MONO[(i // 2) % 7], c=["random", "max", "one", "edge"][i % 4]), q=dict(s=i, p="random", c="random"), sf=False, poison=[0, 255][i % 2], scale=[0, 5][i % 2]) for i, x in enumerate(k)]
            fixed += [dict(f, sf=True) for f in fixed[::9]]
            S.append(Scenario(f"pair/{ps[0]}", run_pair, strat_pair, sp, n=(b, b * 40), parts=(2 if ps == "1B" else 1, 6), cost=10, fixed=fixed))
            fixed = [dict(g=dict(x, s=x["s"] + 7 * j), kind=kd, poison=[0, 255][j % 2]) for j, kd in enumerate(KINDS) for x in all_kinds(3 * step, j, pivs=PIV[:2])]
            S.append(Scenario(f"form/{ps[0]}", run_form, strat_form, sp, n=(b, b * 60), parts=(1, 4), cost=8, fixed=fixed))
            S.append(Scenario(f"rows/{ps[0]}", run_rows, strat_rows, sp, n=(b // 20 + 1, b * 3), parts=(1, 3), cost=6, fixed=[dict(s=5 + a, n=K // 4 + 1, poison=0, **{"from": a}) for a in range(0, K, K // 4 + 1)]))
    return S + through_scenarios("digest")
