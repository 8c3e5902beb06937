from harness.worker import blob, u32

from .mats import *

RULE = "a case is non-trivial when maps (or an expanded seed) were compared with the composition, inverse, selection or expansion they are defined as; distinct by maps, matrix and seeds"
ASSUME = ["a map takes column i to position p[i] and scales it by c[i]; a partial action keeps, for each of the K information columns, where it comes from and its coefficient"]


def run_law(env, c):
    w, mp = env.w, env.mp
    N, K = mp.N, mp.K
    a, b = monomap(c["a"], N), monomap(dict(c["b"], s=c["b"]["s"] + 1), N)
    w.setmode(0, c["poison"])
    ab = unwire(w.call(52, wire(a) + wire(b), "monomial_mat_mul"), N)
    ia = unwire(w.call(53, wire(a), "monomial_mat_inv"), N)
    one = unwire(w.call(54, b"", "monomial_mat_id"), N)
    idn = (np.ones(N, np.uint8), np.arange(N, dtype=np.uint16))

    def same(x, y, what):
        env.eq(x[1].tolist(), y[1].tolist(), what + " (positions)")
        env.eq(x[0].tobytes(), y[0].tobytes(), what + " (coefficients)")
    same(one, idn, "identity")
    same(ia, inv(a), "inverse")
    for x, y, n in ((a, ia, "map and inverse"), (ia, a, "inverse and map")):
        same(unwire(w.call(52, wire(x) + wire(y), "monomial_mat_mul"), N), idn, n)
    for x, y, n in ((a, one, "map and identity"), (one, a, "identity and map")):
        same(unwire(w.call(52, wire(x) + wire(y), "monomial_mat_mul"), N), a, n)
    d = monomap(dict(s=c["b"]["s"] + 2, p="random", c="random"), N)
    bd = unwire(w.call(52, wire(b) + wire(d), "monomial_mat_mul"), N)
    same(unwire(w.call(52, wire(ab) + wire(d), "monomial_mat_mul"), N), unwire(w.call(52, wire(a) + wire(bd), "monomial_mat_mul"), N), "associativity")
    # the action on matrices
    G = {"random": lambda g: g.integers(0, Q, (K, N)), "max": lambda g: np.full((K, N), Q - 1), "cols": lambda g: np.tile(np.arange(N) % Q, (K, 1)), "rows": lambda g: np.add.outer(np.arange(K), np.arange(N)) * 7 % Q}[c["G"]](rng("law", c["a"]["s"]))
    Ga = w.call(60, blob(by(G)) + wire(a), "generator_monomial_mul").blob()
    env.eq(Ga, by(act_on(G, a)), "matrix times map")
    Gab = w.call(60, blob(Ga) + wire(b), "generator_monomial_mul").blob()
    env.eq(Gab, w.call(60, blob(by(G)) + wire(ab), "generator_monomial_mul").blob(), "matrix times composed map")
    env.eq(w.call(60, blob(Ga) + wire(ia), "generator_monomial_mul").blob(), by(G), "matrix times map times inverse")
    env.eq(w.call(60, blob(by(G)) + wire(one), "generator_monomial_mul").blob(), by(G), "matrix times identity")
    return True


def strat_law(env):
    return st.fixed_dictionaries(dict(a=monos(), b=monos(), G=st.sampled_from(["random", "max", "cols", "rows"]), poison=st.sampled_from([0, 255, 85])))


def run_action(env, c):
    """a map followed by a partial action is the selection from the composed map; applying it selects columns"""
    w, mp = env.w, env.mp
    N, K = mp.N, mp.K
    a, e = monomap(c["a"], N), monomap(c["e"], N)
    w.setmode(0, c["poison"])
    g = rng("sel", c["s"])
    dst = np.sort(g.choice(N, K, replace=False)) if c["dst"] == "random" else np.arange(K) if c["dst"] == "first" else np.arange(N - K, N)

    def select(m):
        src = np.zeros(N, np.int64)
        src[m[1]] = np.arange(N)
        s = src[dst]
        return m[0][s].copy(), s.astype(np.uint16)
    bar = select(e)
    out = unwire(w.call(55, wire(a) + blob(bar[0].tobytes()) + blob(bar[1].tobytes()), "monomial_compose_action"), K)
    full = ((a[0].astype(np.int64) * e[0][a[1]] % Q).astype(np.uint8), e[1][a[1]])
    want = select(full)
    env.eq(out[1].tolist(), want[1].tolist(), "positions of the composed action")
    env.eq(out[0].tobytes(), want[0].tobytes(), "coefficients of the composed action")
    G = rng("actG", c["s"]).integers(0, Q, (K, N)) if c["s"] % 3 else np.tile(1 + np.arange(N) % 126, (K, 1))
    H = np.frombuffer(w.call(65, blob(by(G)) + blob(bar[0].tobytes()) + blob(bar[1].tobytes()), "apply_action_to_G").blob(), np.uint8).reshape(K, N)
    rest = [j for j in range(N) if j not in set(bar[1].tolist())]
    env.eq(by(H[:, :K]), by(G[:, bar[1]] * bar[0].astype(np.int64) % Q), "columns of the information set")
    env.eq(by(H[:, K:]), by(G[:, rest]), "remaining columns, in their order")
    return True


def strat_action(env):
    return st.fixed_dictionaries(dict(a=monos(), e=monos(), s=seed32, dst=st.sampled_from(["random", "first", "last"]), poison=st.sampled_from([0, 255, 85])))


def run_seed(env, c):
    w, mp = env.w, env.mp
    S, N = mp.S, mp.N
    w.setmode(0, c["poison"])
    sd, salt = xof(f"sd{c['s']}", S) if c["s"] else bytes(S), xof(f"salt{c['t']}", 2 * S) if c["t"] else b"\xff" * (2 * S)
    key = xof(f"pk{c['s']}", 2 * S)
    i = c["i"] % 65536 if c["wide"] else c["i"] % mp.T

    def one(sd, salt, i):
        x = unwire(w.call(50, blob(sd) + blob(salt) + u32(i), "monomial_mat_seed_expand_salt_rnd"), N)
        y = mp.mono(sd + salt + le16([i]))
        env.eq(x[0].tobytes(), y[0], f"coefficients of the map of round {i}")
        env.eq(x[1].tobytes(), y[1], f"positions of the map of round {i}")
        env.need(sorted(x[1].tolist()) == list(range(N)), "the expanded map is not a permutation")
        env.need(x[0].min() >= 1 and x[0].max() <= 126, "the expanded map has a coefficient outside 1..126")
        return x[0].tobytes(), x[1].tobytes()

    def two(key):
        x = unwire(w.call(51, blob(key), "monomial_mat_seed_expand_prikey"), N)
        y = mp.mono(key)
        env.eq(x[0].tobytes(), y[0], "coefficients of a private map")
        env.eq(x[1].tobytes(), y[1], "positions of a private map")
        return x[0].tobytes(), x[1].tobytes()
    a, b = one(sd, salt, i), two(key)
    for p in sorted({c["p"] % S, 0, S - 1}):             # every byte matters
        z = bytearray(sd)
        z[p] ^= c["x"]
        env.need(one(bytes(z), salt, i) != a, f"byte {p} of the seed does not matter")
    for p in sorted({c["p"] % (2 * S), 0, 2 * S - 1}):
        z = bytearray(salt)
        z[p] ^= c["x"]
        env.need(one(sd, bytes(z), i) != a, f"byte {p} of the salt does not matter")
        z = bytearray(key)
        z[p] ^= c["x"]
        env.need(two(bytes(z)) != b, f"byte {p} of a private seed does not matter")
    for bit in range(16):
        env.need(one(sd, salt, i ^ 1 << bit) != a, f"bit {bit} of the round index does not matter")
    # maps drawn from the generator
    w.seed(xof(f"g{c['s']}", 48))
    seen = set()
    for _ in range(3):
        x = unwire(w.call(59, b"", "monomial_mat_rnd"), N)
        env.need(sorted(x[1].tolist()) == list(range(N)), "a random map is not a permutation")
        env.need(x[0].min() >= 1 and x[0].max() <= 126, "a random map has a coefficient outside 1..126")
        seen.add((x[0].tobytes(), x[1].tobytes()))
    env.need(len(seen) == 3, "consecutive random maps are equal")
    return True


def strat_seed(env):
    return st.fixed_dictionaries(dict(s=seed32, t=seed32, i=st.one_of(st.sampled_from([0, 1, 255, 256, 257, 32767, 32768, 65535]), st.integers(0, 65535)), wide=st.booleans(), p=st.integers(0, 63), x=st.sampled_from([1, 2, 16, 64, 128, 255]), poison=st.sampled_from([0, 255])))


def run_bytes(env, c):
    """each byte of seed and salt in turn"""
    w, mp = env.w, env.mp
    S = mp.S
    seen = {}
    base = xof(f"eb{c['s']}", 3 * S)
    for p in [None] + list(range(3 * S)):
        z = bytearray(base)
        if p is not None:
            z[p] ^= c["x"]
        x = w.call(50, blob(bytes(z[:S])) + blob(bytes(z[S:])) + u32(c["i"]), "monomial_mat_seed_expand_salt_rnd").b
        env.need(x not in seen, f"changes of bytes {p} and {seen.get(x)} of seed and salt give the same map")
        seen[x] = p
        if p is not None and p < 2 * S:
            y = w.call(51, blob(bytes(z[:2 * S])), "monomial_mat_seed_expand_prikey").b
            env.need(y not in seen, f"changes of byte {p} of a private seed give the same map")
            seen[y] = p
    return True


def run_scalars(env, c):
    """every coefficient with every matrix value, in every column"""
    w, mp = env.w, env.mp
    N, K = mp.N, mp.K
    p = np.arange(N, dtype=np.uint16)
    rows = (np.arange(K)[:, None] + np.arange(N)[None, :]) % Q
    for s in range(c["part"], 126, c["of"]):
        for h in (0, K) if K < 126 + 1 else (0,):
            G = (rows + h) % Q
            m = ((np.arange(N) + s) % 126 + 1).astype(np.uint8)
            x = w.call(60, blob(by(G)) + wire((m, p)), "generator_monomial_mul").blob()
            env.eq(x, by(G * m.astype(np.int64) % Q), "products of all values and coefficients")
            a = m[:K], p[:K]
            x = np.frombuffer(w.call(65, blob(by(G)) + blob(a[0].tobytes()) + blob(a[1].tobytes()), "apply_action_to_G").blob(), np.uint8).reshape(K, N)
            env.eq(by(x[:, :K]), by(G[:, :K] * a[0].astype(np.int64) % Q), "products of all values and coefficients in an action")
    return True


def scenarios(tier):
    S = []
    q = tier == "quick"
    for ps, n in (("1B", 300), ("3B", 150), ("5B", 100)):
        for impl in ("ref", "avx2"):
            sp = Spec(impl, ps, groups=["api", "code", "mono"])
            fixed = [dict(a=dict(s=i * 7 + j, p=x, c=y), b=dict(s=j, p=MONO[(i + j) % 7], c="random"), G=["random", "max", "cols", "rows"][(i + j) % 4], poison=[0, 255][j & 1]) for i, x in enumerate(MONO) for j, y in enumerate(["random", "one", "max", "edge"])]
            S.append(Scenario(f"group/{ps[0]}", run_law, strat_law, sp, n=(n, n * 40), parts=(1, 3), cost=8, fixed=fixed))
            fixed = [dict(a=f["a"], e=f["b"], s=i, dst=["random", "first", "last"][i % 3], poison=f["poison"]) for i, f in enumerate(fixed)]
            S.append(Scenario(f"action/{ps[0]}", run_action, strat_action, sp, n=(n, n * 60), parts=(1, 3), cost=6, fixed=fixed))
            S.append(Scenario(f"seed/{ps[0]}", run_seed, strat_seed, sp, n=(n // 2, n * 20), parts=(1, 3), cost=5))
            S.append(Scenario(f"seed bytes/{ps[0]}", run_bytes, None, sp, n=(0, 0), cost=3, fixed=[dict(s=i, x=x, i=j) for i, (x, j) in enumerate([(1, 0), (128, 300), (255, 77)])]))
            S.append(Scenario(f"products/{ps[0]}", run_scalars, None, sp, n=(0, 0), cost=4, fixed=[dict(part=i, of=(126 if q and ps != "1B" else 18)) for i in range(0, 18, 3 if q else 1)]))
    return S + through_scenarios("responses")
