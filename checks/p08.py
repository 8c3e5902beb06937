from harness.worker import blob, u32

from .mats import *

RULE = "a case is non-trivial when a batch of operands was evaluated and every result compared with integer arithmetic; distinct by operation, lane arrangement and operand block"
ASSUME = ["scalar reduction is asked only for operands its callers can produce (up to a product plus an element)", "NEON is compiled from the repository's macros against an emulated intrinsics header (shim/arm_neon.h)"]
EXHAUSTIVE = ["fq_red on 0..126+127*127, fq_inv and br_mul/br_red on all elements, W_RED127_ on every sum in every lane, barrett products on every pair, matrix x map on every (value, coefficient, column), lex_minimize on every (lead, value), elimination on every (entry, factor, pivot row entry)"]
INV = np.array([0] + [pow(x, -1, Q) for x in range(1, Q)])


def scalar(env, c):
    w = env.w
    k = c["k"]
    if k == "red":
        x = np.arange(0, 126 + 127 * 127 + 1, dtype=np.uint16)
        env.eq(w.call(30, blob(x.tobytes()), "fq_red").blob(), by(x % Q), "reduction")
    elif k == "inv":
        x = np.arange(1, Q)
        got = np.frombuffer(w.call(31, blob(by(x)), "fq_inv").blob(), np.uint8)
        env.eq(by(got), by(INV[1:]), "inverse")
        env.need(((got.astype(int) * x) % Q == 1).all(), "inverse times element is not one")
    elif k == "mul":
        a, b = np.repeat(np.arange(Q), Q), np.tile(np.arange(Q), Q)
        env.eq(w.call(36, blob(by(np.stack([a, b], 1))), "br_mul, br_red").blob(), by(a * b % Q), "product")
    elif k == "red16":
        x = np.arange(0, 126 * 127 + 1, dtype=np.uint16)
        env.eq(w.call(37, blob(x.tobytes()), "br_red16").blob(), (x % Q).astype(np.uint16).tobytes(), "16-bit reduction")
    return True


def lanes(env, c):
    w = env.w
    g = rng("lanes", c["s"])
    if c["k"] == "sum":                        # sums of two elements, every sum in every lane, neighbours varying
        x = np.concatenate([(np.arange(32) + i) % 253 for i in range(253)] + [g.integers(0, 253, 32 * 400)] + [np.full(32, i) for i in range(253)])
        pat = g.choice([0, 126, 127, 128, 252, 253 - 1], 32 * 400)
        x = np.concatenate([x, pat])
        env.eq(w.call(40, blob(by(x)), "W_RED127_").blob(), by(x % Q), "reduction of sums")
    else:                                      # 16-bit lanes: every pair in varying lanes
        a, b = np.repeat(np.arange(Q), Q), np.tile(np.arange(Q), Q)
        o = g.permutation(len(a)) if c["s"] else np.arange(len(a))
        a, b = a[o], b[o]
        n = -len(a) % 16
        a, b = np.concatenate([a, a[:n]]).astype(np.uint16), np.concatenate([b, b[:n]]).astype(np.uint16)
        got = np.frombuffer(w.call(41, blob(a.tobytes()) + blob(b.tobytes()), "barrett_mul_u16, barrett_red8").blob(), np.uint16)
        env.eq(got.tobytes(), (a.astype(np.int64) * b % Q).astype(np.uint16).tobytes(), "products in lanes")
    return True


def products(env, c):
    """matrix times map: every value with every coefficient in every column"""
    w, mp = env.w, env.mp
    N, K = mp.N, mp.K
    g = rng("prod", c["s"])
    p = g.permutation(N).astype(np.uint16) if c["s"] else np.arange(N, dtype=np.uint16)
    w.setmode(0, c["p"])
    for t in range(c["from"], c["from"] + c["n"]):
        m = ((np.arange(N) + t) % 126 + 1).astype(np.uint8)
        for h in (0, K)[:1 if K >= Q else 2]:
            G = (np.arange(K)[:, None] + h + np.zeros(N, np.int64)) % Q
            want = act_on(G, (m, p))
            env.eq(w.call(60, blob(by(G)) + blob(m.tobytes()) + blob(p.tobytes()), "generator_monomial_mul").blob(), by(want), "matrix times map")
            a = m[:K], p[:K]
            H = np.frombuffer(w.call(65, blob(by(G)) + blob(a[0].tobytes()) + blob(a[1].tobytes()), "apply_action_to_G").blob(), np.uint8).reshape(K, N)
            env.eq(by(H[:, :K]), by(G[:, a[1]] * a[0].astype(np.int64) % Q), "selected columns times coefficients")
    return True


def minimize(env, c):
    """columns whose leading entry is l, with every value below it"""
    w, mp = env.w, env.mp
    N, K = mp.N, mp.K
    g = rng("min", c["s"])
    cols = np.arange(min(126, N - K), dtype=np.uint16)
    for h in range(c["rows"]):
        top = int(g.integers(0, K - 1)) if h else 0
        G = g.integers(0, Q, (K, N))
        G[:top] = 0
        lead = (cols.astype(np.int64) + c["s"]) % 126 + 1
        G[top, cols] = lead
        n = K - top - 1
        G[top + 1:, :] = (np.arange(n)[:, None] + h * n) % Q
        V = np.frombuffer(w.call(62, blob(by(G)) + blob(cols.tobytes()), "lex_minimize").blob(), np.uint8).reshape(K, N - K)
        env.eq(by(V[:, :len(cols)]), by(G[:, cols] * INV[lead] % Q), "columns scaled to a leading one")
    return True


def eliminate(env, c):
    """every (entry, factor, pivot row entry): rows 1.. are already reduced but for the first column"""
    w, mp = env.w, env.mp
    N, K = mp.N, mp.K
    g = rng("elim", c["s"])
    w.setmode(0, c["p"])
    n = N - K
    tot = Q * Q * Q
    per = (K - 1) * n
    for t in range(c["part"], -(-tot // per) if c["of"] else c["part"] + c["n"], c["of"] or 1):
        # rows take factors, columns take pivot row entries, entries run through everything
        sc = (np.arange(K - 1) + t * 31) % Q
        v = (np.arange(n) * 5 + t) % Q
        x = (np.arange(per).reshape(K - 1, n) * 11 + t * 7) % Q if c["s"] % 2 else g.integers(0, Q, (K - 1, n))
        p = 1 + (t * 13 + c["s"]) % 126
        G = np.zeros((K, N), np.int64)
        G[0, 0], G[1:, 0] = p, sc
        G[np.arange(1, K), np.arange(1, K)] = 1
        G[0, K:], G[1:, K:] = v, x
        want = np.zeros((K, N), np.int64)
        want[np.arange(K), np.arange(K)] = 1
        nv = v * INV[p] % Q
        want[0, K:] = nv
        want[1:, K:] = (x - sc[:, None] * nv) % Q
        q = w.call(61, blob(by(G)), "generator_RREF")
        env.need(q.u32() != 0, "a matrix of full rank was reported as deficient")
        env.eq(q.blob(), by(want), "elimination of the first column")
    return True


def pivrow(env, c):
    """every pivot value with every entry of its row"""
    w, mp = env.w, env.mp
    N, K = mp.N, mp.K
    for t in range(c["from"], c["from"] + c["n"]):
        G = np.zeros((K, N), np.int64)
        p = (np.arange(K) + t) % 126 + 1
        G[np.arange(K), np.arange(K)] = p
        G[:, K:] = (np.arange(N - K) + (t // 2) * 3) % Q
        want = G * INV[p][:, None] % Q
        q = w.call(61, blob(by(G)), "generator_RREF")
        env.need(q.u32() != 0, "a matrix of full rank was reported as deficient")
        env.eq(q.blob(), by(want), "normalised rows")
    return True


def strat_elim(env):
    return st.fixed_dictionaries(dict(s=seed32, part=st.integers(0, 1 << 20), of=st.just(0), n=st.integers(1, 4), p=st.sampled_from([0, 255, 127])))


def strat_prod(env):
    return st.fixed_dictionaries(dict(s=st.integers(1, 1 << 32), n=st.integers(1, 3), p=st.sampled_from([0, 255, 127]), **{"from": st.integers(0, 125)}))


def scenarios(tier):
    S = []
    q = tier == "quick"
    for impl in ("ref", "avx2", "neon"):
        for ps in ("1B", "3B", "5B"):
            sp = Spec(impl, ps, groups=["api", "fq", "code"] + (["fqopt", "vec"] if impl != "ref" else []))
            ks = ["red", "inv"] + (["mul", "red16"] if impl != "ref" else [])
            S.append(Scenario(f"scalar/{ps[0]}", scalar, None, sp, n=(0, 0), cost=1, fixed=[dict(k=k) for k in ks]))
            if impl != "ref":
                S.append(Scenario(f"lanes/{ps[0]}", lanes, lambda env: st.fixed_dictionaries(dict(k=st.sampled_from(["sum", "product"]), s=seed32)), sp, n=(30, 3000), cost=2, fixed=[dict(k=k, s=s) for k in ("sum", "product") for s in range(3)]))
            full = ps == "1B" or not q
            S.append(Scenario(f"matrix x map/{ps[0]}", products, strat_prod, sp, n=(30, 2000), cost=5, fixed=[dict(s=0, p=0, n=14 if full else 2, **{"from": f}) for f in range(0, 126, 14)]))
            S.append(Scenario(f"leading one/{ps[0]}", minimize, None, sp, n=(0, 0), cost=3, fixed=[dict(s=s, rows=3) for s in ((0, 1) if q else range(126))]))
            S.append(Scenario(f"pivot row/{ps[0]}", pivrow, None, sp, n=(0, 0), cost=3, fixed=[dict(n=16 if ps == "1B" or not q else 2, **{"from": f}) for f in range(0, 252, 16)]))
            step = 1 if ps == "1B" or not q else {"3B": 3, "5B": 9}[ps]
            S.append(Scenario(f"elimination/{ps[0]}", eliminate, strat_elim, sp, n=(40, 3000), cost=8, fixed=[dict(s=s, part=p, of=8 * step, n=0, p=255 * (p & 1)) for s in (1, 2) for p in range(8)], parts=(1, 2)))
    return S
