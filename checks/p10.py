from harness.worker import blob, u32

from .mats import *

RULE = "a case is non-trivial when a matrix was reduced and compared with the reduced form it was constructed from (or, for deficient rank, reported as such); distinct by (pivot set, column structure, row mixing, seed)"
ASSUME = ["matrices hold canonical values 0..126, as all callers ensure", "the expected form is the one the matrix was built from (row operations on a known reduced matrix), cross-checked by the model's elimination"]


def run(env, c):
    w, mp = env.w, env.mp
    K, N = mp.K, mp.N
    if c["def"]:
        r = {1: K - 1, 2: K - 2, 3: K // 2, 4: 1, 5: 0}[c["def"]]
        R, f = rref_of(c, K, N, r)
        g = rng("mix", c["s"])
        A = np.zeros((K, r), np.int64)
        A[:r] = invertible("identity" if c["mix"] == "identity" else "dense", r, g) if r else 0
        if c["mix"] not in ("identity", "scaled"):    # else: zero rows
            A[r:] = g.integers(0, Q, (K - r, r))
            if c["mix"] == "rowperm":
                A[r:] = A[:1]                         # duplicated rows
            A = A[g.permutation(K)]
        G = mul(A, R)
    else:
        G, R, f = code(c, K, N)
    w.setmode(0, c["poison"])
    q = w.call(61, blob(by(G)), "generator_RREF")
    r, out, piv = q.u32(), q.blob(), q.blob()
    env.label("deficient" if c["def"] else "full rank", "pivots " + c["piv"])
    if c["def"]:
        return env.need(r == 0, f"a matrix of rank {R.shape[0]} was reported as reduced") is None
    env.need(r != 0, "a matrix of full rank was reported as deficient")
    env.eq(piv, f.tobytes(), "pivot flags")
    env.eq(out, by(R), "reduced matrix")
    if c["s"] % 4 == 0:
        n, m, mpiv = mp.rref(by(G))
        env.need(n == K and m == out, "the model's elimination disagrees")
        q = w.call(61, blob(out), "generator_RREF")
        env.need(q.u32() != 0, "a reduced matrix was reported as deficient")
        env.eq(q.blob(), out, "reducing a reduced matrix")
        env.eq(q.blob(), piv, "pivot flags of a reduced matrix")
    return True


# matrices exactly as they occur: a systematic code, columns permuted and scaled; and completely unstructured ones
def run_raw(env, c):
    w, mp = env.w, env.mp
    K, N = mp.K, mp.N
    g = rng("raw", c["s"])
    k = c["k"]
    if k == "uniform":
        G = g.integers(0, Q, (K, N))
    elif k == "small":
        G = g.integers(0, 2, (K, N))
    elif k == "edges":
        G = g.choice([0, 1, 63, 64, 126], (K, N))
    elif k == "code":
        G = act_on(np.concatenate([np.eye(K, dtype=np.int64), g.integers(0, Q, (K, N - K))], 1), monomap(dict(s=c["s"], p="random", c="random"), N))
    else:                                             # every row starts with the same columns
        G = g.integers(0, Q, (K, N))
        h = int(g.integers(1, N - K))
        G[:, :h] = G[:1, :h]
    n, m, piv = mp.rref(by(G))
    w.setmode(0, c["poison"])
    q = w.call(61, blob(by(G)), "generator_RREF")
    r, out, p2 = q.u32(), q.blob(), q.blob()
    env.eq(bool(r), n == K, "full rank")
    if n == K:
        env.eq(p2, piv, "pivot flags")
        env.eq(out, m, "reduced matrix")
    return True


POISON = st.sampled_from([0, 0, 0xff, 0x7f, 0x80, 0x55])


def strat(env):
    return st.tuples(codes(), POISON, st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3, 4, 5])).map(lambda t: dict(t[0], poison=t[1], **{"def": t[2]}))


def strat_raw(env):
    return st.fixed_dictionaries(dict(s=seed32, k=st.sampled_from(["uniform", "small", "edges", "code", "same"]), poison=POISON))


def scenarios(tier):
    S = []
    q = tier == "quick"
    for ps, n in (("1B", 500), ("3B", 120), ("5B", 60)):
        for impl in ("ref", "avx2"):
            b = n if impl == "avx2" else n // 2
            step = 1 if ps == "1B" and impl == "avx2" or not q else {"1B": 2, "3B": 4, "5B": 8}[ps]
            fixed = [dict(c, poison=[0, 255, 127][i % 3], **{"def": 0}) for i, c in enumerate(all_kinds(step))]
            fixed += [dict(s=i, piv=PIV[i % len(PIV)], val="random", mix=m, poison=0, **{"def": d}) for i, (m, d) in enumerate((m, d) for m in MIX for d in (1, 2, 3, 4, 5))][::1 if ps == "1B" else 3]
            sp = Spec(impl, ps, groups=["api", "code"])
            S.append(Scenario(f"structured/{ps[0]}", run, strat, sp, n=(b, b * 60), parts=(2 if ps == "1B" else 2, 6), cost=10, fixed=fixed))
            S.append(Scenario(f"raw/{ps[0]}", run_raw, strat_raw, sp, n=(b // 3, b * 20), cost=8, parts=(1, 3)))
            if ps == "1B" or not q:
                sp = Spec(impl, ps, "asan", groups=["api", "code"])
                S.append(Scenario(f"sanitized/{ps[0]}", run, strat, sp, n=(40, 400), cost=8, parts=(1, 2), fixed=[f for f in fixed if f["val"] in ("random", "sparse")]))
    return S + through_scenarios("key")
