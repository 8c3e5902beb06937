from harness.worker import blob, u32

from . import p12
from .mats import *
from .sigedit import *

RULE = "a case is non-trivial when at least two implementations answered the same call and their answers were compared; distinct by (operation, operands)"
ASSUME = ["NEON is the repository's NEON code compiled against an emulated intrinsics header (shim/arm_neon.h) on x86", "for matrices of deficient rank only the report is compared, not the matrix left behind", "operands are such as the scheme's own calls produce"]


def workers(env):
    out = [env.w]
    for s in env.sc.also:
        try:
            out.append(env.worker(s))
        except Unsupported:
            env.label("no " + s.impl)
    if len(out) < 2:
        raise Unsupported("one implementation only")
    return out


def same(env, ws, f, what):
    """f(worker) gives the same value on every implementation"""
    vals = []
    for w in ws:
        try:
            vals.append((w, f(w)))
        except Unsupported:
            env.label("not offered by " + w.spec.impl)
    if len(vals) < 2:
        raise Unsupported(what)
    w0, v0 = vals[0]
    for w, v in vals[1:]:
        if v != v0:
            env.eq(v, v0, f"{what}: {w.spec.impl} and {w0.spec.impl} differ")
    return v0


def verdict(w, sm, pk, f):
    r, ml, m = opened(w, sm, pk, f)
    return (True, m[:ml]) if r == 0 else (False, b"")


# --- keys, signatures, generator states, verdicts on altered signatures
def run_api(env, c):
    ws, mp = workers(env), env.mp
    pk, sk = same(env, ws, lambda w: keypair(env, w, c["k"]), "key pair")
    m = msg(c["m"])
    f = chal(c["c"], mp.T, mp.W, mp.keys) if c["c"] else None
    sm = same(env, ws, lambda w: sign(env, w, sk, m, c["s"], f), "signed message")
    same(env, ws, lambda w: w.random(24), "generator output after signing")
    ok, out = same(env, ws, lambda w: verdict(w, sm, pk, f), "verdict on a genuine signature")
    for e in c["e"]:
        sm2, pk2 = apply(mp, sm, pk, e)
        ok, out = same(env, ws, lambda w: verdict(w, sm2, pk2, f), f"verdict on an altered signature ({','.join(x[0] for x in e)})")
        env.label("altered: " + ("accepted" if ok else "rejected"))
    return True


KINDS = SIG_KINDS + MSG_KINDS + PK_KINDS


def strat_api(env):
    return st.fixed_dictionaries(dict(k=st.one_of(st.integers(0, 3), seed32), s=seed32, m=msgs(9000), c=st.one_of(st.none(), chals(), chals()), e=st.lists(edits(KINDS, 1, 2), max_size=3)))


def fixed_api(i, n):
    ks = KINDS[i::n]
    return [dict(k=i % 4, s=50 + i, m=dict(n=40 + i, s=i), c=None if i % 3 else dict(shape="worst", s=i, v=9), e=[[(k, 12345 + 77 * i, 4321 + i)] for k in ks])]


# --- histories: the same calls in the same order, state carried along
def run_history(env, c):
    ws, mp = workers(env), env.mp
    for w in ws:
        w.seed(xof(f"h{c['s']}", 48))
    keys, sms = [], []
    for op, a, b in c["ops"]:
        if op == 0 or not keys:
            keys.append(same(env, ws, lambda w: w.keypair(), "key pair")[1:])
        elif op == 1 or not sms:
            pk, sk = keys[a % len(keys)]
            r, sl, sm = same(env, ws, lambda w: w.sign(sk, xof(b, b % 500)), "signed message")
            sms.append((sm[:sl], pk))
        elif op == 2:
            sm, pk = sms[a % len(sms)]
            pk = keys[b % len(keys)][0]
            same(env, ws, lambda w: verdict(w, sm, pk, None), "verdict")
        elif op == 3:
            same(env, ws, lambda w: w.random(a % 300), "generator output")
        else:
            sm, pk = sms[a % len(sms)]
            sm, pk = apply(mp, sm, pk, [(SIG_KINDS[b % len(SIG_KINDS)], a, b)])
            same(env, ws, lambda w: verdict(w, sm, pk, None), "verdict")
    return True


def strat_history(env):
    return st.fixed_dictionaries(dict(s=seed32, ops=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 1 << 16), st.integers(0, 1 << 16)), min_size=3, max_size=12)))


# --- matrix stages
def act_of(c, K, N):
    co, p = p12.action(c, K, N)
    return blob(co.tobytes()) + blob(p.tobytes())


def run_code(env, c):
    ws, mp = workers(env), env.mp
    K, N = mp.K, mp.N
    for w in ws:
        w.setmode(0, c["poison"])
    k = c["op"]
    g = rng("p05", c["g"]["s"])
    if k == "rref":
        G, R, f = code(c["g"], K, N)
        if c["def"]:
            i = g.permutation(K)[:c["def"]]
            G[i] = mul(g.integers(0, Q, (len(i), K - len(i))), np.delete(G, i, 0))

        def f_(w):
            q = w.call(61, blob(by(G)), "generator_RREF")
            r = q.u32() != 0
            return (r, q.blob(), q.blob()) if r else (r,)
        return same(env, ws, f_, "row reduction") is not None
    if k == "times":
        G, R, f = code(c["g"], K, N)
        m = monomap(c["e"], N)
        same(env, ws, lambda w: w.call(60, blob(by(G)) + wire(m), "generator_monomial_mul").blob(), "matrix times map")
    elif k == "commit":
        G = np.concatenate([np.eye(K, dtype=np.int64), rref_of(dict(c["g"], piv="first"), K, N)[0][:, K:]], 1)
        m = monomap(c["e"], N)
        same(env, ws, lambda w: w.call(64, blob(by(G)) + wire(m), "prepare_digest_input").b, "canonical form and action of the signer")
    elif k == "respond":
        R, f = rref_of(c["g"], K, N)
        a = act_of(c["a"], K, N)

        def f_(w):
            h = w.call(65, blob(by(R)) + a, "apply_action_to_G").blob()
            q = w.call(161, blob(by(R)) + a, "verifier's recomputation")
            r = q.u32() != 0
            return h, r, q.blob() if r else b""
        same(env, ws, f_, "canonical form of the verifier")
    elif k == "form":
        R, f = rref_of(c["g"], K, N)
        free = np.flatnonzero(f == 0).astype(np.uint16)[g.permutation(N - K)]
        V = same(env, ws, lambda w: w.call(62, blob(by(R)) + blob(free.tobytes()), "lex_minimize").blob(), "scaled columns")
        same(env, ws, lambda w: w.call(63, blob(V), "lex_sort_cols").blob(), "sorted columns")
        V = np.frombuffer(V, np.uint8).reshape(K, N - K)
        V = by(V[:, g.integers(0, max(1, (N - K) // 9), N - K)])
        same(env, ws, lambda w: w.call(63, blob(V), "lex_sort_cols").blob(), "sorted columns with repetitions")
    elif k == "pack":
        R, f = p12.matrix(dict(c["g"], fill=c["fill"]), K, N)
        b = same(env, ws, lambda w: w.call(67, blob(by(R)) + blob(f.tobytes()), "compress_rref").blob(), "compressed matrix")
        same(env, ws, lambda w: w.call(68, blob(b), "expand_to_rref").blob(), "expanded matrix")
        same(env, ws, lambda w: w.call(66, blob(by(R)) + blob(f.tobytes()), "generator_rref_compact / expand").b, "compact form")
    elif k == "expand":
        same(env, ws, lambda w: w.call(69, blob(xof(c["g"]["s"], mp.S)), "generator_SF_seed_expand").blob(), "public code")
    return True


OPS = ["rref", "times", "commit", "respond", "form", "pack", "expand"]


def strat_code(env):
    act = st.fixed_dictionaries(dict(s=seed32, p=st.sampled_from(["random", "first", "last", "desc", "even", "roll"]), c=st.sampled_from(["random", "one", "max", "count", "bits"])))
    return st.fixed_dictionaries({"op": st.sampled_from(OPS[:-1] * 3 + OPS[-1:]), "g": codes(), "e": monos(), "a": act, "fill": st.sampled_from(p12.FILL), "def": st.sampled_from([0, 0, 0, 1, 2, 40]), "poison": st.sampled_from([0, 255, 127])})


def fixed_code(n):
    out = []
    for i in range(n):
        for j, op in enumerate(OPS):
            x = i * 7 + j
            out.append({"op": op, "g": dict(s=x, piv=PIV[x % len(PIV)], val=VAL[(i * 3 + j) % len(VAL)], mix=MIX[(i + j) % len(MIX)]), "e": dict(s=x, p="random", c="random"),
                        "a": dict(s=x, p=["random", "first", "last", "desc", "even", "roll"][i % 6], c=["random", "one", "max", "count", "bits"][x % 5]), "fill": p12.FILL[x % len(p12.FILL)], "def": [0, 0, 1][i % 3], "poison": [0, 255][i & 1]})
    return out


# --- maps, tree, challenge, sampling, hashes
def run_small(env, c):
    ws, mp = workers(env), env.mp
    K, N, S, T, L = mp.K, mp.N, mp.S, mp.T, mp.leaves
    k = c["op"]
    R = Rnd("p05", c["s"])
    for w in ws:
        w.setmode(c["s"] & 1, c["poison"])
    if k == "maps":
        a, b = monomap(dict(c["e"], s=c["s"]), N), monomap(dict(c["e"], s=c["s"] + 1), N)
        act = act_of(c["a"], K, N)
        same(env, ws, lambda w: w.call(52, wire(a) + wire(b), "monomial_mat_mul").b, "composition")
        same(env, ws, lambda w: w.call(53, wire(a), "monomial_mat_inv").b, "inverse")
        same(env, ws, lambda w: w.call(54, b"", "monomial_mat_id").b, "identity")
        same(env, ws, lambda w: w.call(55, wire(a) + act, "monomial_compose_action").b, "composition with an action")
        p = same(env, ws, lambda w: w.call(56, act, "compress_monom_action").blob(), "compressed action")
        same(env, ws, lambda w: w.call(57, blob(p), "expand_to_monom_action").b, "expanded action")
        x = bytearray(p)
        for _ in range(R.below(4)):
            i = R.below(8 * len(x))
            x[i >> 3] ^= 1 << (i & 7)
        same(env, ws, lambda w: w.call(49, blob(bytes(x)), "is_monom_action_valid").u32(), "validity of an action")
    elif k == "expand":
        s, t, i = R.bytes(S), R.bytes(2 * S), R.below(65536 if c["s"] & 1 else T)
        same(env, ws, lambda w: w.call(50, blob(s) + blob(t) + u32(i), "monomial_mat_seed_expand_salt_rnd").b, "map of a round")
        same(env, ws, lambda w: w.call(51, blob(t), "monomial_mat_seed_expand_prikey").b, "private map")
    elif k == "tree":
        root, salt = R.bytes(S), R.bytes(2 * S)
        hide = bytes(1 if x else 0 for x in chal(c["c"], T, mp.W, mp.keys))
        need = set()
        for i in range(T):
            q = L - 1 + i
            while q not in need:
                need.add(q)
                if q == 0:
                    break
                q = (q - 1) // 2
        tree = mp.tree(root, salt)
        same(env, ws, lambda w: (lambda t: b"".join(t[q * S:(q + 1) * S] for q in sorted(need)))(w.call(80, blob(root) + blob(salt), "generate_seed_tree_from_root").blob()), "seed tree")

        def path(w):
            q = w.call(81, blob(tree) + blob(hide), "seed_tree_path")
            n = q.u32()
            return n, q.blob()[:n * S]
        n, pub = same(env, ws, path, "published seeds")

        def back(w):
            q = w.call(82, blob(hide) + blob(pub) + blob(salt), "rebuild_seed_tree_leaves")
            n, t = q.u32(), q.blob()
            return n, b"".join(t[(L - 1 + i) * S:(L + i) * S] for i in range(T) if not hide[i])
        same(env, ws, back, "recovered seeds")
    elif k == "challenge":
        for _ in range(8):
            d = R.bytes(2 * S)
            same(env, ws, lambda w: w.call(70, blob(d), "expand_digest_to_fixed_weight").blob(), "challenge")
    elif k == "sample":
        s, n = R.bytes(48), 1 + R.below(3000)
        for op in (32, 33):
            same(env, ws, lambda w: w.call(op, blob(s) + u32(n), "sampling").b, "sampled elements")
        x = b"".join(le16([v]) for v in (R.below(126 * 127 + 127) for _ in range(200)))
        same(env, ws, lambda w: w.call(30, blob(x), "fq_red").blob(), "reduction")
        x = bytes(1 + v % 126 for v in R.bytes(200))
        same(env, ws, lambda w: w.call(31, blob(x), "fq_inv").blob(), "inverses")
    elif k == "hash":
        m, n = R.bytes(R.below(2500)), 1 + R.below(600)
        for h in range(5):
            ol = (32, 48, 64, n, n)[h]
            same(env, ws, lambda w: w.call(90, u32(h) + u32(ol) + blob(m), "hash").blob(), "hash")
    return True


SMALL = ["maps", "expand", "tree", "challenge", "sample", "hash"]


def strat_small(env):
    act = st.fixed_dictionaries(dict(s=seed32, p=st.sampled_from(["random", "first", "last", "desc", "even", "roll"]), c=st.sampled_from(["random", "one", "max", "count", "bits"])))
    return st.fixed_dictionaries(dict(op=st.sampled_from(SMALL), s=seed32, e=monos(), a=act, c=chals(), poison=st.sampled_from([0, 255])))


def scenarios(tier):
    S = []
    q = tier == "quick"
    for ps in ALL:
        cat = int(ps[0])
        rs = [red(i, ps) for i in ("ref", "avx2", "neon")]
        b = {1: 50, 3: 10, 5: 4}[cat]
        S.append(Scenario(f"api/{ps}", run_api, strat_api, rs[0], also=rs[1:], n=(b, b * 60), parts=(2, 4), cost=8 * cat, fixed=sum([fixed_api(i, 12) for i in range(12)[ALL.index(ps) % 3 if cat > 1 and q else 0::3 if cat > 1 and q else 1]], [])))
        S.append(Scenario(f"history/{ps}", run_history, strat_history, rs[0], also=rs[1:], n=(b // 4, b * 15), parts=(1, 2), cost=5))
        fs = [Spec(i, ps) for i in ("ref", "avx2", "neon")]
        one = [dict(k=3, s=9, m=dict(n=77, s=3), c=None, e=[])]
        if q and cat > 1:                     # these are compared with the model by P07
            one = []
        if one:
            S.append(Scenario(f"full/{ps}", run_api, strat_api, fs[0], also=fs[1:], n=(0, {1: 100, 3: 10, 5: 4}[cat]), parts=(1, 3), cost={1: 4, 3: 15, 5: 25}[cat], fixed=one))
        g = ["api", "fq", "mono", "tree", "hash", "chal"]
        sp = [Spec(i, ps, groups=g) for i in ("ref", "avx2", "neon")]
        if ps in ("1B", "3B", "5B", "3S", "5S") or not q:
            S.append(Scenario(f"parts/{ps}", run_small, strat_small, sp[0], also=sp[1:], n=(150 if cat == 1 else 80, 6000), parts=(1, 2), cost=4))
        else:
            S.append(Scenario(f"parts/{ps}", run_small, strat_small, fs[0], also=fs[1:], n=(60, 6000), parts=(1, 2), cost=4))
        if ps in ("1B", "3B", "5B"):
            sp = [Spec(i, ps, groups=["api", "code"]) for i in ("ref", "avx2", "neon")]
            n = {1: 700, 3: 200, 5: 100}[cat]
            S.append(Scenario(f"stages/{cat}", run_code, strat_code, sp[0], also=sp[1:], n=(n, n * 80), parts=(3, 6), cost=9, fixed=fixed_code({1: 24, 3: 6, 5: 3}[cat])))
    return S
