from harness.worker import blob, u32

from .common import *

RULE = "a case is non-trivial when a whole public key or signature was compared byte for byte with the model's, or a model-made signature was verified; distinct by (seeds, message, challenge)"
ASSUME = ["the scheme is the one written down independently in model/model.cpp (hash and XOF cross-checked against hashlib by P16)", "the generator is the package's seeded SHAKE stream"]


def strat(env):
    return st.fixed_dictionaries(dict(k=st.one_of(st.integers(0, 3), seed32), s=seed32, m=msgs(70000), c=st.one_of(st.none(), chals()), who=st.sampled_from(["sign", "sign", "verify", "direct"])))


def stream(mp, s, n):
    return mp.xof(s, n)


def model_key(env, mp, ks):
    key = ("mkey", mp.par, ks)
    if key not in env.cache:
        S = mp.S
        b = stream(mp, xof(f"key{ks}", 48), 3 * S)
        env.cache[key] = (mp.keygen(b[:2 * S], b[2 * S:]), b)
    return env.cache[key]


def run(env, c):
    w, mp = env.w, env.mp
    S = mp.S
    pk, sk = keypair(env, w, c["k"])
    mpk, b = model_key(env, mp, c["k"])
    env.eq(sk, b, "secret key (private seed followed by the public code's seed)")
    env.eq(pk[:S], mpk[:S], "seed of the public code")
    for j in range(mp.keys - 1):
        env.eq(pk[S + j * mp.rb:S + (j + 1) * mp.rb], mpk[S + j * mp.rb:S + (j + 1) * mp.rb], f"public matrix {j + 1}")
    if c["who"] == "key":
        return True
    m = msg(c["m"])
    f = chal(c["c"], mp.T, mp.W, mp.keys) if c["c"] else None
    st_ = stream(mp, xof(f"sig{c['s']}", 48), 3 * S)
    sig, ch = mp.sign(sk[:2 * S], sk[2 * S:], st_[:S], st_[S:], m, f)
    if c["who"] == "direct":                  # the functions below the NIST interface
        w.seed(xof(f"key{c['k']}", 48))
        r = w.call(26, name="LESS_keygen")
        env.eq(r.blob(), mpk, "public key from LESS_keygen")
        env.eq(r.blob(), b, "secret key from LESS_keygen")
        if f:
            force_works(env, w)
        w.seed(xof(f"sig{c['s']}", 48))
        w.force(f)
        r = w.call(27, u32(c["s"] & 255) + blob(sk) + blob(m), "LESS_sign")
        if w.force(None) == 0 and f:
            raise Unsupported("the challenge cannot be substituted on this tree")
        n, got = r.u32(), r.blob()
        env.eq(n, sig[-1], "number of seeds returned by LESS_sign")
        env.eq(got[:len(sig)], sig, "signature structure filled by LESS_sign")
        w.force(f)
        env.eq(w.verify(pk, m, got), 1, "LESS_verify on a genuine signature")
        i = c["s"] % len(sig)
        bad = bytearray(got)
        if 2 * S <= i < 2 * S + mp.W * mp.ab or c["s"] & 1:
            i %= 2 * S                         # the salt
        elif i >= 4 * S + mp.W * mp.ab:
            i = len(sig) - 1                   # the count
        bad[i] ^= 1 << c["s"] % 8
        env.eq(w.verify(pk, m, bytes(bad)), 0, f"LESS_verify after a change of byte {i}")
        w.force(None)
        env.label("library functions")
        return True
    if c["who"] == "verify":                  # a signature made elsewhere
        if f:
            force_works(env, w)
        r, ml, out = opened(w, m + sig, pk, f)
        env.need(r == 0 and out[:ml] == m, "a conforming signature made by the model was rejected")
        env.label("model-made signature verified")
        return True
    sm = sign(env, w, sk, m, c["s"], f)
    env.eq(sm[:len(m)], m, "message part of the signed message")
    g, n = sm[len(m):], 4 * S + mp.W * mp.ab
    env.eq(g[:2 * S], sig[:2 * S], "salt")
    env.eq(g[n - 2 * S:n], sig[n - 2 * S:n], "digest")
    for i in range(mp.W):
        env.eq(g[2 * S + i * mp.ab:2 * S + (i + 1) * mp.ab], sig[2 * S + i * mp.ab:2 * S + (i + 1) * mp.ab], f"response {i}")
    env.eq(g[n:], sig[n:], "published seeds and their count")
    env.label("signature compared")
    return True


def run_lengths(env, c):
    """Signatures on every message length in a range compared with the model (two rounds)."""
    w, mp = env.w, env.mp
    S = mp.S
    pk, sk = keypair(env, w, 1)
    st_ = stream(mp, xof("sig3", 48), 3 * S)
    for n in list(range(c["lo"], c["hi"])) + c.get("more", []):
        m = xof("l", n)
        sm = sign(env, w, sk, m, 3)
        sig, ch = mp.sign(sk[:2 * S], sk[2 * S:], st_[:S], st_[S:], m, None)
        env.eq(sm[n:], sig, f"signature on {n} bytes")
    env.label("message length sweep")
    return True


def scenarios(tier):
    S = []
    for ps in ALL:
        cat = int(ps[0])
        for impl in ("ref", "avx2"):
            b = {1: 50, 3: 14, 5: 8}[cat]
            S.append(Scenario(f"conform/{ps}", run, strat, red(impl, ps), n=(b, b * 60), cost=4, fixed=[dict(k=i, s=70 + 37 * i, m=dict(n=[0, 1, 168, 70000][i], s=i), c=x, who="direct") for i, x in enumerate([None, dict(shape="worst", s=1, v=9), None, dict(shape="tail", s=2, v=1)][:4 if cat == 1 else 2])]))
            if cat == 1 and ps != "1I" or impl == "avx2" and ps[1] == "B":
                k = (1 if cat == 1 else 2 * cat) * (3 if impl == "ref" else 1)
                S.append(Scenario(f"lengths/{ps}", run_lengths, None, red(impl, ps, r=(2, 1)), n=(0, 0), fixed=[dict(lo=a, hi=a + 100 // k) for a in range(0, 900 * (4 if tier == "thorough" else 1) // k, 100 // k)] + [dict(lo=0, hi=0, more=[(1 << b) + d for b in range(10, 17) for d in (-1, 0, 1)])], cost=10))
            q = {1: 4, 3: 1, 5: 0}[cat] if impl == "avx2" else {1: 2, 3: 0, 5: 0}[cat]
            fx = dict(k=1, s=5, m=dict(n=33, s=2), c=None, who="sign")
            S.append(Scenario(f"full/{ps}", run, strat, Spec(impl, ps), n=(q, {1: 300, 3: 30, 5: 6}[cat]), fixed=[fx], cost={1: 5, 3: 14, 5: 20}[cat] * (1 if impl == "avx2" else 4), parts=(1, 4)))
    return S
