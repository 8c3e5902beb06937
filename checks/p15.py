from harness.worker import blob

from .common import *

RULE = "a case is non-trivial when a batch of digests was expanded and every challenge compared with the definition; distinct by (digest kind, seed)"
ASSUME = ["the definition: 16-bit little-endian words of the XOF stream of the digest, key index in the low bits, position above, rejection of values out of range and of places taken", "distribution bounds are loose enough (8 standard deviations) to fail by chance with probability below 1e-12"]


def define(mp, d):
    """the definition, in Python"""
    vb, pb = (mp.keys - 1).bit_length(), (mp.T - 1).bit_length()
    st_ = mp.xof(d, 64 * mp.W + 4096)
    out, n, i = bytearray(mp.T), 0, 0
    while n < mp.W:
        x = st_[i] | st_[i + 1] << 8
        i += 2
        v, p = x & ((1 << vb) - 1), (x >> vb) & ((1 << pb) - 1)
        if v < mp.keys and p < mp.T and not out[p] and v:
            out[p] = v
            n += 1
    return bytes(out)


def expand(env, d):
    c = env.w.call(70, blob(d), "expand_digest_to_fixed_weight").blob()
    mp = env.mp
    env.need(sum(x != 0 for x in c) == mp.W, f"challenge of weight {sum(x != 0 for x in c)}, expected {mp.W}")
    env.need(max(c) < mp.keys, f"challenge with key index {max(c)}, keys {mp.keys}")
    env.eq(c, define(mp, d), f"challenge of digest {d.hex()}")
    return c


def digest(kind, s, i, n):
    if kind == "random":
        return xof(f"dg{s}/{i}", n)
    if kind == "sparse":
        b = bytearray(n)
        b[(s + i) % n] = 1 << (i % 8)
        return bytes(b)
    if kind == "dense":
        b = bytearray(b"\xff" * n)
        b[(s + i) % n] ^= 1 << (i % 8)
        return bytes(b)
    b = bytearray(xof(f"tail{s}", n))          # digests that differ in the last bytes only
    b[-2:] = i.to_bytes(2, "big")
    return bytes(b)


def run(env, c):
    w, mp = env.w, env.mp
    w.setmode(0, c["p"])
    D = 2 * mp.S
    seen = {}
    for i in range(c["n"]):
        d = digest(c["k"], c["s"], i, D)
        r = expand(env, d)
        env.need(r not in seen or seen[r] == d, "two digests expand to the same challenge")
        seen[r] = d
    return True


def strat(env):
    return st.fixed_dictionaries(dict(k=st.sampled_from(["random", "sparse", "dense", "tail"]), s=st.integers(0, 1 << 20), n=st.just(40), p=st.sampled_from([0, 255])))


def run_bits(env, c):
    mp = env.mp
    D = 2 * mp.S
    d = xof(f"bits{c['s']}", D)
    base = expand(env, d)
    seen = {base}
    for b in range(8 * D):
        x = bytearray(d)
        x[b >> 3] ^= 1 << (b & 7)
        r = expand(env, bytes(x))
        env.need(r not in seen, f"bit {b} of the digest does not matter")
        seen.add(r)
    return True


def run_dist(env, c):
    """positions and key indices over many digests"""
    w, mp = env.w, env.mp
    n, D = c["n"], 2 * mp.S
    pos, val = [0] * mp.T, [0] * mp.keys
    for i in range(n):
        r = w.call(70, blob(xof(f"dist{c['s']}/{i}", D)), "expand_digest_to_fixed_weight").blob()
        for p, v in enumerate(r):
            if v:
                pos[p] += 1
                val[v] += 1
    p = mp.W / mp.T
    e, sd = n * p, (n * p * (1 - p)) ** .5
    for i, x in enumerate(pos):
        env.need(abs(x - e) < 8 * sd + 3, f"position {i} is challenged {x} times in {n} digests, expected {e:.0f} +- {sd:.0f}")
    tot = n * mp.W
    q = 1 / (mp.keys - 1)
    for v in range(1, mp.keys):
        env.need(abs(val[v] - tot * q) <= 8 * (tot * q * (1 - q)) ** .5 + 3, f"key index {v} occurs {val[v]} times in {tot}, expected {tot*q:.0f}")
    return True


# --- the signer uses exactly this challenge
def run_sig(env, c):
    w, mp = env.w, env.mp
    pk, sk = keypair(env, w, c["k"])
    sm = sign(env, w, sk, xof("m", c["n"]), c["s"])[c["n"]:]
    d = sm[2 * mp.S + mp.W * mp.ab:4 * mp.S + mp.W * mp.ab]
    ch = define(mp, d)
    nodes = mp.pub(ch)
    env.eq(sm[-1], len(nodes), "seeds published for the challenge of the digest")
    want = mp.open(pk, xof("m", c["n"]) + sm)
    env.eq(want, 0, "verdict of the scheme on the signature")
    return True


def strat_sig(env):
    return st.fixed_dictionaries(dict(k=st.integers(0, 2), s=seed32, n=st.sampled_from([0, 40])))


def scenarios(tier):
    S = []
    for ps in ALL:
        for impl in ("ref", "avx2"):
            sp = Spec(impl, ps, groups=["api", "chal"])
            S.append(Scenario(f"digests/{ps}", run, strat, sp, n=(12, 3000), parts=(1, 4), cost=3, fixed=[dict(k=k, s=i, n=40, p=255 * (i & 1)) for i, k in enumerate(["random", "sparse", "dense", "tail"])]))
            S.append(Scenario(f"bits/{ps}", run_bits, None, sp, n=(0, 0), cost=4, fixed=[dict(s=s) for s in range(1 if tier == "quick" else 20)]))
            S.append(Scenario(f"distribution/{ps}", run_dist, None, sp, n=(0, 0), cost=5, fixed=[dict(s=s, n=1500 if tier == "quick" else 40000) for s in range(1)]))
            if ps[0] == "1" or impl == "avx2":
                b = {"1": 20, "3": 4, "5": 2}[ps[0]] // (1 if impl == "avx2" else 2)
                S.append(Scenario(f"signature/{ps}", run_sig, strat_sig, red(impl, ps), n=(b, b * 50), cost=4))
    return S
