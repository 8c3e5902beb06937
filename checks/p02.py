import hashlib

from .common import *
from .sigedit import *

RULE = "a case is non-trivial when the bytes given to verification differ from the genuine ones, or (forged cases) when the expected verdict was decided by the model; distinct by (key, signature, alterations)"
ASSUME = ["the verdict oracle is the executable model (model/model.cpp)", "cases with a substituted challenge decide the verification equation for a digest that does not determine the challenge; the natural challenge is used as well"]


def strat(kinds, big, forced):
    def f(env):
        d = dict(k=st.integers(0, 3), s=st.integers(0, 40), m=msgs(big), e=edits(kinds, 1, 2))
        if forced:
            d["c"] = chals()
        return st.fixed_dictionaries(d)
    return f


def genuine(env, c):
    w, mp = env.w, env.mp
    pk, sk = keypair(env, w, c["k"])
    f = chal(c["c"], mp.T, mp.W, mp.keys) if "c" in c else None
    key = ("sm", c["k"], c["s"], c["m"]["n"], c["m"]["s"], f)
    if key not in env.cache:
        env.cache[key] = sign(env, w, sk, msg(c["m"]), c["s"], f)
    return env.cache[key], pk, f


def verdict(env, sm, pk, f, what):
    w, mp = env.w, env.mp
    want = mp.open(pk, sm, f)
    r, ml, out = opened(w, sm, pk, f)
    env.need((r == 0) == (want == 0), f"{what}: verification {'accepted' if r == 0 else 'rejected'} where the scheme {'accepts' if want == 0 else 'rejects'} (model verdict {want})")
    if r == 0:
        m = sm[:len(sm) - mp.siglen(sm[-1])]
        env.eq(ml, len(m), "length of the recovered message")
        env.eq(out[:ml], m, "recovered message")
    env.label("model verdict " + "accept,short,count>max,count,padding,action,key,digest".split(",")[want])
    return r


def run(env, c):
    sm, pk, f = genuine(env, c)
    sm2, pk2 = apply(env.mp, sm, pk, c["e"])
    verdict(env, sm2, pk2, f, f"{len(sm2)} bytes, altered by {c['e']}")
    env.label(*{e[0] for e in c["e"]})
    return (sm2, pk2) != (sm, pk)


# --- forged: an adversary who knows the challenge computes the digest the verifier would compute, with arbitrary actions
FORGE = ["none", "coef0", "coef127", "dup", "posN", "pad", "pk127", "pkpiv", "pkpad", "rank"]


def strat_forge(env):
    return st.fixed_dictionaries(dict(k=st.integers(0, 2), s=seed32, m=msgs(200), c=chals(), bad=st.sampled_from(FORGE), w=st.integers(0, 7), e=st.integers(0, 600), d=st.integers(0, 600)))


def run_forge(env, c):
    w, mp = env.w, env.mp
    pk, sk = keypair(env, w, c["k"])
    pk = bytearray(pk)
    f = chal(c["c"], mp.T, mp.W, mp.keys)
    force_works(env, w)
    R = Rnd("forge", c["s"])
    S, K, N = mp.S, mp.K, mp.N
    pb = N.bit_length()
    salt, root = R.bytes(2 * S), R.bytes(S)
    if c["bad"].startswith("pk"):
        o = SM(mp, bytes(pk_sig_stub(mp)), bytes(pk))
        o.pkedit({"pk127": "pk.127", "pkpiv": "pk.piv", "pkpad": "pk.padtail" if c["d"] & 1 else "pk.padflag"}[c["bad"]], c["e"], c["d"])
        pk = o.pk
    tree = mp.tree(root, salt)
    L = mp.leaves
    G0 = mp.G0(bytes(pk[:S]))
    h = hashlib.new({16: "sha3_256", 24: "sha3_384", 32: "sha3_512"}[S])
    acts, j = [], 0
    aux = env.worker(w.spec)
    for i in range(mp.T):
        if not f[i]:
            leaf = tree[(L - 1 + i) * S:(L + i) * S]
            cc, pp = mp.mono(leaf + salt + bytes([i & 255, i >> 8]))
            h.update(mp.commit(G0, cc, pp)[0])
            continue
        pos = R.shuffle(list(range(N)))[:K]
        co = bytearray(R.fqs(K))
        pad = False
        e, d = c["e"] % K, c["d"] % K
        if d == e:
            d = (e + 1) % K
        if j == c["w"] % mp.W:
            b = c["bad"]
            if b == "coef0":
                co[e] = 0
            elif b == "coef127":
                co[e] = 127
            elif b == "dup":
                pos[e] = pos[d]
            elif b == "posN":
                pos[e] = min((1 << pb) - 1, N + c["d"] % 4)
            elif b == "pad":
                pad = True
            elif b == "rank":
                pos = [pos[0]] * K
        j += 1
        a = bytearray(mp.pack_act(bytes(co), le16(pos)))
        if pad and K * (pb + 7) < 8 * mp.ab:
            x = K * (pb + 7) + c["d"] % (8 * mp.ab - K * (pb + 7))
            a[x >> 3] ^= 1 << (x & 7)
        acts.append(bytes(a))
        V = bytes(K * (N - K))
        try:                                   # what an unguarded verifier would hash
            g = aux.call(68, u32b(bytes(pk[S + (f[i] - 1) * mp.rb:S + f[i] * mp.rb]))).blob()
            if c["bad"] not in ("posN", "rank", "pkpiv"):
                r = aux.call(161, u32b(g) + u32b(bytes(co)) + u32b(le16(pos)))
                if r.u32():
                    V = r.blob()
        except Violation:
            pass
        h.update(V)
    m = msg(c["m"])
    h.update(m)
    h.update(salt)
    dg = h.digest()
    nodes = mp.pub(f)
    sm = m + salt + b"".join(acts) + dg + b"".join(tree[n * S:(n + 1) * S] for n in nodes) + bytes([len(nodes)])
    env.label("forged " + c["bad"])
    w.force(f)
    r, ml, out = w.open(sm, bytes(pk))
    w.force(None)
    want = mp.open(bytes(pk), sm, f)
    env.need((r == 0) == (want == 0), f"forged signature ({c['bad']}): verification {'accepted' if r == 0 else 'rejected'} where the scheme {'accepts' if want == 0 else 'rejects'} (model verdict {want})")
    env.label("forged and genuine by the equation" if want == 0 else "forged and invalid")
    return True


def pk_sig_stub(mp):
    return bytes(mp.siglen(0))


def u32b(b):
    return struct.pack("<I", len(b)) + b


# --- a message whose length differs by 2^32
def run_big(env, c):
    w = env.w
    w.cpu_limit = 900.0
    pk, sk = keypair(env, w, c["k"])
    m = bytes(c["n"])
    sm = sign(env, w, sk, m, 1)
    r = w.call(24, u32b(pk) + u32b(sm[len(m):]) + struct.pack("<II", c["n"] & 0xFFFFFFFF, c["hi"]), name="crypto_sign_open on a message of 4 GiB").i32()
    env.need(r != 0, f"a signature on {c['n']} zero bytes was accepted for {c['n']} + {c['hi']}*2^32 zero bytes")
    return True


# --- long messages altered anywhere
def run_long(env, c):
    w = env.w
    pk, sk = keypair(env, w, 0)
    n = c["n"]
    m = xof("long", n)
    sm = sign(env, w, sk, m, c["n"])
    r, ml, out = opened(w, sm, pk)
    env.need(r == 0 and ml == n and out[:n] == m, f"the genuine signature on {n} bytes was rejected")
    for i in sorted({0, 1, n // 3, n // 2, n - 4097, n - 137, n - 2, n - 1} | {(1 << b) + d for b in range(12, 25) for d in (-1, 0) if (1 << b) + d < n}):
        b = bytearray(sm)
        b[i] ^= 1 << i % 8
        r = opened(w, bytes(b), pk)[0]
        env.need(r != 0, f"byte {i} of a message of {n} bytes altered: accepted")
    for k in (1, 65536, 1 << 20):
        if k < n:
            env.need(opened(w, sm[:n - k] + sm[n:], pk)[0] != 0, f"message of {n} bytes cut by {k}: accepted")
    env.label("long message")
    return True


# --- every neighbour of a genuine signature of a scheme with two rounds
def run_near(env, c):
    w, mp = env.w, env.mp
    S = mp.S
    pk, sk = keypair(env, w, c["k"])
    m = xof(f"near{c['n']}", c["n"])
    sm = sign(env, w, sk, m, c["s"])
    r, ml, out = opened(w, sm, pk)
    env.need((r == 0) == (mp.open(pk, sm) == 0), "the genuine signature is judged differently from the scheme")
    env.need(r == 0, "the genuine signature was rejected")

    def judge(sm2, pk2, what):
        r, ml, out = opened(w, sm2, pk2)
        if r == 0:
            want = mp.open(pk2, sm2)
            env.need(want == 0, f"{what}: accepted where the scheme rejects (model verdict {want})")
            env.label("accepted by the scheme too")
        env.labels["neighbours"] = env.labels.get("neighbours", 0) + 1
    n = len(m)
    A0, A1 = n + 2 * S, n + 2 * S + mp.W * mp.ab
    what = c["what"]
    if what == "msg":
        for i in range(c["part"], n, c["of"]):
            b = bytearray(sm)
            b[i] ^= 1 << (i * 5 + c["s"]) % 8
            judge(bytes(b), pk, f"byte {i} of a message of {n} bytes altered")
        for k in (1, 2, 4, 8, 16, 32, 64, 136):
            if k <= n:
                judge(sm[:n - k] + sm[n:], pk, f"message of {n} bytes cut by {k}")
                judge(sm[k:], pk, f"message of {n} bytes without its first {k}")
            judge(m + bytes(k) + sm[n:], pk, f"message of {n} bytes extended by {k} zeros")
            judge(bytes(k) + sm, pk, f"message of {n} bytes with {k} zeros before it")
    elif what == "pk":
        for i in range(c["part"], 8 * len(pk), c["of"]):
            b = bytearray(pk)
            b[i >> 3] ^= 1 << (i & 7)
            judge(sm, bytes(b), f"bit {i} of the public key altered")
    else:
        rng_ = {"rest": list(range(8 * n, 8 * A0)) + list(range(8 * A1, 8 * len(sm))), "act": range(8 * A0, 8 * A1)}[what]
        for i in rng_[c["part"]::c["of"]]:
            b = bytearray(sm)
            b[i >> 3] ^= 1 << (i & 7)
            judge(bytes(b), pk, f"bit {i & 7} of byte {(i >> 3) - n} of the signature altered")
    env.label("neighbours in " + what)
    return True


def near(ps, impl, quick):
    a = {1: 1, 3: 2, 5: 4}[int(ps[0])] * (1 if impl == "avx2" else 4)
    d = a * (2 if quick else 1)
    L = []
    for s in range(1 if quick else 6):
        b = dict(k=s, s=s + 1, n=5)
        L += [dict(b, what="rest", part=s, of=({1: 1, 3: 3, 5: 7} if impl == "ref" else {1: 1, 3: 1, 5: 3})[int(ps[0])] if quick else 1), dict(b, what="act", part=s % d, of=d), dict(b, what="pk", part=s, of=((191 if quick else 29) * a * (2 if ps[1] == "B" else 6) // 2) | 1)]
        for n, of in ((1, 1), (137, 2), (300, 3), (1031, 17), (65793, 4099)):
            L.append(dict(b, what="msg", n=n + s, part=s % of, of=of * (a if quick else 1)))
    return L


def each(kinds, ps, forced, reps=1):
    """One case for every kind of alteration, whatever the generator happens to draw."""
    out = []
    for r in range(reps):
        for k in kinds:
            R = Rnd("each", ps, k, r)
            c = dict(k=R.below(4), s=R.below(40), m=dict(n=R.below(200), s=1), e=[[k, R.below(1 << 20), R.below(1 << 16)]])
            if forced:
                c["c"] = dict(shape=["random", "worst", "spread"][R.below(3)], s=R.below(99), v=9)
            out.append(c)
    return out


def scenarios(tier):
    S = []
    for ps in ALL:
        cat = int(ps[0])
        for impl in ("ref", "avx2"):
            a = impl == "avx2"
            base = {1: 200, 3: 48, 5: 24}[cat]
            if not a:
                base //= 3
            n = (base, base * 40)
            S.append(Scenario(f"sig/{ps}", run, strat(SIG_KINDS, 300, True), red(impl, ps), n=n, cost=5, fixed=each(SIG_KINDS, ps, True, 2)))
            S.append(Scenario(f"msg/{ps}", run, strat(MSG_KINDS, 70000, True), red(impl, ps), n=(base // 2, base * 20), cost=4, fixed=each(MSG_KINDS, ps, True)))
            S.append(Scenario(f"key/{ps}", run, strat(PK_KINDS, 300, True), red(impl, ps), n=(base // 2, base * 20), cost=4, fixed=each(PK_KINDS, ps, True, 2)))
            S.append(Scenario(f"natural/{ps}", run, strat(SIG_KINDS + MSG_KINDS + PK_KINDS, 2000, False), red(impl, ps), n=(base // 2, base * 20), cost=4))
            S.append(Scenario(f"forge/{ps}", run_forge, strat_forge, red(impl, ps), n=(base // 2, base * 10), cost=6, fixed=[dict(k=1, s=i, m=dict(n=9, s=1), c=dict(shape="spread", s=i, v=9), bad=b, w=i % 8, e=i * 37 % 600, d=i * 91 % 600) for i, b in enumerate(FORGE * 2)]))
            L = near(ps, impl, tier == "quick")
            for i in range(3):
                S.append(Scenario(f"neighbours/{ps}/{i}", run_near, None, red(impl, ps, r=(2, 1)), n=(0, 0), fixed=L[i::3], cost=10))
            if a or cat == 1:
                q = {1: 12 if a else 4, 3: 3, 5: 0}[cat]
                S.append(Scenario(f"full/{ps}", run, strat(SIG_KINDS + MSG_KINDS + PK_KINDS, 2000, False), Spec(impl, ps), n=(q, 60 * q + 12), fixed=[dict(k=0, s=0, m=dict(n=40, s=1), e=[["msg.flip", 3, 1]])], cost=12))
        if ps == "1I":
            for impl in ("ref", "avx2"):
                S.append(Scenario("long messages", run_long, None, red(impl, ps, r=(2, 1)), n=(0, 0), cost=15, fixed=[dict(n=x) for x in [(1 << 20) + 5, (1 << 22) + 131] + ([] if tier == "quick" else [(1 << 24) + 3, (1 << 26) + 1, 3 << 23])]))
            S.append(Scenario("huge message", run_big, None, red("avx2", ps, groups=BIG), fixed=[dict(k=0, n=5, hi=1)], n=(0, 0), cost=40))
            S.append(Scenario("huge message", run_big, None, red("ref", ps, groups=BIG), fixed=[dict(k=0, n=5, hi=1)], n=(0, 0), cost=60))
    return S


BIG = ("api", "wrap", "big")
