from .common import *

RULE = "a case is non-trivial when a signed message and a public key were scanned for the secrets of its key and signing operation (all derived by the model); distinct by history"
ASSUME = ["the secret values looked for are those of the scheme model: the secret key, the private maps' seeds, the ephemeral root, and every tree node on the path from the root to a challenged round", "a chance match of an 8-byte window has probability below 2^-40 per case"]


def windows(secret, n=8):
    return [secret[i:i + n] for i in range(0, len(secret) - n + 1, n)] + [secret[-n:]]


def scan(env, hay, secret, what, where):
    for x in windows(secret):
        if x != bytes(8) and hay.find(x) >= 0:
            raise Violation(f"{where} contains part of {what} (at byte {hay.find(x)})")
        if x != bytes(8) and hay.find(x[::-1]) >= 0:
            raise Violation(f"{where} contains part of {what}, reversed")


def fresh_salt(env, salt, old, fill):
    """Every four bytes of a salt are new: nothing of it is fixed, left over from the caller's buffer or reused."""
    ws = [salt[i:i + 4] for i in range(0, len(salt), 4)]
    env.need(len(set(ws)) == len(ws), "a salt repeats itself")
    for i, x in enumerate(ws):
        env.need(x != bytes([fill]) * 4, f"bytes {4 * i} to {4 * i + 3} of the salt are what the caller's buffer held before")
        for o in old:
            env.need(o[4 * i:4 * i + 4] != x, f"two signing operations have bytes {4 * i} to {4 * i + 3} of their salts in common")


def strat(env):
    return st.fixed_dictionaries(dict(k=st.integers(0, 5), n=st.lists(st.fixed_dictionaries(dict(s=seed32, m=st.fixed_dictionaries(dict(n=st.sampled_from([0, 0, 8, 33, 400]), s=st.integers(0, 3))), c=st.one_of(st.none(), chals()))), min_size=1, max_size=4), fill=st.sampled_from([0, 0xA5, 0xFF])))


def run(env, c):
    w, mp = env.w, env.mp
    S, T, L = mp.S, mp.T, mp.leaves
    pk, sk = keypair(env, w, c["k"])
    priv = mp.xof(sk[:2 * S], (mp.keys - 1) * 2 * S)
    scan(env, pk, sk[:2 * S], "the secret key", "the public key")
    for j in range(mp.keys - 1):
        scan(env, pk, priv[2 * S * j:2 * S * (j + 1)], f"the seed of private map {j + 1}", "the public key")
    seen = {}
    used = {}
    for x in c["n"]:
        m = msg(x["m"])
        f = chal(x["c"], T, mp.W, mp.keys) if x["c"] else None
        w.seed(xof(f"sig{x['s']}", 48))
        if f:
            w.force(f)
        r, sl, buf = w.sign(sk, m, c["fill"])
        if f and w.force(None) == 0:
            raise Unsupported("the challenge cannot be substituted on this tree")
        env.need(r == 0, "signing failed")
        g = buf[len(m):sl]
        salt = g[:2 * S]
        # the whole output buffer is the caller's to send: nothing secret may be left behind the signature either
        scan(env, buf, sk[:2 * S], "the secret key", "the signed message buffer")
        for j in range(mp.keys - 1):
            scan(env, buf, priv[2 * S * j:2 * S * (j + 1)], f"the seed of private map {j + 1}", "the signed message buffer")
        eph = mp.xof(xof(f"sig{x['s']}", 48), S)
        scan(env, buf, eph, "the ephemeral root seed", "the signed message buffer")
        tree = mp.tree(eph, salt)
        ch = f or mp.challenge(g[2 * S + mp.W * mp.ab:4 * S + mp.W * mp.ab])
        hidden = set()
        for i in range(T):
            if ch[i]:
                q = L - 1 + i
                while True:
                    hidden.add(q)
                    if q == 0:
                        break
                    q = (q - 1) // 2
        for q in hidden:
            scan(env, buf, tree[q * S:(q + 1) * S], f"tree node {q}, an ancestor of a challenged round's seed", "the signed message buffer")
        # responses: each holds K positions and coefficients and nothing else; two responses of one map and two rounds never repeat an ephemeral map
        acts = [g[2 * S + i * mp.ab:2 * S + (i + 1) * mp.ab] for i in range(mp.W)]
        env.need(len(set(acts)) == len(acts), "two rounds of one signature give the same response")
        for i, a in enumerate(acts):
            ok, co, po = mp.unpack_act(a)
            env.need(mp.act_valid(co, po) and ok, f"response {i} is not the image of K distinct positions")
        pub = [g[4 * S + mp.W * mp.ab + i * S:4 * S + mp.W * mp.ab + (i + 1) * S] for i in range(g[-1])]
        nodes = {tree[q * S:(q + 1) * S]: q for q in range(2 * L - 1)}
        for i, p in enumerate(pub):
            q = nodes.get(p)
            env.need(q is not None, f"published seed {i} is not a node of the tree")
            env.need(q not in hidden, f"published seed {i} is an ancestor of a challenged round's seed")
        # freshness
        if x["s"] not in seen:
            fresh_salt(env, salt, seen.values(), c["fill"])
            env.need(salt not in seen.values(), "two signing operations used the same salt")
            for p in pub:
                env.need(p not in used, "two signing operations published the same seed")
            used.update({p: 1 for p in pub})
        seen[x["s"]] = salt
    return True


# --- consecutive operations on one running generator
def strat_fresh(env):
    return st.fixed_dictionaries(dict(s=seed32, n=st.integers(2, 6), same=st.booleans()))


def run_fresh(env, c):
    w, mp = env.w, env.mp
    S = mp.S
    w.seed(xof(f"run{c['s']}", 48))
    r, pk, sk = w.keypair()
    r2, pk2, sk2 = w.keypair()
    for i in range(0, 3 * S, S):
        env.need(sk[i:i + S] not in (sk2[0:S], sk2[S:2 * S], sk2[2 * S:]), "two key generations share secret material")
    env.need(pk[:S] != pk2[:S] and pk[S:] != pk2[S:], "two key generations share public material")
    salts, seeds, acts = set(), set(), set()
    for i in range(c["n"]):
        m = b"" if c["same"] else bytes([i])
        r, sl, buf = w.sign(sk, m)
        env.need(r == 0, "signing failed")
        g = buf[len(m):sl]
        env.need(g[:2 * S] not in salts, "a salt was used twice")
        fresh_salt(env, g[:2 * S], salts, 0xA5)
        salts.add(g[:2 * S])
        for j in range(mp.W):
            a = g[2 * S + j * mp.ab:2 * S + (j + 1) * mp.ab]
            env.need(a not in acts, "a response was repeated: two commitments used the same ephemeral map")
            acts.add(a)
        for j in range(g[-1]):
            p = g[4 * S + mp.W * mp.ab + j * S:][:S]
            env.need(p not in seeds, "a published seed was repeated")
            seeds.add(p)
    return True


def scenarios(tier):
    S = []
    for ps in ALL:
        cat = int(ps[0])
        for impl in ("ref", "avx2"):
            b = {1: 60, 3: 16, 5: 8}[cat] // (1 if impl == "avx2" else 2)
            S.append(Scenario(f"scan/{ps}", run, strat, red(impl, ps), n=(b, b * 80), cost=5))
            S.append(Scenario(f"fresh/{ps}", run_fresh, strat_fresh, red(impl, ps), n=(b, b * 30), cost=4))
            if impl == "avx2" or cat == 1:
                S.append(Scenario(f"full/{ps}", run, strat, Spec(impl, ps), n=({1: 2, 3: 0, 5: 0}[cat], {1: 200, 3: 24, 5: 6}[cat]), cost=10, parts=(1, 4), fixed=[dict(k=0, n=[dict(s=4, m=dict(n=0, s=0), c=dict(shape="worst", s=1, v=9))], fill=0)]))
    return S
