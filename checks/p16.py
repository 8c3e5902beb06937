from harness.worker import blob, u32

from .common import *

RULE = "a case is non-trivial when an output was compared with the independent implementation (Python's hashlib); distinct by function, data and chunking"
ASSUME = ["hashlib implements FIPS 202"]
FN = ["sha3_256", "sha3_384", "sha3_512", "shake_128", "shake_256"]
RATE = [136, 104, 72, 168, 136]
OUT = [32, 48, 64, None, None]


def ref(f, m, n):
    h = hashlib.new(FN[f], m)
    return h.digest(n) if f > 2 else h.digest()


def data(c):
    k = c["k"]
    return bytes(c["n"]) if k == "zero" else b"\xff" * c["n"] if k == "ones" else bytes(i & 255 for i in range(c["n"])) if k == "count" else xof(f"h{c['s']}", c["n"])


KIND = st.sampled_from(["random", "zero", "ones", "count"])


def run_once(env, c):
    f, m = c["f"], data(c)
    n = OUT[f] or c["o"]
    env.w.setmode(c["g"], c["p"])
    env.eq(env.w.call(90, u32(f) + u32(n) + blob(m), FN[f]).blob(), ref(f, m, n), f"{FN[f]} of {len(m)} bytes")
    return True


def strat_once(env):
    return st.fixed_dictionaries(dict(f=st.integers(0, 4), n=lengths(200000), o=lengths(5000), k=KIND, s=seed32, g=st.integers(0, 1), p=st.sampled_from([0, 255, 85])))


def split(total, kind, rate, R):
    """chunk lengths adding up to total, empty chunks included"""
    out = []
    left = total
    while left:
        if kind == "one":
            c = left
        elif kind == "bytes":
            c = 1 if len(out) < 300 else left
        elif kind == "rate":
            c = rate
        elif kind == "near":
            c = rate + R.below(3) - 1
        elif kind == "empty":
            c = R.below(2) * (1 + R.below(200))
        elif kind == "words":
            c = 8 * (1 + R.below(30))
        elif kind == "fill":                    # up to the boundary and over it
            done = total - left
            c = (rate - done % rate) if R.below(2) else 1 + R.below(rate - 1)
        else:
            c = 1 + R.below(min(left, 600))
        c = min(c, left)
        out.append(c)
        left -= c
        if left and len(out) > 2000:
            out.append(left)
            break
    if R.below(2):
        out.append(0)
    if R.below(2):
        out.insert(0, 0)
    return out


SPLIT = ["one", "bytes", "rate", "near", "empty", "words", "fill", "random"]


def le32(l):
    return b"".join(u32(x) for x in l)


def run_inc(env, c):
    f, m = c["f"], data(c)
    n = OUT[f] or c["o"]
    R = Rnd("inc", c["s"], c["a"], c["b"])
    env.w.setmode(c["g"], c["p"])
    ab, sq = split(len(m), c["a"], RATE[f], R), split(n, c["b"], RATE[f], R)
    got = env.w.call(91, u32(f) + u32(n) + blob(m) + blob(le32(ab)) + blob(le32(sq)), f"{FN[f]} incremental").blob()
    env.eq(got, ref(f, m, n), f"incremental {FN[f]} of {len(m)} bytes absorbed as {ab[:12]} squeezed as {sq[:12]}")
    env.label("absorb " + c["a"])
    return True


def strat_inc(env):
    return st.fixed_dictionaries(dict(f=st.integers(0, 4), n=lengths(20000), o=lengths(5000), k=KIND, s=seed32, a=st.sampled_from(SPLIT), b=st.sampled_from(SPLIT), g=st.integers(0, 1), p=st.sampled_from([0, 255, 85])))


def run_blocks(env, c):
    f, m = c["f"], data(c)
    n = sum(c["bl"]) * RATE[f]
    env.w.setmode(c["g"], c["p"])
    env.eq(env.w.call(92, u32(f) + blob(m) + blob(bytes(c["bl"])), f"{FN[f]} squeezeblocks").blob(), ref(f, m, n), f"{FN[f]} of {len(m)} bytes squeezed in blocks {c['bl']}")
    return True


def strat_blocks(env):
    return st.fixed_dictionaries(dict(f=st.integers(3, 4), n=lengths(20000), k=KIND, s=seed32, bl=st.lists(st.integers(0, 5), max_size=8), g=st.integers(0, 1), p=st.sampled_from([0, 255])))


def run_stream(env, c):
    mp = env.mp
    f = 3 if mp.cat == 1 else 4
    m = xof(f"sd{c['s']}", c["n"])
    env.w.setmode(0, c["p"])
    R = Rnd("st", c["s"])
    sq = split(c["o"], c["b"], RATE[f], R)
    env.eq(env.w.call(93, blob(m) + blob(le32(sq)), "seeded stream").blob(), ref(f, m, c["o"]), f"stream of a {len(m)}-byte seed read as {sq[:12]}")
    # the process-wide generator, likewise
    env.w.seed(m)
    got = b"".join(env.w.random(k) for k in sq[:40])
    env.eq(got, ref(f, m, len(got)), f"generator seeded with {len(m)} bytes read as {sq[:12]}")
    return True


def strat_stream(env):
    return st.fixed_dictionaries(dict(n=st.one_of(st.sampled_from([16, 24, 32, 48, 64, 96, 98, 135, 136, 137, 167, 168, 169]), st.integers(0, 600)), o=lengths(5000), s=seed32, b=st.sampled_from(SPLIT), p=st.sampled_from([0, 255])))


def run_every(env, c):
    """every length in a range, one-shot and in two pieces"""
    f, w = c["f"], env.w
    for n in range(c["from"], c["to"]):
        m = xof("every", n)
        o = OUT[f] or 64
        want = ref(f, m, o)
        env.eq(w.call(90, u32(f) + u32(o) + blob(m), FN[f]).blob(), want, f"{FN[f]} of {n} bytes")
        k = n * 7 % (n + 1)
        env.eq(w.call(91, u32(f) + u32(o) + blob(m) + blob(le32([k, n - k])) + blob(le32([o // 3, o - o // 3])), f"{FN[f]} incremental").blob(), want, f"incremental {FN[f]} of {k}+{n - k} bytes")
        if f > 2:
            want = ref(f, b"out", n)
            env.eq(w.call(90, u32(f) + u32(n) + blob(b"out"), FN[f]).blob(), want, f"{n} bytes of {FN[f]}")
            env.eq(w.call(91, u32(f) + u32(n) + blob(b"out") + blob(le32([3])) + blob(le32([k, n - k])), f"{FN[f]} incremental").blob(), want, f"{k}+{n - k} bytes of {FN[f]}")
    return True


def scenarios(tier):
    S = []
    q = tier == "quick"
    for ps in ("1B", "3B", "5B"):
        for impl in ("ref", "avx2"):
            sp = Spec(impl, ps, groups=["api", "hash"])
            n = 400 if ps == "1B" else 120
            S.append(Scenario(f"one-shot/{ps[0]}", run_once, strat_once, sp, n=(n, n * 60), parts=(1, 4), cost=3, fixed=[dict(f=f, n=RATE[f] * k + d, o=77, k="ones", s=0, g=k & 1, p=255) for f in range(5) for k in (0, 1, 2) for d in (-2, -1, 0, 1) if RATE[f] * k + d >= 0]))
            S.append(Scenario(f"chunks/{ps[0]}", run_inc, strat_inc, sp, n=(n, n * 60), parts=(2, 6), cost=4, fixed=[dict(f=f, n=700, o=1000, k="random", s=3, a=a, b=SPLIT[(i + f) % 8], g=f & 1, p=255) for f in range(5) for i, a in enumerate(SPLIT)]))
            S.append(Scenario(f"blocks/{ps[0]}", run_blocks, strat_blocks, sp, n=(n // 3, n * 20), cost=3))
            S.append(Scenario(f"stream/{ps[0]}", run_stream, strat_stream, sp, n=(n // 3, n * 40), cost=3, parts=(1, 2)))
            if ps == "1B" or not q:
                S.append(Scenario(f"every length/{ps[0]}", run_every, None, sp, n=(0, 0), cost=4, fixed=[dict(f=f, **{"from": a, "to": a + 85}) for f in range(5) for a in range(0, 340 if q else 1360, 85)]))
            if ps == "1B":
                sp = Spec(impl, ps, "asan", groups=["api", "hash"])
                S.append(Scenario("sanitized", run_inc, strat_inc, sp, n=(100, 3000), cost=4))
    return S
