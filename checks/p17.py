from harness.worker import blob, u32

from .mats import *

RULE = "a case is non-trivial when sampled values (or an expanded code) were compared with rejection sampling from the stream; distinct by (seed, counts, request sequence)"
ASSUME = ["the definition: 64-bit little-endian words of the stream, nine 7-bit candidates each from the low end, out-of-range ones dropped, the rest of the last word discarded", "distribution bounds are loose enough (8 standard deviations) to fail by chance with probability below 1e-12"]


class Stream:
    def __init__(self, mp, seed):
        self.mp, self.seed, self.p, self.b = mp, seed, 0, b""

    def read(self, n):
        if self.p + n > len(self.b):
            self.b = self.mp.xof(self.seed, max(4096, 2 * (self.p + n)))
        self.p += n
        return self.b[self.p - n:self.p]

    def sample(self, n, lo, span):
        out = bytearray()
        while True:
            x = int.from_bytes(self.read(8), "little")
            for _ in range(9):
                v = x & 127
                x >>= 7
                if v <= span:
                    out.append(v + lo)
                if len(out) >= n:
                    return bytes(out[:n])


def seedof(c):
    return {0: bytes(c["n"]), 1: b"\xff" * c["n"]}.get(c["s"], xof(f"sv{c['s']}", c["n"]))


def run_values(env, c):
    w, mp = env.w, env.mp
    w.setmode(c["g"], 0)
    sd = seedof(c)
    for op, lo, span, name in ((32, 1, 125, "nonzero elements"), (33, 0, 126, "elements")):
        q = w.call(op, blob(sd) + u32(c["c"]), name)
        got, after = q.blob(), q.blob()
        S = Stream(mp, sd)
        env.eq(got, S.sample(c["c"], lo, span), f"{c['c']} {name}")
        env.eq(after, S.read(16), f"the stream after {c['c']} {name}")
        x, y = mp.sample(sd, lo, span, c["c"])
        env.need(x == got, "the model's sampling disagrees")
    return True


COUNT = st.one_of(st.sampled_from([1, 2, 8, 9, 10, 125, 126, 127, 200, 252, 274, 400, 548]), st.integers(1, 3000))


def strat_values(env):
    return st.fixed_dictionaries(dict(s=seed32, n=st.sampled_from([16, 24, 32, 48, 64, 98, 5, 200]), c=COUNT, g=st.integers(0, 1)))


def run_global(env, c):
    """a history of requests to the process-wide generator"""
    w, mp = env.w, env.mp
    sd = seedof(c)
    w.seed(sd)
    S = Stream(mp, sd)
    for kind, n in c["h"]:
        if kind == "bytes":
            env.eq(w.random(n), S.read(n), f"{n} random bytes")
        elif kind == "star":
            env.eq(w.call(34, u32(max(n, 1)), "fq_star_rnd_elements").blob(), S.sample(max(n, 1), 1, 125), f"{n} nonzero elements")
        elif kind == "any":
            env.eq(w.call(35, u32(max(n, 1)), "rand_range_q_elements").blob(), S.sample(max(n, 1), 0, 126), f"{n} elements")
        elif kind == "matrix":
            env.eq(w.call(159, b"", "generator_rnd").blob(), b"".join(S.sample(mp.N, 0, 126) for _ in range(mp.K)), "random matrix")
        elif kind == "reseed":
            sd = xof(f"re{n}", 48)
            w.seed(sd)
            S = Stream(mp, sd)
    return True


def strat_global(env):
    h = st.tuples(st.sampled_from(["bytes", "star", "any", "bytes", "star", "any", "matrix", "reseed"]), st.one_of(st.integers(0, 20), st.integers(0, 2000)))
    return st.fixed_dictionaries(dict(s=seed32, n=st.sampled_from([16, 48, 64]), h=st.lists(h, min_size=1, max_size=8)))


def run_code(env, c):
    w, mp = env.w, env.mp
    K, N, S = mp.K, mp.N, mp.S
    w.setmode(0, c["p"])
    sd = seedof(dict(c, n=S))

    def one(sd):
        G = w.call(69, blob(sd), "generator_SF_seed_expand").blob()
        s = Stream(mp, sd)
        want = b"".join(bytes(i == j for j in range(K)) + s.sample(N - K, 0, 126) for i in range(K))
        env.eq(G, want, "public code expanded from a seed")
        env.need(mp.G0(sd) == G, "the model's expansion disagrees")
        return G
    G = one(sd)
    seen = {G}
    for p in range(c["b"] % 4, S, 4):
        x = bytearray(sd)
        x[p] ^= 1 << (c["b"] % 8)
        g = one(bytes(x))
        env.need(g not in seen, f"byte {p} of the seed does not matter")
        seen.add(g)
    return True


def strat_code(env):
    return st.fixed_dictionaries(dict(s=seed32, b=st.integers(0, 31), p=st.sampled_from([0, 255])))


def run_dist(env, c):
    w, mp = env.w, env.mp
    for op, lo, hi in ((32, 1, 126), (33, 0, 126)):
        n = c["n"]
        got = np.frombuffer(w.call(op, blob(xof(f"dist{c['s']}", 32)) + u32(n), "sampling").blob(), np.uint8)
        cnt = np.bincount(got, minlength=256)
        env.need(cnt[:lo].sum() == 0 and cnt[hi + 1:].sum() == 0, f"values outside {lo}..{hi}")
        p = 1 / (hi - lo + 1)
        e, sd = n * p, (n * p * (1 - p)) ** .5
        bad = [v for v in range(lo, hi + 1) if abs(cnt[v] - e) > 8 * sd]
        env.need(not bad, f"value {bad and bad[0]} occurs {bad and cnt[bad[0]]} times among {n}, expected {e:.0f}")
    return True


def scenarios(tier):
    S = []
    q = tier == "quick"
    for ps, n in (("1B", 300), ("3B", 150), ("5B", 100)):
        for impl in ("ref", "avx2"):
            sp = Spec(impl, ps, groups=["api", "fq", "code"])
            S.append(Scenario(f"values/{ps[0]}", run_values, strat_values, sp, n=(n, n * 60), parts=(1, 3), cost=3, fixed=[dict(s=i, n=32, c=x, g=i & 1) for i, x in enumerate(list(range(1, 40)) + [252, 126, 200, 274])]))
            S.append(Scenario(f"history/{ps[0]}", run_global, strat_global, sp, n=(n // 2, n * 30), parts=(1, 3), cost=4))
            S.append(Scenario(f"code/{ps[0]}", run_code, strat_code, sp, n=(n // 8, n * 6), cost=6, parts=(1, 2), fixed=[dict(s=s, b=b, p=255) for s, b in ((0, 0), (1, 1), (2, 2), (3, 3))]))
            S.append(Scenario(f"distribution/{ps[0]}", run_dist, None, sp, n=(0, 0), cost=2, fixed=[dict(s=s, n=300000) for s in range(2 if q else 200)]))
    return S
