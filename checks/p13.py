from harness.worker import blob, u32

from .mats import *
from . import p02
from .p12 import action

RULE = "a case is non-trivial when the verdict on an action with a stated defect (or on a valid one) was compared with the definition; distinct by (action, defects)"
ASSUME = ["the definition: coefficients 1..126, positions below N, no position twice"]
EXHAUSTIVE = ["every pair of entries holding the same position (category 1, both implementations; all categories in thorough, every second and fifth diagonal in quick)", "every out-of-range value in every entry: coefficients 0 and 127..255, positions N to the largest the compressed form can hold"]


def valid(a, N):
    c, p = a
    return bool((c >= 1).all() and (c <= 126).all() and (p < N).all() and len(set(p.tolist())) == len(p))


def ask(env, a, what, packed=False):
    w, mp = env.w, env.mp
    want = valid(a, mp.N)
    r = w.call(58, blob(a[0].tobytes()) + blob(a[1].tobytes()), "is_monom_action_valid").u32()
    env.need(bool(r) == want, f"{'a valid' if want else 'an invalid'} action was {'accepted' if r else 'rejected'}: {what}")
    if packed and (a[0] < 128).all() and (a[1] < 1 << mp.N.bit_length()).all():
        r = w.call(49, blob(mp.pack_act(a[0].tobytes(), a[1].tobytes())), "is_monom_action_valid").u32()
        env.need(bool(r) == want, f"{'a valid' if want else 'an invalid'} compressed action was {'accepted' if r else 'rejected'}: {what}")


def run(env, c):
    mp = env.mp
    K, N = mp.K, mp.N
    top = 1 << N.bit_length()
    env.w.setmode(0, c["poison"])
    a = action(c["a"], K, N)
    d = []
    for kind, i, v in c["d"]:
        i %= K
        if kind == "zero":
            a[0][i] = 0
        elif kind == "coef":
            a[0][i] = [127, 128, 254, 255][v % 4] if v < 200 else 127
        elif kind == "pos":
            a[1][i] = N + v % (top - N)
        elif kind == "dup":
            a[1][i] = a[1][v % K]
        elif kind == "swap":
            j = v % K
            a[1][i], a[1][j] = a[1][j], a[1][i]
        elif kind == "free":
            un = sorted(set(range(N)) - set(a[1].tolist()))
            a[1][i] = un[v % len(un)]
        elif kind == "c":
            a[0][i] = 1 + v % 126
        d.append((kind, i))
    env.label("valid" if valid(a, N) else "invalid")
    ask(env, a, f"{d}", True)
    return True


def strat(env):
    i = st.one_of(st.sampled_from([0, 1, 2, 7, 8, 31, 32, 62, 63, 64, 124, 125, 126]), st.integers(0, 1 << 12))
    d = st.tuples(st.sampled_from(["zero", "coef", "pos", "dup", "swap", "free", "c"]), i, i)
    return st.fixed_dictionaries(dict(a=st.fixed_dictionaries(dict(s=seed32, p=st.sampled_from(["random", "first", "last", "desc", "even", "roll"]), c=st.sampled_from(["random", "one", "max", "count", "bits"]))), d=st.lists(d, max_size=4), poison=st.sampled_from([0, 255])))


def run_pairs(env, c):
    """every pair of entries with the same position"""
    mp = env.mp
    K, N = mp.K, mp.N
    co, p = action(c["a"], K, N)
    ask(env, (co, p), "none")
    for i in range(c["part"], K, c["of"]):
        for j in range(K):
            if i < j and ((i + j) % c["skip"] == 0 or i < 2 or j - i < 3 or j > K - 3):
                q = p.copy()
                q[j] = q[i]
                ask(env, (co, q), f"entries {i} and {j} hold the same position")
    return True


def run_range(env, c):
    """every entry with every out-of-range value"""
    mp = env.mp
    K, N = mp.K, mp.N
    co, p = action(c["a"], K, N)
    for i in range(c["part"], K, c["of"]):
        for v in [0, *range(120, 256)] if i % 8 == 0 or i > K - 3 else [0, 1, 126, 127, 128, 255]:
            x = co.copy()
            x[i] = v
            ask(env, (x, p), f"coefficient {v} in entry {i}", v < 128)
        for v in range(N, 1 << N.bit_length(), 1 if i % c["fine"] == 0 or i > K - 3 else 37):
            x = p.copy()
            x[i] = v
            ask(env, (co, x), f"position {v} in entry {i}", True)
        for v in (N, (1 << N.bit_length()) - 1):
            x = p.copy()
            x[i] = v
            ask(env, (co, x), f"position {v} in entry {i}", True)
    return True


# --- forged signatures with such an action: verification must reject them, even when the digest is made to match
BAD = ["coef0", "coef127", "dup", "posN"]


def strat_forge(env):
    i = st.one_of(st.sampled_from([0, 1, 63, 64, 125, 600]), st.integers(0, 600))
    return st.fixed_dictionaries(dict(k=st.integers(0, 2), s=seed32, m=st.just(dict(n=5, s=0)), c=chals(), bad=st.sampled_from(BAD), w=st.integers(0, 7), e=i, d=i))


def run_sig(env, c):
    w, mp = env.w, env.mp
    K, N = mp.K, mp.N
    pk, sk = keypair(env, w, c["k"])
    sm = sign(env, w, sk, xof("m", c["n"]), c["s"])
    env.need(opened(w, sm, pk)[0] == 0, "the genuine signature was rejected")
    at = c["n"] + 2 * mp.S + (c["w"] % mp.W) * mp.ab
    ok, co, po = mp.unpack_act(sm[at:at + mp.ab])
    co, po = np.frombuffer(co, np.uint8).copy(), np.frombuffer(po, np.uint16).copy()
    for kind, i, v in c["d"]:
        i %= K
        if kind == "zero":
            co[i] = 0
        elif kind == "coef":
            co[i] = 127
        elif kind == "pos":
            po[i] = N + v % ((1 << N.bit_length()) - N)
        elif kind == "dup" and i != v % K:
            po[i] = po[v % K]
    if valid((co, po), N):
        return False
    r, ml, m = opened(w, sm[:at] + mp.pack_act(co.tobytes(), po.tobytes()) + sm[at + mp.ab:], pk)
    env.need(r != 0, "a signature with an invalid action was accepted")
    return True


def strat_sig(env):
    d = st.tuples(st.sampled_from(["zero", "coef", "pos", "dup"]), st.integers(0, 4095), st.integers(0, 4095))
    return st.fixed_dictionaries(dict(k=st.integers(0, 2), s=st.integers(0, 20), n=st.sampled_from([0, 9]), w=st.integers(0, 255), d=st.lists(d, min_size=1, max_size=3)))


def scenarios(tier):
    S = []
    q = tier == "quick"
    A = dict(s=1, p="random", c="random")
    for ps, n in (("1B", 800), ("3B", 400), ("5B", 300)):
        for impl in ("ref", "avx2"):
            sp = Spec(impl, ps, groups=["api", "mono"])
            S.append(Scenario(f"defects/{ps[0]}", run, strat, sp, n=(n, n * 60), parts=(1, 4), cost=4))
            S.append(Scenario(f"pairs/{ps[0]}", run_pairs, None, sp, n=(0, 0), cost=9, fixed=[dict(a=dict(A, p=p), part=i, of=4, skip=(1 if not q else {"1B": 1, "3B": 2, "5B": 5}[ps])) for p in (["random"] if q else ["random", "first", "desc"]) for i in range(4)]))
            S.append(Scenario(f"range/{ps[0]}", run_range, None, sp, n=(0, 0), cost=5, fixed=[dict(a=A, part=i, of=4, fine=16 if ps == "1B" or not q else 60) for i in range(4)]))
            rd = {"1B": None, "3B": (6, 2), "5B": (4, 2)}[ps] if impl == "ref" else None
            b = {"1B": 60, "3B": 14, "5B": 8}[ps] // (1 if impl == "avx2" else 2)
            S.append(Scenario(f"forge/{ps[0]}", p02.run_forge, strat_forge, red(impl, ps, r=rd), n=(b, b * 80), parts=(1, 3), cost=9,
                              fixed=[dict(k=1, s=i, m=dict(n=9, s=1), c=dict(shape="spread", s=i, v=9), bad=x, w=i % 4, e=e, d=(0, 600, 77)[i % 3]) for i, (x, e) in enumerate((x, e) for x in BAD for e in (0, 125, 600))][:: 1 if ps == "1B" else 2]))
            S.append(Scenario(f"signature/{ps[0]}", run_sig, strat_sig, red(impl, ps, r=rd), n=({"1B": 60, "3B": 20, "5B": 10}[ps] // (1 if impl == "avx2" else 4), {"1B": 6000, "3B": 2000, "5B": 800}[ps] // (1 if impl == "avx2" else 2)), parts=(1, 2), cost=6,
                              fixed=[dict(k=0, s=i, n=0, w=[0, 255, 1][i % 3], d=[d]) for i, d in enumerate([("dup", 0, 1), ("dup", 5000, 0), ("zero", 0, 0), ("zero", 125, 0), ("coef", 3, 0), ("pos", 1, 0), ("pos", 2, 7)])]))
    return S
