from .common import *

RULE = "a case is non-trivial when a signature was produced and verified; distinct by (key seed, signing seed, message, challenge shape)"
ASSUME = ["fewer rounds (T, W) are compiled in through the command line for the bulk of the cases; the full parameters run too"]


def strat(env):
    return st.fixed_dictionaries(dict(k=st.integers(0, 7), s=seed32, m=msgs()))


def strat_forced(env):
    return st.fixed_dictionaries(dict(k=st.integers(0, 7), s=seed32, m=msgs(3000), c=chals()))


def run(env, c):
    w, mp = env.w, env.mp
    pk, sk = keypair(env, w, c["k"])
    m = msg(c["m"])
    f = chal(c["c"], mp.T, mp.W, mp.keys) if "c" in c else None
    sm = sign(env, w, sk, m, c["s"], f)
    env.eq(sm[:len(m)], m, "the signed message does not start with the message")
    env.need(len(sm) - len(m) <= mp.sigmax, f"signature of {len(sm)-len(m)} bytes is longer than the maximum {mp.sigmax}")
    r, ml, out = opened(w, sm, pk, f)
    env.need(r == 0, f"an honest signature on {len(m)} bytes was rejected ({r})")
    env.eq(ml, len(m), "recovered message length")
    env.eq(out[:ml], m, "recovered message")
    env.label(f"seeds-published={sm[-1]*100//(mp.maxpub//mp.S)//10*10}%+" if mp.maxpub else "none", "empty message" if not m else "long message" if len(m) > 65535 else "message")
    if f:
        env.label("challenge " + c["c"]["shape"])
    return True


def run_lengths(env, c):
    """Every message length in a range (two rounds)."""
    w = env.w
    pk, sk = keypair(env, w, c["k"])
    for n in list(range(c["lo"], c["hi"], c.get("step", 1))) + c.get("more", []):
        m = xof(f"l{c['k']}", n)
        sm = sign(env, w, sk, m, n)
        env.need(sm[:n] == m, f"the signed message does not start with the message ({n} bytes)")
        r, ml, out = opened(w, sm, pk)
        env.need(r == 0, f"an honest signature on {n} bytes was rejected ({r})")
        env.need(ml == n and out[:ml] == m, f"message of {n} bytes not recovered")
    env.label("message length sweep")
    return True


def sweep(full, tier):
    """Chunks of a sweep over message lengths, with lengths around powers of two."""
    top = (1200 if full else 300) * (4 if tier == "thorough" else 1)
    L = [dict(k=i % 3, lo=a, hi=a + 150) for i, a in enumerate(range(0, top, 150))]
    L.append(dict(k=1, lo=0, hi=0, more=[(1 << b) + d for b in range(9, 18) for d in (-2, -1, 0, 1, 2)] + [1000 * i for i in range(2, 20)]))
    return L


def scenarios(tier):
    S = []
    for ps in ALL:
        cat = ps[0]
        for impl in ("ref", "avx2"):
            ref = impl == "ref"
            S.append(Scenario(f"forced/{ps}", run, strat_forced, red(impl, ps), n=(40 if cat == "1" else 12, 4000 // int(cat) ** 2), cost=3))
            S.append(Scenario(f"reduced/{ps}", run, strat, red(impl, ps), n=(40 if cat == "1" else 12, 4000 // int(cat) ** 2), cost=3))
            if ps in ("1B", "3B") or ps in ("5B", "1S") and not ref:
                S.append(Scenario(f"lengths/{ps}", run_lengths, None, red(impl, ps, r=(2, 1)), n=(0, 0), fixed=sweep(cat == "1", tier), cost=25 if ref else 8))
            full = Spec(impl, ps)
            worst = [dict(k=0, s=7, m=dict(n=33, s=1), c=dict(shape="worst", s=1, v=9))]
            if not ref or cat == "1":
                S.append(Scenario(f"full/{ps}", run, strat_forced, full, n=({"1": 6, "3": 2, "5": 0}[cat], {"1": 800, "3": 60, "5": 12}[cat]), fixed=worst, parts=(1, 8), cost=20 if cat == "5" else 6))
                S.append(Scenario(f"full-free/{ps}", run, strat, full, n=({"1": 6, "3": 1, "5": 0}[cat], {"1": 800, "3": 60, "5": 12}[cat]), parts=(1, 8), cost=5))
            elif cat == "3":
                S.append(Scenario(f"full/{ps}", run, strat_forced, full, n=(0, 16), fixed=worst, parts=(1, 8), cost=30))
            else:
                S.append(Scenario(f"full/{ps}", run, strat_forced, full, n=(0, 4), fixed=worst, parts=(1, 4), cost=80, tier=None if ps == "5S" else "thorough"))
    return S
