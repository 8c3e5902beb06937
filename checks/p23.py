from .common import *
from .sigedit import *
from harness.worker import blob, u32

RULE = "a case is non-trivial when at least two threads verified at the same time and at least one of the signed messages was accepted; distinct by (keys, signatures, alterations, threads)"
ASSUME = ["interleavings are those the scheduler produces on several cores; ThreadSanitizer reports unsynchronised sharing on any interleaving that executes it", "only one thread at a time signs or generates keys: these use the process-wide generator"]
KINDS = SIG_KINDS + MSG_KINDS + PK_KINDS


def strat(env):
    job = st.fixed_dictionaries(dict(k=st.integers(0, 3), s=st.integers(0, 9), n=st.sampled_from([0, 1, 33, 200, 1000, 5000]), e=st.one_of(st.just([]), edits(KINDS, 1, 1))))
    return st.fixed_dictionaries(dict(t=st.integers(2, 6), sg=st.booleans(), j=st.lists(job, min_size=2, max_size=6)))


def model_signed(env, mp, k, s, n):
    """Keys and a signed message from the model: nothing is called in the process before the threads start."""
    key = ("msigned", mp.par, k, s, n)
    if key not in env.cache:
        S = mp.S
        b, r = xof(f"mk{k}", 3 * S), xof(f"ms{s}", 3 * S)
        m = xof("m", n)
        env.cache[key] = (m + mp.sign(b[:2 * S], b[2 * S:], r[:S], r[S:], m, None)[0], mp.keygen(b[:2 * S], b[2 * S:]), b)
    return env.cache[key]


def run_first(env, c):
    """The first calls of a process are made by several threads at once."""
    mp = env.mp
    jobs, want, sk = b"", [], None
    for x in c["j"]:
        sm, pk, sk = model_signed(env, mp, x["k"], x["s"], x["n"])
        sm, pk = apply(mp, sm, pk, x["e"])
        jobs += blob(sm) + blob(pk)
        want.append(None if x["e"] else 0)
    p = u32(c["t"]) + u32(1) + u32(2 + c["sg"])
    if c["sg"]:
        p += blob(xof("thr", 48)) + blob(sk) + blob(xof("m", 100))
    w = env.worker_fresh(env.w.spec)
    r = w.call(190, p + jobs, "the first crypto_sign_open of a process, from several threads")
    bad, first, sl = r.u32(), r.i32(), r.u32()
    ret = [r.i32() for _ in want]
    w.stop()
    env.need(all(b is None or a == b for a, b in zip(ret, want)), "a genuine signature was rejected after the first calls of a process came from several threads")
    env.need(bad == 0, f"{bad} results of the first calls of a process, made by {c['t']} threads at once, differ from those of one thread")
    env.label("first calls of a process")
    return 0 in ret


def run(env, c):
    w, mp = env.w, env.mp
    jobs, want = b"", []
    for x in c["j"]:
        pk, sk = keypair(env, w, x["k"])
        key = ("sm", w.spec.key, x["k"], x["s"], x["n"])
        if key not in env.cache:
            env.cache[key] = sign(env, w, sk, xof("m", x["n"]), x["s"])
        sm, pk = apply(mp, env.cache[key], pk, x["e"])
        jobs += blob(sm) + blob(pk)
        want.append(None if x["e"] else 0)
    k0 = c["j"][0]["k"]
    pk, sk = keypair(env, w, k0)
    it = c.get("it", max(1, (16 if w.spec.impl == "avx2" else 6) // len(c["j"])))
    p = u32(c["t"]) + u32(it) + u32(c["sg"])
    if c["sg"]:
        p += blob(xof("thr", 48)) + blob(sk) + blob(xof("m", 100))
    r = w.call(190, p + jobs, "crypto_sign_open from several threads")
    bad, first, sl = r.u32(), r.i32(), r.u32()
    ret = [r.i32() for _ in want]
    for a, b in zip(ret, want):
        env.need(b is None or a == b, "a genuine signature was rejected by a single thread")
    env.need(not c["sg"] or sl, "signing failed")
    env.need(bad == 0, f"{bad} results of {c['t']} threads differ from those of one thread" + (f" (among them the signature made at the same time)" if first == 99 else f" (among them that of input {first})" if first >= 0 else ""))
    env.labels["concurrent calls"] = env.labels.get("concurrent calls", 0) + c["t"] * it * len(want)
    env.label("with a concurrent signer" if c["sg"] else "verifiers only")
    return 0 in ret


def scenarios(tier):
    S = []
    q = tier == "quick"
    J = [dict(k=0, s=0, n=33, e=[]), dict(k=1, s=1, n=0, e=[]), dict(k=0, s=2, n=1000, e=[["msg.flip", 5, 1]]), dict(k=2, s=3, n=200, e=[]), dict(k=1, s=4, n=33, e=[["act.coef", 3, 9]]), dict(k=2, s=0, n=5000, e=[["seed.flip", 1, 1]])]
    FX = [dict(t=4, sg=False, j=J), dict(t=4, sg=True, j=J[:4]), dict(t=2, sg=True, j=J[1:3]), dict(t=6, sg=False, j=J[::2])]
    G_ = ("api", "wrap", "thr")
    for ps in ALL:
        cat = int(ps[0])
        for impl in ("ref", "avx2"):
            a = impl == "avx2"
            n = {1: 8, 3: 3, 5: 2}[cat] * (2 if a else 1)
            S.append(Scenario(f"threads/{ps}", run, strat, red(impl, ps, groups=G_, r=None if a or cat == 1 else (4, 2)), n=(n, n * 40), cost=8, fixed=FX if a else [dict(x, it=2) for x in FX[:4 if cat == 1 else 2]]))
            S.append(Scenario(f"race detector/{ps}", run, strat, red(impl, ps, "tsan", groups=G_, r=(3, 2) if a or not q else (2, 1)), n=(0 if q else 1, 40), cost=8 if a else 10 * cat, fixed=[dict(x, t=2, it=1) for x in FX[:2]] if q and a else [dict(t=2, it=1, sg=True, j=J[:1] + J[4:5])] if q else [dict(x, it=2) for x in FX]))
            if ps[1] == "B" or not q:
                F1 = [dict(t=4, sg=False, j=J[:2] * 2), dict(t=3, sg=True, j=J[:2])]
                S.append(Scenario(f"first calls/{ps}", run_first, None, red(impl, ps, groups=G_, r=(4, 2)), n=(0, 0), cost=3 if a else 12, fixed=F1 * ((3 if a else 1) if q else 30)))
                if a or cat == 1 or not q:
                    S.append(Scenario(f"first calls, race detector/{ps}", run_first, None, red(impl, ps, "tsan", groups=G_, r=(2, 1)), n=(0, 0), cost=6, fixed=F1[:1] if q and not a else F1 * (1 if q else 10)))
            if ps == "1I" and a or cat == 1 and not q:
                S.append(Scenario(f"full/{ps}", run, strat, Spec(impl, ps, groups=G_), n=(0, 40), cost=8, fixed=[dict(x, it=2) for x in FX[:1 if q else 4]]))
    return S
