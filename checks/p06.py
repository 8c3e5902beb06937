from .common import *
from .sigedit import *
from harness.worker import blob, u32

RULE = "a case is a history of calls on one long-lived process, each repeated by a fresh process from the same generator state with other contents of uninitialised memory; non-trivial when at least one signature or key was produced; distinct by history"
ASSUME = ["uninitialised memory is modelled by filling 6 MiB of stack and every output buffer with a chosen byte before each call; MemorySanitizer runs as well in the thorough tier"]
OPS = ["key", "sign", "sign", "open", "badopen", "badopen", "random"]


def step():
    return st.fixed_dictionaries(dict(op=st.sampled_from(OPS), a=st.integers(0, 7), m=st.fixed_dictionaries(dict(n=st.one_of(st.integers(0, 40), st.sampled_from([136, 168, 1000, 5000])), s=st.integers(0, 9))), e=edits(SIG_KINDS + MSG_KINDS + PK_KINDS, 1, 2)))


def strat(env):
    return st.fixed_dictionaries(dict(seed=seed32, p=st.tuples(st.sampled_from([0, 0x5A, 0xFF, 0x7F, 1]), st.sampled_from([0, 0xFF, 0xA5, 0x80, 3])), h=st.lists(step(), min_size=2, max_size=7)))


def do(w, kind, args, fill):
    if kind == "key":
        return w.keypair()
    if kind == "sign":
        r, sl, sm = w.sign(args[0], args[1], fill)
        return r, sl, sm[:sl]
    if kind == "open":
        r, ml, m = w.open(args[0], args[1], fill)
        return (r, ml, m[:ml]) if r == 0 else (r,)
    return (w.random(args),)


def run(env, c):
    w, mp = env.w, env.mp
    spec = w.spec
    p1, p2 = c["p"]
    if p1 == p2:
        p2 ^= 0x55
    w.stop()
    w.seed(xof(f"hist{c['seed']}", 48))
    keys, sms = [], []
    good = False
    fresh = env.worker_fresh(spec)
    try:
        for n, s in enumerate([dict(op="key", a=0, m=dict(n=0, s=0), e=[])] + c["h"]):
            k = s["op"]
            a = s["a"]
            if k == "key":
                kind, args = "key", None
            elif k == "sign":
                kind, args = "sign", (keys[a % len(keys)][2], msg(s["m"]))
            elif k in ("open", "badopen"):
                if not sms:
                    continue
                ki, sm = sms[a % len(sms)]
                pk = keys[ki][1]
                if k == "badopen":
                    sm, pk = apply(mp, sm, pk, s["e"])
                kind, args = "open", (sm, pk)
            else:
                kind, args = "random", 1 + s["m"]["n"]
            st0 = w.rng()
            w.setmode(n & 1, p1)
            r1 = do(w, kind, args, p1)
            st1 = w.rng()
            fresh.stop()                          # a new process for every call
            fresh.set_rng(st0)
            fresh.setmode((n + 1) & 1, p2)
            r2 = do(fresh, kind, args, p2)
            env.label(k)
            env.eq(r1, r2, f"call {n} ({k}) after {n} earlier calls differs from the same call in a fresh process")
            env.eq(st1, fresh.rng(), f"generator state after call {n} ({k})")
            if kind == "open":
                env.eq(st1, st0, f"verification (call {n}) changed the generator state")
            if kind == "key":
                env.need(r1[0] == 0, "key generation failed")
                keys.append(r1)
                env.need(r1[1] not in [x[1] for x in keys[:-1]], "two key pairs of one history are equal")
            if kind == "sign":
                env.need(r1[0] == 0, "signing failed")
                good = True
                sms.append((a % len(keys), r1[2]))
    finally:
        fresh.stop()
    return good


# --- what is drawn from the generator does not depend on the data
def strat_use(env):
    return st.fixed_dictionaries(dict(op=st.sampled_from(["key", "sign", "sign"]), s=st.tuples(seed32, seed32), k=st.tuples(st.integers(0, 3), st.integers(0, 3)), m=st.tuples(msgs(3000), msgs(3000)), c=st.one_of(st.none(), chals())))


def run_use(env, c):
    w, mp = env.w, env.mp
    at = []
    for i in (0, 1):
        pk, sk = keypair(env, w, c["k"][i])
        s = xof(f"use{c['s'][i]}", 48)
        w.seed(s)
        f = chal(c["c"], mp.T, mp.W, mp.keys) if c["c"] and i else None
        if f:
            w.force(f)
        if c["op"] == "key":
            w.keypair()
        else:
            w.sign(sk, msg(c["m"][i]))
        if f:
            w.force(None)
        nx = w.random(16)
        stream = mp.xof(s, 4096)
        p = stream.find(nx)
        env.need(p >= 0, f"after {c['op']} the generator does not continue its own stream")
        at.append(p)
    env.eq(at[0], at[1], f"bytes drawn from the generator by {c['op']}")
    return True


# --- one process used for a long time
def run_long(env, c):
    w, mp = env.w, env.mp
    w.stop()
    S = mp.S
    R = Rnd("long", c["s"])
    ref = {}

    def act(k, i):
        w.seed(xof(f"long{k}{i}", 48))
        if k == "key":
            r = w.keypair()
            env.need(r[0] == 0, "key generation failed")
            return r[1:]
        if k == "sign":
            r, sl, sm = w.sign(ref["key", i][1], xof(f"m{i}", 3 * i))
            env.need(r == 0, "signing failed")
            return sm[:sl]
        if k == "open":
            r, ml, m = w.open(ref["sign", i], ref["key", i][0])
            return r, m[:ml] if r == 0 else b""
        if k == "bad":
            b = bytearray(ref["sign", i])
            b[(7 * i) % len(b)] ^= 1
            return w.open(bytes(b), ref["key", i][0])[0]
        sm = bytearray(ref["sign", i])
        if i:
            sm[-1] = [255, 254, mp.maxpub // S + 1][i]
        return w.open(bytes(sm) if i else bytes(sm[:9]), ref["key", i][0])[0]
    for i in range(3):
        for k in ("key", "sign", "open", "bad", "short"):
            ref[k, i] = act(k, i)
        env.eq(ref["open", i], (0, xof(f"m{i}", 3 * i)), "honest signature")
        env.need(ref["bad", i] != 0 and ref["short", i] != 0, "altered signature accepted")
    done = 0
    for k, n in c["plan"]:
        for j in range(n):
            i = R.below(3)
            q = k if k != "mix" else ["key", "sign", "open", "bad", "short"][R.below(5)]
            done += 1
            env.eq(act(q, i), ref[q, i], f"repetition of {q} after {done} more calls on the same process")
    for n in c["again"]:
        i = R.below(3)
        for sm in (ref["sign", i], ref["sign", i][:9]):
            if len(sm) == 9:
                n *= 20
            r = w.call(25, u32(n) + blob(sm) + blob(ref["key", i][0]), "repeated crypto_sign_open")
            env.eq(r.i32() == 0, len(sm) > 9, "whether the signature was accepted")
            env.eq(r.u32(), 0, f"number of {n} repetitions of a verification that ended otherwise than the first")
            done += n
    for q in ("key", "sign", "open", "bad", "short"):
        env.eq(act(q, 1), ref[q, 1], f"{q} after {done} more calls on the same process")
    env.labels["calls in long histories"] = env.labels.get("calls in long histories", 0) + done
    # the generator, in as many small pieces
    s = xof("longrng", 48)
    w.seed(s)
    got = b"".join(w.random(1 + j % 3) for j in range(c["draws"]))
    env.eq(got, mp.xof(s, len(got)), f"output of {c['draws']} small draws")
    return True


# --- after a call that ended early
def strat_after(env):
    return st.fixed_dictionaries(dict(k=st.integers(0, 2), s=seed32, n=st.integers(0, 60), e=st.lists(edits(SIG_KINDS + PK_KINDS, 1, 2), min_size=1, max_size=5)))


def run_after(env, c):
    """an altered signature, then genuine ones: wherever the first was given up, the others are not affected"""
    w, mp = env.w, env.mp
    pk, sk = keypair(env, w, c["k"])
    pk2, sk2 = keypair(env, w, c["k"] + 1)
    m = xof("after", c["n"])
    sm, sm2 = sign(env, w, sk, m, c["s"]), sign(env, w, sk2, m, c["s"])
    bad = 0
    for i, e in enumerate(c["e"]):
        a, p = apply(mp, sm, pk, e)
        r = w.open(a, p)[0]
        bad += r != 0
        q, good = ((pk, sm), (pk2, sm2))[i % 3 == 2]
        r, ml, out = w.open(good, q)
        env.need(r == 0 and out[:ml] == m, f"a genuine signature was rejected after the verification of an altered one {e}")
        if i % 4 == 3 or i == len(c["e"]) - 1:
            env.eq(sign(env, w, sk, m, c["s"]), sm, f"signature made after the verification of an altered one {e}")
    env.labels["altered signatures followed by genuine ones"] = env.labels.get("altered signatures followed by genuine ones", 0) + len(c["e"])
    return bad > 0


def after_cases(W):
    """every kind of alteration, of every response"""
    out = []
    for k in SIG_KINDS + PK_KINDS:
        act = k.startswith("act.")
        e = []
        for a in range(W if act else 3):
            for v in (0, 5, 125) if act else (1, 6):
                if k == "act.zero":
                    e += [[[k, 2 * W + a, v]], [[k, a, v]]]
                else:
                    e.append([[k, a, v]])
        out.append(dict(k=0, s=5, n=20, e=e))
    return out


def H(*ops):
    return [dict(op=o, a=a, m=dict(n=n, s=a), e=[[e, 7 * n + 3, 5 * a + 1]]) for o, a, n, e in ops]


FIXED = [dict(seed=11, p=(0, 255), h=H(("sign", 0, 20, "flip"), ("key", 0, 0, "flip"), ("sign", 1, 20, "flip"), ("open", 0, 0, "flip"), ("badopen", 0, 1, "act.coef"), ("open", 1, 0, "flip"), ("sign", 0, 21, "flip"))),
         dict(seed=12, p=(90, 3), h=H(("sign", 0, 5, "flip"), ("badopen", 0, 1, "count+"), ("sign", 0, 5, "flip"), ("badopen", 0, 2, "pk.127"), ("open", 0, 0, "flip"), ("badopen", 0, 4, "digest"), ("open", 1, 0, "flip"))),
         dict(seed=13, p=(255, 1), h=H(("key", 0, 0, "flip"), ("sign", 0, 300, "flip"), ("sign", 1, 1, "flip"), ("badopen", 1, 3, "pk.seed"), ("open", 1, 0, "flip"), ("badopen", 0, 3, "pk.swap"), ("open", 0, 0, "flip")))]


def scenarios(tier):
    S = []
    for ps in ALL:
        cat = int(ps[0])
        for impl in ("ref", "avx2"):
            b = {1: 60, 3: 20, 5: 10}[cat] // (1 if impl == 'avx2' else 2)
            rd = {1: None, 3: (6, 2), 5: (4, 2)}[cat] if impl == "ref" else None
            S.append(Scenario(f"history/{ps}", run, strat, red(impl, ps, r=rd), n=(b, b * 60), cost=6, fixed=FIXED))
            ra = {1: (9, 4), 3: (7, 3), 5: (5, 3)}[cat]
            if ps == "1B" or impl == "avx2" or tier != "quick":
                S.append(Scenario(f"after rejection/{ps}", run_after, strat_after, red(impl, ps, r=ra), n=({1: 30, 3: 6, 5: 3}[cat], {1: 3000, 3: 600, 5: 300}[cat]), cost=4, fixed=after_cases(ra[1])))
            S.append(Scenario(f"consumption/{ps}", run_use, strat_use, red(impl, ps, r=rd), n=(b, b * 20), cost=3))
            if impl == "avx2" or cat == 1:
                h = [dict(op=o, a=i, m=dict(n=20 + i, s=i), e=[["msg.flip", 3, i]]) for i, o in enumerate(["sign", "badopen", "open", "sign", "key", "open"][:6 if cat == 1 else 3])]
                S.append(Scenario(f"full/{ps}", run, strat, Spec(impl, ps), n=(0, {1: 60, 3: 8, 5: 2}[cat]), cost=12, parts=(1, 4), fixed=[dict(seed=3, p=(0, 255), h=h)] if cat == 1 or tier != "quick" or ps in ("3S", "5S") else [dict(seed=3, p=(0, 255), h=h[:1])]))
            q = tier == "quick"
            n = {1: 300, 3: 140, 5: 70}[cat] * (1 if impl == "avx2" else 0.5)
            a = n / 300
            if cat == 1 or impl == "avx2" or not q:
                m = 1 if q else 8
                S.append(Scenario(f"long/{ps}", run_long, None, red(impl, ps, r=(2, 1)), n=(0, 0), cost=8, fixed=[
                    dict(s=1, plan=[["sign", int(300 * m * a)], ["mix", int(300 * m * a)], ["key", int(60 * m * a)], ["open", int(300 * m * a)], ["short", 300]], again=[int((3400 if q else 70000) * a)], draws=6000 if q else 66000)]))
            if cat == 1 and (not q or ps != "1B"):
                S.append(Scenario(f"uninitialised/{ps}", run, strat, red(impl, ps, "msan", (3, 2) if q else None), n=(1, 60), cost=10, fixed=FIXED[:2] if q else FIXED))
    return S
