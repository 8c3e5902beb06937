import glob
import os
import subprocess
import tempfile

from .common import *
from .sigedit import *

RULE = "a case is non-trivial when the bytes were actually parsed (not rejected for their length alone), or when a key pair or signature was produced; distinct by (key, bytes description, guard placement)"
ASSUME = ["clang's (and, unoptimised, gcc's) AddressSanitizer and UndefinedBehaviorSanitizer (without the alignment and shift-base checks), and page guards on both ends of every buffer", "a call that uses more than 240 s of processor time counts as not terminating"]
KINDS = SIG_KINDS + MSG_KINDS + PK_KINDS
guards = st.one_of(st.integers(0, 1), st.integers(0, 67))     # which end is guarded, and how far inwards the buffer begins


def bad(env, c, sm, pk, f=None):
    w, mp = env.w, env.mp
    w.setmode(c["g"], 0xA7)
    want = mp.open(pk, sm, f)
    r, ml, out = opened(w, sm, pk, f)
    env.need((r == 0) == (want == 0), f"{len(sm)} bytes: {'accepted' if r == 0 else 'rejected'}, where the scheme {'accepts' if want == 0 else 'rejects'}")
    if r == 0:
        env.need(ml <= len(sm), "recovered length exceeds the input")
    env.label("model verdict " + "accept,short,count>max,count,padding,action,key,digest".split(",")[want])
    return want != 1


# --- bytes unrelated to any signature
def strat_garbage(env):
    mp = env.mp
    mx = mp.maxpub // mp.S
    return st.fixed_dictionaries(dict(g=guards, k=st.integers(0, 2), own=st.booleans(), s=seed32, fill=st.sampled_from(["random", "zero", "ones", "small"]),
                                      count=st.one_of(st.integers(0, 255), st.integers(0, mx + 2)), delta=st.one_of(st.integers(-3, 3), st.integers(-70, 200)), c=st.one_of(st.none(), chals())))


def run_garbage(env, c):
    w, mp = env.w, env.mp
    R = Rnd("garbage", c["s"])
    n = max(0, mp.siglen(min(c["count"], mp.maxpub // mp.S)) + c["delta"])
    fill = {"random": R.bytes, "zero": bytes, "ones": lambda n: b"\xff" * n, "small": lambda n: bytes(b & 3 for b in R.bytes(n))}[c["fill"]]
    b = bytearray(fill(n))
    if n:
        b[-1] = c["count"]
    pk = keypair(env, w, c["k"])[0] if c["own"] else fill(mp.pkb)
    f = chal(c["c"], mp.T, mp.W, mp.keys) if c["c"] else None
    return bad(env, c, bytes(b), pk, f)


# --- a genuine one, altered
def strat_edit(forced):
    def f(env):
        d = dict(g=guards, k=st.integers(0, 2), s=st.integers(0, 20), n=st.sampled_from([0, 1, 7, 64, 300]), e=edits(KINDS, 1, 3))
        if forced:
            d["c"] = chals()
        return st.fixed_dictionaries(d)
    return f


def run_edit(env, c):
    w, mp = env.w, env.mp
    pk, sk = keypair(env, w, c["k"])
    f = chal(c["c"], mp.T, mp.W, mp.keys) if "c" in c else None
    key = ("sm", c["k"], c["s"], c["n"], f)
    if key not in env.cache:
        env.cache[key] = sign(env, w, sk, xof("m", c["n"]), c["s"], f)
    sm, pk = apply(mp, env.cache[key], pk, c["e"])
    return bad(env, c, sm, pk, f)


# --- every length of a cut-off signature
def run_cut(env, c):
    w, mp = env.w, env.mp
    pk, sk = keypair(env, w, 0)
    key = ("sm", 0)
    if key not in env.cache:
        env.cache[key] = sign(env, w, sk, b"", 1)
    sm = env.cache[key]
    for n in range(c["lo"], min(c["hi"], len(sm))):
        for d in ("head", "tail"):
            b = sm[:n] if d == "head" else sm[len(sm) - n:]
            bad(env, c, b, pk)
    return True


# --- honest use at every kind of length
def strat_honest(env):
    return st.fixed_dictionaries(dict(g=guards, s=seed32, m=msgs(70000)))


def run_honest(env, c):
    w, mp = env.w, env.mp
    w.setmode(c["g"], 0x5C)
    pk, sk = keypair(env, w, c["s"] % 3, cache=False)
    sm = sign(env, w, sk, msg(c["m"]), c["s"])
    r, ml, out = opened(w, sm, pk)
    env.need(r == 0 and out[:ml] == msg(c["m"]), "honest signature rejected")
    return True


# --- coverage-guided
def fuzz_exe(env, spec):
    key = ("fuzz", spec.key)
    if key in env.cache:
        return env.cache[key]
    from harness.build import BASE, REPO, VERIF, Builder
    d = os.path.join(os.path.dirname(os.path.dirname(env.exe[spec.key])), "fuzz-" + spec.key)
    os.makedirs(d, exist_ok=True)
    fl = [x for x in Builder(d).cflags(spec)]
    fl[0:2] = ["clang", "-O2"]
    fl = [x for x in fl if not x.startswith("-fsanitize") and not x.startswith("-fno-sanitize")]
    srcs = sorted(glob.glob(f"{REPO}/{BASE[spec.impl]}/lib/*.c"))
    if not os.path.exists(d + "/fuzz"):
        r = subprocess.run(fl + ["-fsanitize=fuzzer,address", f"{VERIF}/worker/fuzz_open.c"] + srcs + ["-o", d + "/fuzz", "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Unsupported("fuzz target: " + r.stdout[-300:])
    env.cache[key] = d + "/fuzz"
    return env.cache[key]


def run_fuzz(env, c):
    exe = fuzz_exe(env, env.sc.spec)
    with tempfile.TemporaryDirectory(prefix="less-fuzz-") as t:
        os.mkdir(t + "/corpus")
        if "data" in c:
            open(t + "/in", "wb").write(bytes.fromhex(c["data"]))
            args = [t + "/in"]
        else:
            args = [t + "/corpus", f"-runs={c['runs']}", f"-max_total_time={c['time']}", f"-seed={c['seed'] % (1 << 31) + 1}", "-max_len=65536", "-len_control=10", "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", f"-artifact_prefix={t}/"]
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        if r.returncode:
            err = [l for l in r.stdout.splitlines() if "ERROR" in l or "runtime error" in l or "FORGERY" in l]
            art = [x for x in os.listdir(t) if x.split("-")[0] in ("crash", "timeout", "oom")]
            h = open(f"{t}/{art[0]}", "rb").read().hex() if art else ""
            if h:
                c["data"] = h                                   # the replay file then holds the input itself
            raise Violation("coverage-guided fuzzing of crypto_sign_open: " + "; ".join(err[:2]) + (f" on fuzz input {h[:400]}" if h else ""))
        cov = [l for l in r.stdout.splitlines() if "cov: " in l]
        if cov:
            env.label("libFuzzer edges " + cov[-1].split("cov: ")[1].split()[0])
        for l in r.stdout.splitlines():
            if "number_of_executed_units" in l:
                env.labels["libFuzzer inputs"] = env.labels.get("libFuzzer inputs", 0) + int(l.split()[-1])
    return True


def scenarios(tier):
    S = []
    quick = tier == "quick"
    for ps in ALL:
        cat = int(ps[0])
        for impl in ("ref", "avx2"):
            if quick and ps in ("1B", "3S", "5S"):
                impls = "avx2" if ps != "5S" else "ref"
                if impl != impls:
                    continue
            # the reference implementation is slow under the sanitizers: still fewer rounds
            sp = red(impl, ps, "asan", {1: (6, 2), 3: (4, 2), 5: (3, 2)}[cat] if impl == "ref" else None)
            kinds = KINDS * 2 if impl == "avx2" and cat == 1 or not quick else KINDS if cat < 5 or impl == "avx2" else KINDS[::2]
            b = {1: 120, 3: 40, 5: 24}[cat] // (1 if impl == "avx2" else 2)
            S.append(Scenario(f"garbage/{ps}", run_garbage, strat_garbage, sp, n=(b, b * 50), cost=3))
            S.append(Scenario(f"edited/{ps}", run_edit, strat_edit(True), sp, n=(b, b * 50), cost=15 if impl == "ref" and cat > 1 else 4,
                              fixed=[dict(g=i % 7 * (i % 3 == 2) * 2 + (i & 1), k=i % 3, s=i % 20, n=[0, 64][i & 1], e=[[k, 12345 * i + 7, 977 * i]], c=dict(shape="random", s=i % 7, v=9)) for i, k in enumerate(kinds)]))
            S.append(Scenario(f"natural/{ps}", run_edit, strat_edit(False), sp, n=(b // 2, b * 25), cost=3))
            S.append(Scenario(f"honest/{ps}", run_honest, strat_honest, sp, n=(b // 6, b * 4), cost=3))
            top = 4 * {1: 16, 3: 24, 5: 32}[cat] + 40
            step = 1 if cat == 1 else 40
            S.append(Scenario(f"cut/{ps}", run_cut, None, sp, n=(0, 0), cost=3, fixed=[dict(g=g, lo=0, hi=top) for g in (0, 1)] + ([] if quick else [dict(g=g, lo=a, hi=a + 200) for a in range(top, 12000, 200) for g in (0, 1)])))
            # without optimisation: accesses whose result is not used are still made
            if cat == 1 or not quick:
                s0 = red(impl, ps, "asan0", (3, 2))
                S.append(Scenario(f"unoptimised-edited/{ps}", run_edit, strat_edit(False), s0, n=(6, b * 4), cost=6, fixed=[dict(g=i & 1, k=i % 3, s=i % 20, n=[0, 64][i & 1], e=[[k, 12345 * i + 7, 977 * i]]) for i, k in enumerate(KINDS[(ps == "1S")::2])]))
                S.append(Scenario(f"unoptimised-honest/{ps}", run_honest, strat_honest, s0, n=(4, b), cost=4))
            full = Spec(impl, ps)
            if impl == "avx2" or cat == 1:
                R = [dict(g=2 * a + e, s=a, m=dict(n=n, s=a)) for a, e, n in ((1, 0, 33), (2, 1, 64), (5, 0, 7), (8, 1, 1), (16, 0, 0), (31, 1, 136))]
                S.append(Scenario(f"alignment/{ps}", run_honest, strat_honest, red(impl, ps), n=(b // 4, b * 10), cost=2, fixed=R[:2 * 6 // cat]))
            if impl == "avx2" or cat == 1:
                S.append(Scenario(f"full-edited/{ps}", run_edit, strat_edit(False), full, n=({1: 8, 3: 2, 5: 0}[cat], {1: 2000, 3: 200, 5: 40}[cat]), parts=(1, 4), cost=8, fixed=[dict(g=0, k=0, s=0, n=0, e=[["trunc", 3, 1]])]))
                S.append(Scenario(f"full-honest/{ps}", run_honest, strat_honest, full, n=({1: 4, 3: 1, 5: 0}[cat], {1: 400, 3: 60, 5: 12}[cat]), parts=(1, 4), cost=8))
    for ps in ("1I", "1S") if quick else ALL:
        for impl in ("ref", "avx2"):
            if quick and (ps, impl) not in (("1I", "ref"), ("1S", "avx2")):
                continue
            S.append(Scenario("coverage-guided/" + ps, run_fuzz, lambda env: st.fixed_dictionaries(dict(seed=seed32, time=st.just(15 if tier == "quick" else 240), runs=st.just(2000 if tier == "quick" else 100000))), red(impl, ps, "asan", (3, 2)), n=(1, 4), parts=(1, 4), cost=20))
    return S
