import concurrent.futures
import os
import re
import shutil
import subprocess
import tempfile
from decimal import Decimal
from fractions import Fraction

from harness import runner
from harness.build import REPO, VERIF, run as sh
from .common import *
from .p21 import Exact

RULE = "a case is non-trivial when the printed mean and deviation of at least one operation were compared with those of the durations its calls took on a generated clock; distinct by program and schedule"
ASSUME = ["the programs are compiled unchanged up to assembly, where the clock instruction is replaced by a read of a generated clock; the scheme's functions are stand-ins that take generated time and mark the keys and signatures they produce",
          "a change that measures with another clock, or other functions of the scheme, is reported as not checkable, not as a violation"]
PROG = {"Benchmarking/less_benchmark": (f"{REPO}/Utilities/Benchmarking", "kesv", True), "MemoryBenchmarking/less_benchmark": (f"{REPO}/Utilities/MemoryBenchmarking", "ksv", False), "MemoryBenchmarking/less_keygen": (f"{REPO}/Utilities/MemoryBenchmarking", "k", False),
        "MemoryBenchmarking/less_sign": (f"{REPO}/Utilities/MemoryBenchmarking", "s", False), "MemoryBenchmarking/less_verify": (f"{REPO}/Utilities/MemoryBenchmarking", "v", False), "Reference/less_benchmark": (f"{REPO}/Reference_Implementation/lib/bench", "kesv", True), "Optimized/less_benchmark": (f"{REPO}/Optimized_Implementation/common/lib/bench", "kesv", True)}
NAME = dict(k="key generation", s="signing", v="verification", e="elimination")
CONF = [(p, i, ps) for p in PROG for i in ("ref", "avx2") if not (p.startswith("Ref") and i == "avx2" or p.startswith("Opt") and i == "ref") for ps in ALL]


def build(b):
    def one(c):
        p, impl, ps = c
        d = PROG[p][0]
        f = p.split("/")[1] + ".c"
        src = f"{d}/lib/{f}" if os.path.isdir(f"{d}/lib") else f"{d}/{f}"
        inc = [f"-I{d}/include"] if os.path.isdir(f"{d}/include") else [f"-I{d}"]
        n = f"{b.root}/bench-{p.replace('/', '-')}-{impl}-{ps}"
        cf = [x for x in b.cflags(Spec(impl, ps)) if x not in ("-O3", "-flto")]
        r = sh(cf + inc + ["-O1", "-fno-lto", "-mno-red-zone", "-S", src, "-o", n + ".s"])
        if r.returncode:
            return c, None, r.stdout
        a = open(n + ".s").read()
        t, k = re.subn(r"\brdtscp?\b", "call vp_tsc", a)
        if not k:
            return c, None, "the program does not read the time stamp counter"
        open(n + ".s", "w").write(t)
        r = sh(cf + ["-fno-lto", "-O1", "-no-pie", n + ".s", f"{VERIF}/worker/bench_stub.c", "-o", n, "-lm"])
        return c, n if r.returncode == 0 else None, r.stdout
    out = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for c, exe, err in ex.map(one, CONF):
            out[c] = exe
            if not exe:
                b.notes.append(f"{c}: {err[-300:]}")
    return out


def durations(d):
    R = Rnd("bench", d["s"])
    n, k, e = d["n"], d["k"], d["e"]
    if k == "small":
        return [R.below(5000) for _ in range(n)]
    if k == "wide":                       # beyond 32 bits
        return [R.below(1 << 20 + e) for _ in range(n)]
    if k == "offset":
        return [(1 << 16 + e) + R.below(3000) for _ in range(n)]
    if k == "outlier":
        return [(1 << 15 + e) if i == d["s"] % n else 1000 + R.below(500) for i in range(n)]
    if k == "same":
        return [(1 << e) + 1] * n
    if k == "trend":
        return [1000 * i + R.below(7) for i in range(1, n + 1)]
    return [(1 << R.below(16 + e)) + R.below(99) for _ in range(n)]


def run(env, c):
    p, impl, ps = c["c"]
    exe = runner.G["extra"].get((p, impl, ps))
    if not exe:
        raise Unsupported(f"{p} ({impl} {ps}) cannot be run on a generated clock")
    ds = durations(c["d"])
    start = [0, 1, (1 << 32) - 500, (1 << 63) - 2000, (1 << 64) - 3000, 123456789012345678][c["t"] % 6]
    d = tempfile.mkdtemp(prefix="less-bench-")
    try:
        open(f"{d}/bench.in", "w").write(f"{start} {c['v']}\n" + "\n".join(map(str, ds)) + "\n")
        r = subprocess.run([exe], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        log = [l.split() for l in open(f"{d}/bench.log")]
    finally:
        shutil.rmtree(d)
    what = f"{p} ({impl} {ps})"
    env.need(r.returncode == 0, f"{what} ended with {r.returncode}")
    if log[-1][0] != "reads" or log[-1][1] == "0":
        raise Unsupported(f"{what} does not read the clock")
    took = {}
    for op, t, good in log[:-1]:
        took.setdefault(op, []).append((int(t), good == "1"))
    ops, labelled = PROG[p][1:]
    for o in ops:
        if o not in took:
            raise Unsupported(f"{what} does not call the function of {NAME[o]}")
    got = {}
    prev = ""
    order = [o for o in ops]
    for l in r.stdout.replace("\r", "").split("\n"):
        m = re.search(r"(-?\d+\.\d\d|-?nan|-?inf),(-?\d+\.\d\d|-?nan|-?inf)\s*$", l)
        if m:
            if labelled:
                t = (l[:m.start()].strip() or prev).lower()
                o = next((o for o, rx in (("k", r"key ?gen"), ("s", r"sign"), ("v", r"verif"), ("e", r"elimin|rref")) if re.search(rx, t)), None)
            else:
                o = order.pop(0) if order else None
            if o:
                env.need(o not in got, f"{what}: two results for {NAME[o]}")
                got[o] = m.group(1), m.group(2)
        if l.strip():
            prev = l
    n = 0
    for o in ops:
        env.need(o in got, f"{what}: no result for {NAME[o]} in {r.stdout[-300:]!r}")
        xs = [t / 1000.0 for t, _ in took[o]]
        if len(xs) < 2:
            continue
        e = Exact(xs)
        for v, want, err, z in ((got[o][0], e.mean, e.emean, "mean"), (got[o][1], e.sd, e.esd, "standard deviation")):
            bad = "nan" in v or "inf" in v or abs(Fraction(Decimal(v)) - want) > err + Fraction(5001, 10 ** 6)
            env.need(not bad, f"{what}: {z} of {NAME[o]} printed as {v}, but the {e.n} calls give {float(want):.2f}")
        n += 1
        if o in "sv":
            known(env, c, all(g for _, g in took[o]), f"{p}: {NAME[o]} was measured on a key or signature of another origin")
    if labelled:
        mp = env.par(Spec(impl, ps))
        t = r.stdout

        def num(rx, want, what2):
            m = re.search(rx, t, re.I)
            if m:
                env.eq([int(x) for x in m.groups()], want, f"{what}: {what2}")
                return 1
            return 0
        k = num(r"n\s*=\s*(\d+), *k\s*=\s*(\d+), *q\s*=\s*(\d+)", [mp.N, mp.K, 127], "code parameters")
        k += num(r"keypairs\s*=\s*(\d+)", [mp.keys], "number of key pairs")
        k += num(r"(\d+) rounds, weight (\d+)", [mp.T, mp.W], "challenge parameters")
        k += num(r"Private key:? (\d+) ?B", [mp.skb], "private key size")
        k += num(r"Public key:? (\d+) ?B", [mp.pkb], "public key size")
        k += num(r"Signature:? (\d+) ?B", [mp.sigmax], "signature size")
        k += num(r"average of (\d+) runs", [len(took["k"])], "number of runs")
        env.label(f"{k} parameters compared")
        m = re.search(r"Keygen-Sign-Verify: *(not )?functional", t)
        env.need(m, f"{what}: no verdict in {t[-200:]!r}")
        env.eq(not m.group(1), bool(c["v"]), f"{what}: verdict 'functional'")
    env.label(p)
    return n > 0


def known(env, c, ok, text):
    if not ok:
        if text not in listed():
            raise Violation(text)
        env.label("known finding met")


def listed():
    if not LISTED:
        LISTED.append(None)
        for l in open(f"{VERIF}/known_findings.txt"):
            if l.startswith("known: property=P25 "):
                LISTED.append(l[len("known: property=P25 "):].strip())
    return LISTED


LISTED = []


def strat(env):
    d = st.fixed_dictionaries(dict(s=seed32, n=st.one_of(st.integers(1, 9), st.integers(10, 900)), k=st.sampled_from(["small", "wide", "offset", "outlier", "same", "trend", "mixed"]), e=st.integers(0, 18)))
    return st.fixed_dictionaries(dict(c=st.sampled_from(CONF), d=d, t=st.integers(0, 5), v=st.sampled_from([0, 1])))


def scenarios(tier):
    fixed = [dict(c=list(x), d=dict(s=i, n=1 + 7 * i % 300, k=["small", "wide", "offset", "outlier", "mixed", "trend", "same"][i % 7], e=i % 19), t=i % 6, v=i % 2) for i, x in enumerate(CONF + CONF)]
    return [Scenario("programs", run, strat, None, n=(600, 8000), parts=(8, 16), cost=6, fixed=fixed)]
