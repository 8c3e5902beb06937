import os
import subprocess
from decimal import Decimal
from fractions import Fraction
from math import isqrt

from harness import runner
from harness.build import REPO, VERIF, run as sh
from .common import *

RULE = "a case is non-trivial when at least one statistic over two or more samples was compared with exact rational arithmetic; distinct by the sequence of operations"
ASSUME = ["samples are doubles, as the tools pass; the allowed error is a small multiple of (number of samples) x (long double unit) x (condition number of the deviation), which the recurrence used satisfies; where the exact variances are both zero no t statistic is asked for"]
SRC = {"Utilities/Benchmarking": (f"{REPO}/Utilities/Benchmarking/include/timing_and_stat.h", "ref"), "Utilities/MemoryBenchmarking": (f"{REPO}/Utilities/MemoryBenchmarking/include/timing_and_stat.h", "ref"),
       "Reference bench": (f"{REPO}/Reference_Implementation/lib/bench/less_benchmark.c", "ref"), "Optimized bench": (f"{REPO}/Optimized_Implementation/common/lib/bench/less_benchmark.c", "avx2")}
EPS = Fraction(1, 1 << 64)


def build(b):
    out = {}
    for name, (src, impl) in SRC.items():
        for opt in ("-O0", "-O3"):
            exe = f"{b.root}/stat{len(out)}"
            fl = [x for x in b.cflags(Spec(impl, "1B")) if x != "-O3"]
            r = sh(fl + [opt, f'-DSTAT_SRC="{src}"', f"-I{os.path.dirname(src)}", f"{VERIF}/worker/stat_driver.c", "-o", exe, "-lm", "-Wl,--unresolved-symbols=ignore-all"])
            out[name, opt] = exe if r.returncode == 0 else None
            if r.returncode:
                b.notes.append(f"{src}: {r.stdout[-400:]}")
    return out


def samples(d):
    """values of one block"""
    R = Rnd("stat", d["s"])
    n, k = d["n"], d["k"]
    u = lambda: Fraction(R.below(1 << 40), 1 << 40)
    if k == "uniform":
        v = [u() for _ in range(n)]
    elif k == "offset":                   # small spread on a large offset, as cycle counters give
        v = [10 ** d["e"] + u() * 100 for _ in range(n)]
    elif k == "outlier":
        v = [1000 + u() for _ in range(n)]
        v[R.below(n)] = Fraction(10 ** d["e"])
    elif k == "trend":
        v = [Fraction(i * d["e"]) + u() for i in range(n)]
    elif k == "constant":
        v = [Fraction(d["e"] * 1000 + 1, 8)] * n
    elif k == "two":
        v = [Fraction(d["e"]) if R.below(2) else Fraction(-d["e"] - 1) for _ in range(n)]
    elif k == "tiny":
        v = [u() / 10 ** d["e"] for _ in range(n)]
    elif k == "last":                     # only the last (or first) sample differs
        v = [Fraction(5)] * n
        v[-1 if d["s"] & 1 else 0] = Fraction(d["e"] + 6)
    else:
        v = [(u() - Fraction(1, 2)) * 10 ** R.below(12) for _ in range(n)]
    return [float(x) for x in v]


def fsqrt(f):
    """square root of a rational, to 40 digits, as a rational"""
    k = 1 << 200
    return Fraction(isqrt(f.numerator * k * k // f.denominator), k)


def hexf(s):
    """%La output as a rational"""
    s = s.strip().lower()
    if "nan" in s or "inf" in s:
        return None
    neg = s.startswith("-")
    s = s.lstrip("+-")
    m, e = s[2:].split("p")
    a, _, b = m.partition(".")
    v = Fraction(int(a + b, 16), 16 ** len(b)) * Fraction(2) ** int(e)
    return -v if neg else v


class Exact:
    def __init__(self, xs):
        f = [Fraction(x) for x in xs]
        n = self.n = len(f)
        self.mean = sum(f) / n
        self.m2 = sum((x - self.mean) ** 2 for x in f)
        self.var = self.m2 / (n - 1) if n > 1 else Fraction(0)
        self.sd = fsqrt(self.var)
        big = max(abs(x) for x in f)
        self.emean = 8 * (n + 8) * EPS * big
        # deviation: relative n*eps*kappa, kappa^2 = 1 + n mean^2 / m2; written without dividing by a zero spread
        self.esd = 16 * (n + 8) * EPS * (self.sd + abs(self.mean) * 2 + big)


def near(env, got, want, tol, what):
    if got is None or abs(got - want) > tol:
        raise Violation(f"{what}: got {float(got) if got is not None else 'not a number'!r} expected {float(want)!r} (allowed error {float(tol):.3g})")


def run(env, c):
    exes = runner.G["extra"]
    exe = exes.get((c["v"], c["o"]))
    if not exe:
        raise Unsupported(f"{c['v']} does not compile")
    cmds, asks = ["i0", "i1"], []
    data = [[], []]
    for op, i, d in c["ops"]:
        if op == "init":
            cmds.append(f"i{i}")
            data[i] = []
        elif op == "add":
            xs = samples(d)
            data[i] += xs
            cmds.append(f"u{i} {len(xs)} " + " ".join(x.hex() for x in xs))
        elif len(data[i]) >= 2:
            if op == "t" and (len(data[1 - i]) < 2 or len(set(data[0])) < 2 or len(set(data[1])) < 2):
                continue
            cmds.append({"mean": "m", "sd": "s", "print": "p", "t": "t"}[op] + str(i))
            asks.append((op, i, len(data[0]), len(data[1]), list(data[0]), list(data[1])))
    if not asks:
        return False
    r = subprocess.run([exe], input="\n".join(cmds) + "\n", stdout=subprocess.PIPE, text=True, timeout=300)
    env.need(r.returncode == 0, f"the driver ended with {r.returncode}")
    lines = r.stdout.split("\n")
    memo = {}

    def ex(i, a):
        k = i, len(a[4 + i]), hash(tuple(a[4 + i]))
        if k not in memo:
            memo[k] = Exact(a[4 + i])
        return memo[k]
    for line, a in zip(lines, asks):
        op, i = a[0], a[1]
        e = ex(i, a)
        if op == "mean":
            near(env, hexf(line), e.mean, e.emean, f"mean of {e.n} samples")
        elif op == "sd":
            near(env, hexf(line), e.sd, e.esd, f"standard deviation of {e.n} samples")
        elif op == "print":
            m, s = line.split(",")
            near(env, Fraction(Decimal(m)), e.mean, e.emean + Fraction(5001, 10 ** 6), f"printed mean of {e.n} samples")
            near(env, Fraction(Decimal(s)), e.sd, e.esd + Fraction(5001, 10 ** 6), f"printed standard deviation of {e.n} samples")
        else:
            f = ex(1 - i, a)
            den2 = e.var / e.n + f.var / f.n
            den = fsqrt(den2)
            t = (e.mean - f.mean) / den
            rel = (e.esd * e.sd / e.n + f.esd * f.sd / f.n) / den2      # of the denominator
            if rel > Fraction(1, 1000):
                env.label("spread below rounding error")
                continue
            tol = (e.emean + f.emean) / den * 2 + abs(t) * (rel * 2 + Fraction(1, 1 << 50)) + Fraction(1, 1 << 1000)
            near(env, hexf(line), t, tol, f"t statistic of {e.n} and {f.n} samples")
        env.label(op)
    return True


KIND = ["uniform", "offset", "outlier", "trend", "constant", "two", "tiny", "last", "mixed"]


def strat(env):
    blk = st.fixed_dictionaries(dict(k=st.sampled_from(KIND), n=st.one_of(st.integers(1, 5), st.integers(1, 60), st.sampled_from([24, 64, 256])), s=seed32, e=st.integers(1, 14)))
    one = st.one_of(st.tuples(st.just("add"), st.integers(0, 1), blk), st.tuples(st.just("add"), st.integers(0, 1), blk), st.tuples(st.sampled_from(["mean", "sd", "print", "t", "t", "init"]), st.integers(0, 1), st.none()))
    return st.fixed_dictionaries(dict(v=st.sampled_from(sorted(SRC)), o=st.sampled_from(["-O0", "-O3"]), ops=st.lists(one, min_size=2, max_size=14).map(lambda l: l + [(op, i, None) for op in ("mean", "sd", "print", "t") for i in (0, 1)])))


def strat_long(env):
    blk = st.fixed_dictionaries(dict(k=st.sampled_from(KIND), n=st.integers(5000, 40000), s=seed32, e=st.integers(1, 12)))
    return st.fixed_dictionaries(dict(v=st.sampled_from(sorted(SRC)), o=st.just("-O3"), ops=st.tuples(blk, blk).map(lambda t: [("add", 0, t[0]), ("add", 1, dict(t[1], n=t[1]["n"] // 7))] + [(op, i, None) for op in ("mean", "sd", "print", "t") for i in (0, 1)])))


def scenarios(tier):
    ask = [(op, i, None) for op in ("mean", "sd", "print", "t") for i in (0, 1)]
    fixed = [dict(v=v, o=["-O0", "-O3"][j & 1], ops=[("add", 0, dict(k=k, n=n, s=j, e=5)), ("add", 1, dict(k=KIND[(j + 1) % 9], n=n + 3, s=j + 50, e=4))] + ask) for v in sorted(SRC) for j, (k, n) in enumerate((k, n) for n in (2, 3, 24, 300) for k in KIND)]
    return [Scenario("statistics", run, strat, None, n=(4000, 80000), parts=(8, 16), cost=5, fixed=fixed, py=True),
            Scenario("long sequences", run, strat_long, None, n=(8, 400), parts=(4, 8), cost=9, py=True)]
