import ast
import os
import re
import shutil
import subprocess
import tempfile

from harness.build import REPO
from .common import *

RULE = "a case is non-trivial when the script reported on at least one generated profile and every reported value was compared with the peak the profile was generated with; distinct by the set of profiles"
ASSUME = ["profiles are as massif writes them (header, snapshots, optional heap trees; comment and blank lines between fields); the script is run in a scratch directory with a stand-in for bench.sh that builds and measures nothing"]
SCRIPT = f"{REPO}/Utilities/MemoryBenchmarking/bench.py"
SETS = [(1, "BALANCED"), (1, "INTERMEDIATE"), (1, "SHORT_SIG"), (3, "BALANCED"), (3, "SHORT_SIG"), (5, "BALANCED"), (5, "SHORT_SIG")]
METHODS = ["keygen", "sign", "verify"]
FUNCS = ["main (less_sign.c:80)", "LESS_sign (LESS.c:190)", "operator new(unsigned long) (in /usr/lib/libx.so.6)", "foo::bar(int, char const*) (baz.cpp:12)", "???", "malloc", "f (in /bin/a b)", "_dl_start (rtld.c:575)"]


def tree(R, depth=0, ind=0):
    n = R.below(4) if depth < 3 else 0
    b = R.below(10 ** (1 + R.below(9)))
    if depth and n == 0 and R.below(3) == 0:
        d = f"in {1 + R.below(30)} places, {'all ' if R.below(2) else ''}below massif's threshold (1.00%)"
    elif depth == 0:
        d = "(heap allocation functions) malloc/new/new[], --alloc-fns, etc."
    else:
        d = f"0x{R.below(1 << 40):X}: {FUNCS[R.below(len(FUNCS))]}"
    out = [" " * ind + f"n{n}: {b} {d}"]
    for _ in range(n):
        out += tree(R, depth + 1, ind + 1)
    return out


def profile(d):
    """text and true peak of the stack"""
    R = Rnd("massif", d["s"])
    n = d["n"]
    hi = 10 ** d["mag"]
    vals = [R.below(hi) for _ in range(n)]
    k = d["peak"]
    if k == "first":
        vals[0] = hi + R.below(hi)
    elif k == "last":
        vals[-1] = hi + R.below(hi)
    elif k == "middle":
        vals[n // 2] = hi + R.below(hi)
    elif k == "falling":
        vals.sort(reverse=True)
    elif k == "rising":
        vals.sort()
    elif k == "flat":
        vals = [vals[0]] * n
    elif k == "zero":
        vals = [0] * n
    out = []
    noise = lambda: out.extend([["#-----------", "# a comment", "", "  # indented: mem_stacks_B=99999999999"][R.below(4)] for _ in range(R.below(3))]) if d["noise"] else None
    noise()
    out.append("desc: " + ["--tool=massif --stacks=yes", "(none)", "# snapshot=3"][R.below(3)])
    noise()
    out.append("cmd: " + ["./build/bin/LESS_memory", "./x 99999999 --mem_stacks_B=7"][R.below(2)])
    noise()
    out.append("time_unit: " + ["i", "ms", "B"][R.below(3)])
    t = 0
    peak_at = R.below(n) if d["tree"] else -1
    for i, v in enumerate(vals):
        if d["noise"] or True:
            out += ["#-----------", f"snapshot={i}", "#-----------"]
        t += R.below(100000)
        heap, extra = R.below(10 ** R.below(12)), R.below(10 ** R.below(6))
        for x in (f"time={t}", f"mem_heap_B={heap}", f"mem_heap_extra_B={extra}", f"mem_stacks_B={v}"):
            noise()
            out.append(x)
        noise()
        det = d["tree"] and (i == peak_at or R.below(3) == 0)
        out.append("heap_tree=" + ("peak" if i == peak_at else "detailed" if det else "empty"))
        if det:
            out += tree(R)
    return "\n".join(out) + ("\n" if d["s"] % 3 else ""), max(vals)


def run(env, c):
    dir_ = tempfile.mkdtemp(prefix="less-mem-")
    try:
        want = {}
        os.mkdir(f"{dir_}/build")
        for i, (k, p) in enumerate(c["files"]):
            (cat, kind), m = SETS[k // 3], METHODS[k % 3]
            sub = f"{dir_}/build" + ("/more" if p["sub"] else "")
            os.makedirs(sub, exist_ok=True)
            text, peak = profile(p)
            if (cat, kind, m) in want:
                continue
            want[cat, kind, m] = peak
            with open(f"{sub}/LESS_memory_{cat}_{kind}_{m}.massif", "w") as f:
                f.write(text)
        if c["other"]:
            os.makedirs(f"{dir_}/build/bin", exist_ok=True)
            for f in ("build/CMakeCache.txt", "build/bin/LESS_memory_1_BALANCED_sign", "build/massif.txt"):
                open(f"{dir_}/{f}", "w").write("mem_stacks_B=5\n")
        with open(f"{dir_}/bench.sh", "w") as f:
            f.write("#!/bin/sh\nexit 0\n")
        os.chmod(f"{dir_}/bench.sh", 0o755)
        r = subprocess.run(["python3", "-B", "-W", "ignore", SCRIPT], cwd=dir_, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    finally:
        shutil.rmtree(dir_)
    env.need(r.returncode == 0, f"the script failed on well-formed profiles: {r.stderr[-300:]}")
    m = re.search(r"\{.*\}", r.stdout, re.S)
    env.need(m is not None, "no report was printed")
    try:
        got = ast.literal_eval(m.group(0))
    except (ValueError, SyntaxError):
        raise Unsupported("the report has another form")
    for cat, kind in SETS:
        for me in METHODS:
            env.eq(got[cat][kind][me], want.get((cat, kind, me), 0), f"reported peak of category {cat} {kind} {me}")
    env.label(f"{len(want)} profiles" if len(want) < 3 else "3 or more profiles")
    return bool(want)


PEAK = ["random", "first", "last", "middle", "falling", "rising", "flat", "zero"]


def strat(env):
    p = st.fixed_dictionaries(dict(s=seed32, n=st.one_of(st.integers(1, 5), st.integers(1, 60)), mag=st.integers(1, 17), peak=st.sampled_from(PEAK), noise=st.booleans(), tree=st.booleans(), sub=st.booleans()))
    return st.fixed_dictionaries(dict(files=st.lists(st.tuples(st.integers(0, 20), p), min_size=1, max_size=21), other=st.booleans()))


def scenarios(tier):
    mk = lambda i, x, n, tr: dict(s=i, n=n, mag=1 + (i * 5) % 17, peak=x, noise=bool(i & 1), tree=tr, sub=bool(i & 2))
    fixed = [dict(files=[(i % 21, mk(i, x, n, tr))], other=bool(i & 1)) for i, (x, n, tr) in enumerate((x, n, tr) for x in PEAK for n in (1, 2, 7, 40) for tr in (False, True))]
    fixed += [dict(files=[((k * 5 + j) % 21, mk(100 * j + k, PEAK[(k + j) % 8], 1 + (k * 7 + j) % 12, bool(k & 1))) for k in range(21)], other=True) for j in range(4)]
    return [Scenario("report", run, strat, None, n=(700, 16000), parts=(8, 16), cost=8, fixed=fixed, py=True)]
