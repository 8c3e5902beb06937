import os
import re
import subprocess
import sys

from harness.build import REPO
from .common import *

RULE = "a case is non-trivial when a signature's length was compared with the formula, or the size tool printed a bound; distinct by arguments"
ASSUME = ["the largest number of nodes that must be revealed is computed exactly by dynamic programming over subtrees, and realised by a concrete challenge", "the size tool is used in its sparse regime (challenged rounds at most half of all rounds; outside it the tool itself warns), for the smallest complete tree with a leaf per round"]
TOOL = f"{REPO}/Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py"
SHIP = {1: (252, 126, 16), 3: (400, 200, 24), 5: (548, 274, 32)}


def run_sizes(env, c):
    """Declared constants against the formulas."""
    w, mp = env.w, env.mp
    i = w.info()
    env.eq(i["pk"], mp.pkb, "declared public key size")
    env.eq(i["sk"], mp.skb, "declared secret key size")
    env.eq(i["sig"], mp.sigmax, "declared maximum signature size")
    env.eq(i["rref"], mp.rb, "packed matrix size")
    env.eq(i["act"], mp.ab, "packed response size")
    env.eq(i["b0"], mp.siglen(0), "signature size with no seeds")
    env.eq(i["b1"], mp.siglen(1), "signature size with one seed")
    env.need(i["maxbytes"] >= i["sig"], "declared maximum of bytes below the declared maximum signature")
    worst = worst_seeds(mp.T, mp.W)
    env.need(i["maxpub"] >= worst * mp.S, f"the declared space for seeds, {i['maxpub']} bytes, does not hold the {worst} seeds a challenge can need")
    env.need(worst < 256, "the seed count does not fit its byte")
    return True


def strat(env):
    return st.fixed_dictionaries(dict(k=st.integers(0, 3), s=seed32, m=msgs(5000), c=st.one_of(st.none(), chals(), chals())))


def run(env, c):
    w, mp = env.w, env.mp
    pk, sk = keypair(env, w, c["k"])
    env.eq((len(pk), len(sk)), (mp.pkb, mp.skb), "key sizes")
    m = msg(c["m"])
    f = chal(c["c"], mp.T, mp.W, mp.keys) if c["c"] else None
    sm = sign(env, w, sk, m, c["s"], f)
    L = len(sm) - len(m)
    env.eq(L, mp.siglen(sm[-1]), f"length of a signature with {sm[-1]} seeds")
    env.need(L <= mp.sigmax, f"signature of {L} bytes exceeds the declared maximum {mp.sigmax}")
    ch = f or mp.challenge(sm[len(sm) - L + 2 * mp.S + mp.W * mp.ab:][:2 * mp.S])
    n = len(mp.pub(ch))
    env.eq(sm[-1], n, "number of published seeds")
    r, ml, out = opened(w, sm, pk, f)
    env.need(r == 0, f"a signature publishing {n} seeds (declared maximum {mp.maxpub // mp.S}) was rejected")
    env.label("worst" if n == mp.maxpub // mp.S else "fewer than the maximum")
    return True


# --- the size tool
def tool(t, w, lam):
    r = subprocess.run([sys.executable, TOOL, str(t), str(w), str(lam)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    m = re.findall(r"-?\d+(?:\.\d+)?", r.stdout)
    return r.returncode, r.stdout, m


def strat_tool(env):
    return st.fixed_dictionaries(dict(t=st.one_of(st.integers(3, 40), st.integers(3, 1500)), w=st.integers(1, 1 << 16), lam=st.sampled_from([128, 192, 256, 64, 512])))


def tool_bound(t, w, lam):
    rc, out, nums = tool(t, w, lam)
    if rc or not nums:
        raise Violation(f"the size tool failed on {t} {w} {lam}: {out[-200:]}")
    return out


def run_tool(env, c):
    t = c["t"]
    if c["w"] % 9 == 0:
        t = 1 << (t.bit_length())
    w = 1 + c["w"] % max(1, min(t // 2, 60))
    out = tool_bound(t, w, c["lam"])
    worst = worst_seeds(t, w, 1 << (t - 1).bit_length())
    got = parse(out)
    env.need(got >= worst * c["lam"] // 8, f"size tool for {t} rounds, weight {w}, security {c['lam']}: printed {got} bytes, but {worst} seeds of {c['lam'] // 8} bytes can be needed")
    env.label("tight" if got == worst * c["lam"] // 8 else "not tight")
    return True


def parse(out):
    n = re.findall(r"(\d+)", out.strip().splitlines()[-1])
    return int(n[-1])


def run_shipped(env, c):
    ps = c["ps"]
    w = env.worker(Spec("avx2", ps))
    i = w.info()
    got = parse(tool_bound(i["T"], i["W"], 8 * i["S"]))
    env.eq(got, i["maxpub"], f"size tool output for parameter set {ps} against the shipped constant")
    return True


def scenarios(tier):
    S = []
    for ps in ALL:
        cat = int(ps[0])
        for impl in ("ref", "avx2"):
            a = impl == "avx2"
            b = {1: 40, 3: 12, 5: 6}[cat] // (1 if a else 2)
            full = Spec(impl, ps)
            S.append(Scenario(f"declared/{ps}", run_sizes, None, full, n=(0, 0), fixed=[dict(ps=ps)]))
            S.append(Scenario(f"length/{ps}", run, strat, red(impl, ps), n=(b, b * 80), cost=4, fixed=[dict(k=0, s=i, m=dict(n=i, s=1), c=dict(shape=x, s=i, v=9)) for i, x in enumerate(["worst", "head", "tail", "worst", "blocks"])]))
            if a or cat == 1:
                S.append(Scenario(f"full/{ps}", run, strat, full, n=({1: 2 if a else 0, 3: 0, 5: 0}[cat], {1: 300, 3: 24, 5: 6}[cat]), parts=(1, 4), cost=12, fixed=[dict(k=0, s=2, m=dict(n=7, s=1), c=dict(shape="worst", s=2, v=9))]))
    S.append(Scenario("size tool", run_tool, strat_tool, n=(200, 4000), parts=(4, 8), cost=5, py=True))
    S.append(Scenario("size tool, shipped sets", run_shipped, None, also=[Spec("avx2", ps) for ps in ALL], n=(0, 0), fixed=[dict(ps=ps) for ps in ALL], cost=5))
    return S
