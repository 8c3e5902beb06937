from itertools import combinations

from harness.worker import blob, u32

from .common import *

RULE = "a case is non-trivial when published nodes and recovered seeds were compared with the definition for a challenge of the prescribed weight; distinct by (root, salt, challenge)"
ASSUME = ["trees have as many leaves as the declared parameters say; nodes that only unused leaves depend on are compared only when they are published", "extra (rounds, weight) pairs are the same code compiled with other round numbers"]
EXHAUSTIVE = ["every challenge support of the smallest round numbers (T <= 16)"]
EXTRA = [("1B", 16, 2), ("1S", 11, 3), ("1I", 13, 4), ("3B", 9, 3), ("3S", 31, 5), ("5B", 33, 8), ("5S", 64, 9), ("1I", 100, 20), ("5B", 255, 40), ("3B", 129, 33), ("1S", 128, 30)]


def check(env, w, mp, root, salt, hide, tree=None, full=True):
    S, T, L = mp.S, mp.T, mp.leaves
    hide = bytes(1 if x else 0 for x in hide)
    env.eq(sum(hide), mp.W, "weight of the challenge")
    want = mp.tree(root, salt)
    need = set()
    for i in range(T):
        q = L - 1 + i
        while q not in need:
            need.add(q)
            if q == 0:
                break
            q = (q - 1) // 2
    nodes = mp.pub(hide)
    if tree is None:
        tree = w.call(80, blob(root) + blob(salt), "generate_seed_tree_from_root").blob()
        for q in sorted(need | set(nodes)):
            if tree[q * S:(q + 1) * S] != want[q * S:(q + 1) * S]:
                raise Violation(f"tree node {q}: got {tree[q*S:(q+1)*S].hex()} expected {want[q*S:(q+1)*S].hex()}")
    q = w.call(81, blob(want) + blob(hide), "seed_tree_path")
    n, buf = q.u32(), q.blob()
    # independent of the model: roots of the maximal subtrees without a challenged round
    def covers(q):
        lo, hi = q, q
        while lo < L - 1:
            lo, hi = 2 * lo + 1, 2 * hi + 2
        return lo - (L - 1), hi - (L - 1)
    hidden = [i for i in range(T) if hide[i]]
    env.need(n * S <= mp.maxpub, f"{n} seeds published, more than the declared maximum {mp.maxpub // S}")
    env.eq(n, len(nodes), "number of published seeds")
    for i, x in enumerate(nodes):
        env.eq(buf[i * S:(i + 1) * S], want[x * S:(x + 1) * S], f"published seed {i} (node {x})")
        a, b = covers(x)
        env.need(not any(a <= h <= b for h in hidden), f"published node {x} covers a challenged round")
    if full:
        known = set()
        for x in nodes:
            a, b = covers(x)
            known.update(range(a, b + 1))
        env.need(all((i in known) != bool(hide[i]) for i in range(T)), "the published nodes do not cover exactly the unchallenged rounds")
    q = w.call(82, blob(hide) + blob(buf[:n * S]) + blob(salt), "rebuild_seed_tree_leaves")
    m, t2 = q.u32(), q.blob()
    env.eq(m, n, "number of seeds used in the recovery")
    for i in range(T):
        if not hide[i]:
            k = L - 1 + i
            if t2[k * S:(k + 1) * S] != want[k * S:(k + 1) * S]:
                raise Violation(f"recovered seed of round {i}: got {t2[k*S:(k+1)*S].hex()} expected {want[k*S:(k+1)*S].hex()}")
    return tree


def seeds(c, S):
    root = {0: bytes(S), 1: b"\xff" * S}.get(c["r"], xof(f"root{c['r']}", S))
    salt = {0: bytes(2 * S), 1: b"\xff" * (2 * S)}.get(c["t"], xof(f"salt{c['t']}", 2 * S))
    return root, salt


def run(env, c):
    w, mp = env.w, env.mp
    w.setmode(c["g"], c["p"])
    root, salt = seeds(c, mp.S)
    check(env, w, mp, root, salt, chal(c["c"], mp.T, mp.W, mp.keys))
    env.label("challenge " + c["c"]["shape"])
    return True


def strat(env):
    return st.fixed_dictionaries(dict(r=seed32, t=seed32, c=chals(), g=st.integers(0, 1), p=st.sampled_from([0, 255, 85])))


def run_all(env, c):
    """all supports of a small tree"""
    w, mp = env.w, env.mp
    root, salt = seeds(c, mp.S)
    t = None
    for k, pos in enumerate(combinations(range(mp.T), mp.W)):
        if k % c["of"] == c["part"]:
            t = check(env, w, mp, root, salt, bytes(i in pos for i in range(mp.T)), t)
    return True


def run_depend(env, c):
    """every bit of the root and of the salt changes every node below"""
    w, mp = env.w, env.mp
    S, T, L = mp.S, mp.T, mp.leaves
    root, salt = seeds(c, S)
    base = w.call(80, blob(root) + blob(salt), "generate_seed_tree_from_root").blob()
    for p in range(0, 3 * S, c["step"]):
        x = bytearray(root + salt)
        x[p] ^= 1 << c["b"]
        t = w.call(80, blob(bytes(x[:S])) + blob(bytes(x[S:])), "generate_seed_tree_from_root").blob()
        for i in range(T):
            q = L - 1 + i
            env.need(t[q * S:(q + 1) * S] != base[q * S:(q + 1) * S], f"leaf {i} does not depend on byte {p} of root and salt")
    lv = [base[(L - 1 + i) * S:(L + i) * S] for i in range(T)]
    env.need(len(set(lv)) == T, "two leaves are equal")
    return True


def scenarios(tier):
    S = []
    q = tier == "quick"
    shapes = ["worst", "head", "tail", "block", "ends", "blocks", "even", "odd", "spread", "random"]
    for ps in ALL:
        cat = int(ps[0])
        for impl in ("ref", "avx2"):
            b = {1: 200, 3: 60, 5: 40}[cat]
            sp = Spec(impl, ps, groups=["api", "tree"])
            S.append(Scenario(f"tree/{ps}", run, strat, sp, n=(b, b * 60), parts=(1, 3), cost=8, fixed=[dict(r=i, t=i + 3 * j, c=dict(shape=x, s=77 * i + j, v=9), g=i & 1, p=0) for i, x in enumerate(shapes) for j in range(3 if cat == 1 else 1)]))
            S.append(Scenario(f"dependence/{ps}", run_depend, None, sp, n=(0, 0), cost=2, fixed=[dict(r=5, t=6, b=b, step=1 if cat == 1 else 7) for b in ([0, 7] if q else range(8))]))
    for i, (ps, T, W) in enumerate(EXTRA):
        for impl in ("ref", "avx2") if not q or i % 4 == 0 else ["avx2" if i % 2 else "ref"]:
            sp = Spec(impl, ps, "fast", (T, W), groups=["api", "tree"])
            S.append(Scenario(f"rounds/{T}", run, strat, sp, n=(60, 6000), parts=(1, 2), cost=3, fixed=[dict(r=i, t=i, c=dict(shape=x, s=i, v=9), g=0, p=0) for i, x in enumerate(shapes)]))
            if T <= 16:
                S.append(Scenario(f"every challenge/{T}", run_all, None, sp, n=(0, 0), cost=4, fixed=[dict(r=9, t=9, part=k, of=4) for k in range(4)]))
    return S + through_scenarios("seeds")
