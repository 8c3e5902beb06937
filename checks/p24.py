import re

from harness.worker import blob

from .mats import *

RULE = "a case is non-trivial when an object was printed and its numbers read back; distinct by (object, name)"
ASSUME = ["only the numbers, their order and their grouping into rows by brackets are judged, not the spacing"]
NAMES_ = ["G", "pub", "a matrix", "Q_tilde", ""]


def grid(text, name, what, env):
    env.need(text.startswith(name.encode()), f"{what}: the name is not printed first")
    t = text[len(name):].decode("latin1")
    return t, [[int(x) for x in re.findall(r"\d+", r)] for r in re.findall(r"\[([^\[\]]*)\]", t)]


def run(env, c):
    w, mp = env.w, env.mp
    K, N = mp.K, mp.N
    g = rng("print", c["s"])
    nm = NAMES_[c["n"]]
    fill = {"random": lambda s: g.integers(0, Q, s), "zero": lambda s: np.zeros(s, np.int64), "max": lambda s: np.full(s, Q - 1), "count": lambda s: (np.arange(int(np.prod(s))) % Q).reshape(s),
            "one": lambda s: (np.arange(int(np.prod(s))) == int(g.integers(0, int(np.prod(s))))).reshape(s) * int(g.integers(1, Q))}[c["v"]]
    k = c["k"]
    if k == "full":
        A = fill((K, N))
        t = w.call(200, blob(nm.encode()) + blob(by(A)) + blob(b""), "generator_pretty_print_name").blob()
        _, rows = grid(t, nm, "full matrix", env)
        env.eq(rows, A.tolist(), "printed full matrix")
    elif k == "rref":
        A = fill((K, N - K))
        pos = sorted(g.choice(N, N - K, replace=False).tolist())
        t = w.call(201, blob(nm.encode()) + blob(by(A)) + blob(le16(pos)), "generator_rref_pretty_print_name").blob()
        _, rows = grid(t, nm, "compact matrix", env)
        env.eq(rows[:K], A.tolist(), "printed compact matrix")
        env.eq(rows[K:], [pos], "printed column positions")
    else:
        p = g.permutation(N) if c["p"] == "random" else np.arange(N) if c["p"] == "id" else np.arange(N)[::-1]
        co = np.maximum(fill((N,)), 1)
        a = blob(nm.encode()) + blob(by(co)) + blob(le16(p.tolist()))
        if k == "map":
            t = w.call(202, a, "monomial_mat_pretty_print_name").blob()
            _, rows = grid(t, nm, "map", env)
            env.eq(rows, [p.tolist(), co.tolist()], "printed positions and coefficients of a map")
        else:
            t = w.call(203, a, "monomial_mat_print_exp_name").blob()
            _, rows = grid(t, nm, "expanded map", env)
            M = np.zeros((N, N), np.int64)
            M[p, np.arange(N)] = co
            env.eq(rows, M.tolist(), "printed matrix of a map")
    env.label(k)
    return True


KIND = ["full", "rref", "map", "exp"]
FILL = ["random", "zero", "max", "count", "one"]


def strat(env):
    return st.fixed_dictionaries(dict(s=seed32, k=st.sampled_from(KIND), v=st.sampled_from(FILL), p=st.sampled_from(["random", "id", "rev"]), n=st.integers(0, len(NAMES_) - 1)))


def scenarios(tier):
    S = []
    for ps, n in (("1B", 60), ("3B", 30), ("5B", 20)):
        for impl in ("ref", "avx2"):
            fx = [dict(s=i * 7 + j, k=a, v=v, p=["random", "id", "rev"][(i + j) % 3], n=(i + j) % len(NAMES_)) for i, a in enumerate(KIND) for j, v in enumerate(FILL)]
            S.append(Scenario(f"print/{ps[0]}", run, strat, Spec(impl, ps, groups=["api", "print"]), n=(n, n * 50), cost=4, fixed=fx))
    return S
