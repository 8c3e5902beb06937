from .common import *
from .sigedit import SM, getbits, setbits

RULE = "a case is non-trivial when a re-encoding different from the genuine bytes was presented; distinct by (key, signature, kind and place of the re-encoding)"
ASSUME = ["two byte strings carry the same signature content when they decode, ignoring unused bits, counts, surplus bytes and the range of values, to the same salt, responses, digest, seeds and key"]
EXHAUSTIVE = ["every value of the seed count byte and every number of added or removed bytes from 1 to 80 (per signature)", "every unused bit of every response and key matrix", "every position that fits again after adding N, every zero of a key matrix written as 127 (thorough; sampled in quick)"]


def genuine(env, c):
    w, mp = env.w, env.mp
    pk, sk = keypair(env, w, c["k"])
    f = chal(c["c"], mp.T, mp.W, mp.keys) if c.get("c") else None
    key = ("sm", c["k"], c["s"], c["n"], f)
    if key not in env.cache:
        env.cache[key] = sign(env, w, sk, xof("m", c["n"]), c["s"], f)
        r, ml, out = opened(w, env.cache[key], pk, f)
        env.need(r == 0, "the genuine signature was rejected")
    return env.cache[key], pk, f


def refuse(env, sm, pk, f, what):
    r, ml, out = opened(env.w, sm, pk, f)
    env.need(r != 0, "accepted a second encoding of a genuine signature: " + what)


def run(env, c):
    w, mp = env.w, env.mp
    sm, pk, f = genuine(env, c)
    kind, a, v = c["e"]
    R = Rnd("p04", c["s"], a, v, kind)
    S, K, N, pb = mp.S, mp.K, mp.N, mp.N.bit_length()
    o = SM(mp, sm, pk)
    cnt = o.count
    env.label(kind)
    fb, nv = (N + 7) // 8, K * (N - K)
    if kind == "length":                       # the accepted encoding has the length its seed count determines
        env.eq(len(sm) - c["n"], mp.siglen(sm[-1]), "signature length")
        env.eq(cnt, len(mp.pub(f)) if f else cnt, "seed count")
    elif kind == "count":                      # another count over the same bytes
        for x in ([y for y in range(256) if y != cnt] if a is None else [a]):
            if x != cnt:
                refuse(env, sm[:-1] + bytes([x]), pk, f, f"seed count {cnt} replaced by {x}")
    elif kind == "surplus":                    # more seeds than needed, correctly counted
        for n in range(1, 1 + (v or 40)):
            if cnt + n > 255:
                break
            for tail in (bytes(n * S), R.bytes(n * S)):
                refuse(env, sm[:-1] + tail + bytes([cnt + n]), pk, f, f"{n} surplus seeds")
                refuse(env, sm[:-1] + tail + bytes([cnt]), pk, f, f"{n} surplus seeds, not counted")
    elif kind == "missing":
        for n in range(1, min(cnt, 20) + 1):
            refuse(env, sm[:-1 - n * S] + bytes([cnt - n]), pk, f, f"{n} seeds missing")
            refuse(env, sm[:-1 - n * S] + bytes([cnt]), pk, f, f"{n} seeds missing, counted")
    elif kind == "bytes":                      # bytes added or removed around the signature
        for n in range(1, 81):
            for x in (0, cnt, 255):
                refuse(env, sm + bytes([x]) * n, pk, f, f"{n} bytes appended")
                if x == 0:
                    refuse(env, sm[:-1] + bytes(n) + sm[-1:], pk, f, f"{n} bytes inserted before the seed count")
            if n < len(sm):
                refuse(env, sm[:-n], pk, f, f"{n} bytes removed")
    elif kind == "actpad":
        used = K * (pb + 7)
        bits = range(used, 8 * mp.ab)
        if not bits:
            return False
        for i in range(mp.W):
            for b in bits:
                o.acts[i][b >> 3] ^= 1 << (b & 7)
                refuse(env, o.sm(), pk, f, f"unused bit {b - used} of response {i}")
                o.acts[i][b >> 3] ^= 1 << (b & 7)
    elif kind == "actpos":
        todo = [(i, e) for i in range(mp.W) for e in range(K) if getbits(o.acts[i], e * pb, pb) + N < 1 << pb]
        if not todo:
            return False
        for i, e in (todo if v is None else [todo[0], todo[-1]] + [todo[R.below(len(todo))] for _ in range(v)]):
            p = getbits(o.acts[i], e * pb, pb)
            setbits(o.acts[i], e * pb, pb, p + N)
            refuse(env, o.sm(), pk, f, f"position {p} of response {i} entry {e} written as {p + N}")
            setbits(o.acts[i], e * pb, pb, p)
    elif kind == "seedorder":
        for _ in range(6):
            if cnt < 2:
                return False
            x, y = R.below(cnt), R.below(cnt)
            if x == y:
                continue
            o.seeds[x], o.seeds[y] = o.seeds[y], o.seeds[x]
            refuse(env, o.sm(), pk, f, f"seeds {x} and {y} exchanged")
            o.seeds[x], o.seeds[y] = o.seeds[y], o.seeds[x]
    elif kind == "actorder":                   # the same partial map with its entries listed in another order
        A = o.acts[a % mp.W]
        for _ in range(4):
            e1, e2 = R.below(K), R.below(K)
            if e1 == e2:
                continue
            for o1, o2, n in ((e1 * pb, e2 * pb, pb), (K * pb + 7 * e1, K * pb + 7 * e2, 7)):
                x, y = getbits(A, o1, n), getbits(A, o2, n)
                setbits(A, o1, n, y)
                setbits(A, o2, n, x)
            if o.sm() != sm:
                refuse(env, o.sm(), pk, f, f"entries {e1} and {e2} of response {a % mp.W} exchanged")
    elif kind == "pkpad":
        for j in range(mp.keys - 1):
            base = 8 * (S + j * mp.rb)
            for b in list(range(N, 8 * fb)) + list(range(8 * fb + 7 * nv, 8 * mp.rb)):
                q = bytearray(pk)
                q[(base + b) >> 3] ^= 1 << (b & 7)
                refuse(env, sm, bytes(q), f, f"unused bit {b} of key matrix {j + 1}")
    elif kind == "pk127":
        for j in range(mp.keys - 1):
            at = S + j * mp.rb
            M = bytearray(pk[at:at + mp.rb])
            bits = int.from_bytes(M, "little") >> (8 * fb)
            zs = [q for q in range(nv) if not bits >> (7 * q) & 127] if v is None else []
            q = 0
            if v is not None:
                rows = [0, N - K - 1, nv - 1, nv - (N - K)] + [R.below(nv) for _ in range(60 * v)]
                zs = [q for q in rows if not getbits(M, 8 * fb + 7 * q, 7)][:v]
            for q in zs:
                setbits(M, 8 * fb + 7 * q, 7, 127)
                refuse(env, sm, pk[:at] + bytes(M) + pk[at + mp.rb:], f, f"zero value {q} of key matrix {j + 1} written as 127")
                setbits(M, 8 * fb + 7 * q, 7, 0)
    elif kind == "zero127":                    # key whose genuine edge values are zero: made by the model's packing, so that both forms are tried at every edge
        j = a % (mp.keys - 1)
        at = S + j * mp.rb
        for q in (0, 1, 7, 8, N - K - 1, nv // 2, nv - 2, nv - 1) + tuple(R.below(nv) for _ in range(8)):
            M = bytearray(pk[at:at + mp.rb])
            setbits(M, 8 * fb + 7 * q, 7, 127)
            refuse(env, sm, pk[:at] + bytes(M) + pk[at + mp.rb:], f, f"value {q} of key matrix {j + 1} set to 127")
    return True


def strat(env, deep=False):
    return st.fixed_dictionaries(dict(k=st.integers(0, 3), s=st.integers(0, 1 << 16), n=st.sampled_from([0, 1, 33, 200]), c=st.one_of(st.none(), chals()),
                                      e=st.tuples(st.sampled_from(["length", "surplus", "missing", "bytes", "actpad", "actpos", "seedorder", "actorder", "pkpad", "pk127", "zero127"]), st.integers(0, 255), st.integers(1, 6))))


KINDS = ["length", "count", "surplus", "missing", "bytes", "actpad", "actpos", "seedorder", "actorder", "pkpad", "pk127", "zero127"]


def scenarios(tier):
    S = []
    q = tier == "quick"
    for ps in ALL:
        cat = int(ps[0])
        for impl in ("ref", "avx2"):
            ref = impl == "ref"
            fixed = [dict(k=i % 3, s=i, n=[0, 33][i & 1], c=c, e=[k, None if k == "count" else i, 4]) for i, k in enumerate(KINDS) for c in (None, dict(shape="random", s=i, v=9))[:1 if q and cat > 1 else 2]]
            if not q:
                fixed += [dict(k=1, s=4, n=9, c=None, e=[k, 0, None]) for k in ("actpos", "pk127")]
            if q and ref and cat == 5:
                fixed = fixed[::2] if ps == "5B" else fixed[1::2]
            rd = {1: None, 3: (6, 2), 5: (4, 2)}[cat] if ref else None
            b = {1: 24, 3: 6, 5: 3}[cat]
            S.append(Scenario(f"reencode/{ps}", run, strat, red(impl, ps, r=rd), n=(b // 2 if ref else b, b * 60), cost=10 if ref and cat > 1 else 6, fixed=fixed))
            if cat == 1 or not ref:
                kinds = ("count", "surplus", "missing", "actpad", "actpos", "pkpad", "zero127", "length") if cat == 1 and not ref else ("pkpad", "actpos") if cat < 5 else ("pkpad",)
                S.append(Scenario(f"full/{ps}", run, strat, Spec(impl, ps), n=(0, {1: 60, 3: 8, 5: 2}[cat]), cost=15, parts=(1, 2), fixed=[dict(k=0, s=i, n=5, c=None, e=[k, None if k == "count" else i, 1]) for i, k in enumerate(kinds)][:8 if not q else 4 if cat == 1 and not ref else 2]))
    return S
