"""Generators and helpers shared by the checks. Every case is a small JSON-able dict; bulk data is derived from seeds in it."""
import hashlib
import struct

from hypothesis import strategies as st

from harness.build import PSETS, Spec, worst_seeds
from harness.runner import Scenario, xof
from harness.worker import Unsupported, Violation

Q = 127
ALL = list(PSETS)
seed32 = st.integers(0, (1 << 32) - 1)
# fewer rounds, same code: (rounds, challenged rounds)
RED = {"1B": (13, 4), "1I": (16, 5), "1S": (11, 3), "3B": (9, 3), "3S": (8, 3), "5B": (7, 3), "5S": (8, 2)}


class Rnd:
    """Deterministic expansion of a drawn seed (so that shrinking the seed shrinks the data)."""

    def __init__(self, *seed):
        self.s = "/".join(map(str, seed)).encode()
        self.c, self.buf = 0, b""

    def bytes(self, n):
        while len(self.buf) < n:
            self.buf += hashlib.shake_128(self.s + b"#%d" % self.c).digest(max(4096, n))
            self.c += 1
        o, self.buf = self.buf[:n], self.buf[n:]
        return o

    def below(self, n):
        b = (n - 1).bit_length()
        k = (b + 7) // 8
        if n <= 1:
            return 0
        while True:
            v = int.from_bytes(self.bytes(k), "little") & ((1 << b) - 1)
            if v < n:
                return v

    def shuffle(self, l):
        for i in range(len(l) - 1, 0, -1):
            j = self.below(i + 1)
            l[i], l[j] = l[j], l[i]
        return l

    def fq(self, n):
        o = bytearray()
        while len(o) < n:
            o += bytes(b & 127 for b in self.bytes(2 * n) if b & 127 != 127)
        return bytes(o[:n])

    def fqs(self, n):
        o = bytearray()
        while len(o) < n:
            o += bytes(b & 127 for b in self.bytes(2 * n) if b & 127 not in (0, 127))
        return bytes(o[:n])


def le16(l):
    return struct.pack(f"<{len(l)}H", *l)


def un16(b):
    return list(struct.unpack(f"<{len(b)//2}H", b))


EDGES = sorted({r * k + d for r in (72, 104, 136, 144, 168) for k in (1, 2) for d in (-1, 0, 1)} | {255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 3300})


def lengths(big=70000):
    return st.one_of(st.integers(0, 6), st.sampled_from(EDGES), st.integers(0, 2000), st.sampled_from([x for x in (65535, 65536, 65537, 16384, big) if x <= big] or [big]), st.integers(0, big))


def msgs(big=70000):
    return st.fixed_dictionaries(dict(n=lengths(big), s=st.integers(0, 255)))


def msg(m):
    return xof(f"m{m['s']}", m["n"])


def worst_positions(T, W, salt=0):
    """A set of W positions whose complement needs the largest number of published tree nodes."""
    memo = {}
    NEG = -10 ** 9

    def g(lo, size):
        cap = max(0, min(T - lo, size))
        k = (cap, size)
        if k in memo:
            return memo[k]
        m = min(cap, W)
        r = [NEG] * (m + 1)
        r[0] = 1
        if size == 1:
            if m:
                r[1] = 0
        else:
            a, b = g(lo, size // 2), g(lo + size // 2, size // 2)
            for i, x in enumerate(a):
                for j, y in enumerate(b):
                    if 0 < i + j <= m:
                        r[i + j] = max(r[i + j], x + y)
        memo[k] = r
        return r
    out = []
    R = Rnd("worst", salt)

    def back(lo, size, w):
        if w == 0:
            return
        if size == 1:
            out.append(lo)
            return
        a, b = g(lo, size // 2), g(lo + size // 2, size // 2)
        tot = g(lo, size)[w]
        opts = [i for i in range(max(0, w - len(b) + 1), min(w, len(a) - 1) + 1) if a[i] + b[w - i] == tot]
        i = opts[R.below(len(opts))]
        back(lo, size // 2, i)
        back(lo + size // 2, size // 2, w - i)
    back(0, 1 << T.bit_length(), W)
    return sorted(out)


def chals():
    """A fixed-weight challenge, described by shape."""
    return st.fixed_dictionaries(dict(shape=st.sampled_from(["random", "worst", "head", "tail", "spread", "block", "ends", "blocks", "even", "odd"]), s=st.integers(0, 1 << 16), v=st.integers(0, 255)))


def chal(c, T, W, keys):
    R = Rnd("chal", c["s"])
    k = c["shape"]
    if k == "random":
        pos = R.shuffle(list(range(T)))[:W]
    elif k == "worst":
        pos = worst_positions(T, W, c["s"])
    elif k == "head":
        pos = range(W)
    elif k == "tail":
        pos = range(T - W, T)
    elif k == "spread":
        pos = {(i * T // W + c["s"]) % T for i in range(W)}
    elif k == "block":
        a = c["s"] % (T - W + 1)
        pos = range(a, a + W)
    elif k == "ends":
        h = c["s"] % (W + 1)
        pos = list(range(h)) + list(range(T - (W - h), T))
    elif k == "blocks":                         # aligned runs: whole subtrees hidden
        pos = []
        b = 1 << (c["s"] % 5)
        starts = R.shuffle(list(range(0, T, b)))
        for a in starts:
            pos += [x for x in range(a, min(T, a + b))]
            if len(pos) >= W:
                break
        pos = pos[:W]
    else:
        p = [x for x in range(T) if x % 2 == (k == "odd")]
        q = [x for x in range(T) if x % 2 != (k == "odd")]
        R.shuffle(p)
        pos = (p + q)[:W]
    pos = list(dict.fromkeys(pos))
    for x in range(T):
        if len(pos) >= W:
            break
        if x not in pos:
            pos.append(x)
    out = bytearray(T)
    for j, x in enumerate(sorted(pos)):
        out[x] = 1 + (R.below(keys - 1) if c["v"] > 2 else c["v"]) % (keys - 1)
    return bytes(out)


def keypair(env, w, s, cache=True):
    """Key pair made by the code under test from a generator seeded with s."""
    k = ("key", w.spec.key, s)
    if k not in env.cache or not cache:
        w.seed(xof(f"key{s}", 48))
        r, pk, sk = w.keypair()
        if r != 0:
            raise Violation(f"key generation returned {r}")
        env.cache[k] = (pk, sk)
    return env.cache[k]


def sign(env, w, sk, m, s, forced=None):
    """Signed message produced by the code under test with generator seed s."""
    if forced is not None:
        force_works(env, w)
    w.seed(xof(f"sig{s}", 48))
    if forced is not None:
        w.force(forced)
    r, sl, sm = w.sign(sk, m)
    if forced is not None and w.force(None) == 0:
        raise Unsupported("the challenge cannot be substituted on this tree")
    if r != 0:
        raise Violation(f"signing returned {r} for a message of {len(m)} bytes")
    if sl > len(sm) or sl < len(m):
        raise Violation(f"signing reported a length of {sl} for a message of {len(m)} bytes")
    return sm[:sl]


def force_works(env, w):
    """Whether the verifier of this tree takes the substituted challenge (it may have been moved out of the linker's reach)."""
    k = ("forceable", w.spec.key)
    if k not in env.cache:
        pk, sk = keypair(env, w, 0)
        sm = sign(env, w, sk, b"probe", 77)
        mp = env.par(w.spec)
        n = mp.siglen(sm[-1]) - 2 * mp.S - mp.W * mp.ab
        w.force(mp.challenge(sm[len(sm) - n:len(sm) - n + 2 * mp.S]))
        w.open(sm, pk)
        env.cache[k] = w.force(None) > 0
    if not env.cache[k]:
        raise Unsupported("the verifier's challenge cannot be substituted on this tree")


def opened(w, sm, pk, forced=None):
    if forced is not None:
        w.force(forced)
    r, ml, m = w.open(sm, pk)
    if forced is not None:
        w.force(None)
    return r, ml, m


def red(impl, ps, flavour="plain", r=None, **k):
    return Spec(impl, ps, flavour, r or RED[ps], **k)


def both(f):
    return [f(i) for i in ("ref", "avx2")]


def through(part):
    """Run function: whole keys and signatures against the model, looking at one part only. Reaches the property on
    trees whose internal functions have other names."""
    def run(env, c):
        w, mp = env.w, env.mp
        S = mp.S
        b, r = mp.xof(xof(f"key{c['k']}", 48), 3 * S), mp.xof(xof(f"sig{c['s']}", 48), 3 * S)
        pk, sk = keypair(env, w, c["k"])
        key = ("thr", mp.par, c["k"])
        if key not in env.cache:
            env.cache[key] = mp.keygen(b[:2 * S], b[2 * S:])
        if part == "key":
            if pk[:S] != env.cache[key][:S]:
                return False                    # other secrets: nothing to compare
            for j in range(mp.keys - 1):
                env.eq(pk[S + j * mp.rb:S + (j + 1) * mp.rb], env.cache[key][S + j * mp.rb:S + (j + 1) * mp.rb], f"public matrix {j + 1}")
            env.label("public key compared")
            return True
        if pk != env.cache[key]:
            return False
        m = xof(f"t{c['s']}", c["s"] % 300)
        g = sign(env, w, sk, m, c["s"])[len(m):]
        sig, ch = mp.sign(sk[:2 * S], sk[2 * S:], r[:S], r[S:], m, None)
        n = 4 * S + mp.W * mp.ab
        if g[:2 * S] != sig[:2 * S]:
            return False
        if part == "digest":
            env.eq(g[n - 2 * S:n], sig[n - 2 * S:n], "digest of the canonical forms of all rounds")
        elif g[n - 2 * S:n] != sig[n - 2 * S:n]:
            return False
        elif part == "responses":
            for i in range(mp.W):
                env.eq(g[2 * S + i * mp.ab:2 * S + (i + 1) * mp.ab], sig[2 * S + i * mp.ab:2 * S + (i + 1) * mp.ab], f"response {i}")
        elif part == "seeds":
            env.eq(g[n:], sig[n:], "published seeds and their count")
        env.label(f"{part} of a whole signature compared")
        return True
    return run


def through_scenarios(*parts, n=4):
    S = []
    for ps in ("1B", "1S", "3S", "5B"):
        for impl in ("ref", "avx2"):
            for p in parts:
                S.append(Scenario(f"whole ({p})/{ps}", through(p), lambda env: st.fixed_dictionaries(dict(k=st.integers(0, 9), s=seed32)), red(impl, ps), n=(n // (1 if ps[0] == "1" else 2), 30 * n), cost=2 if impl == "avx2" else 5))
    return S
