import glob
import os
import re
import shutil
import subprocess
import tempfile

from harness import runner
from harness.build import BASE, REPO, VERIF, run as sh
from .mats import *

RULE = "a case is non-trivial when generator output was compared byte for byte with an independent AES-256 counter generator, or a complete pair of request and response files with that generator and the scheme model; distinct by seeds and request lengths"
ASSUME = ["AES-256 is implemented here from FIPS 197 and checked against its example", "the generator programs run with the scheme's code compiled for fewer rounds (full rounds in thorough); their fixed entropy is substituted at link time in the generated cases", "the seed expander is asked for strictly less than its declared maximum, as the NIST interface demands"]
SRC = {"Utilities": (f"{REPO}/Utilities/KAT_Generation/lib", f"{REPO}/Utilities/KAT_Generation/include"), "Reference": (f"{REPO}/Reference_Implementation/lib/nist",) * 2, "Optimized": (f"{REPO}/Optimized_Implementation/common/lib/nist",) * 2}


# --- AES-256, many blocks at once
def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ (p << 1) & 0xff ^ (0x1b if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 0x09
        x = q ^ (q << 1 | q >> 7) & 0xff ^ (q << 2 | q >> 6) & 0xff ^ (q << 3 | q >> 5) & 0xff ^ (q << 4 | q >> 4) & 0xff
        s[p] = x ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return np.array(s, np.uint8)


SB = _sbox()
XT = np.array([(x << 1) & 0xff ^ (0x1b if x & 0x80 else 0) for x in range(256)], np.uint8)
SHIFT = np.array([(i + 4 * (i % 4)) % 16 for i in range(16)])


def aes(key, blocks):
    """blocks: n x 16"""
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [int(SB[x]) for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = int(XT[rc])
        elif i % 8 == 4:
            t = [int(SB[x]) for x in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    rk = np.array(w, np.uint8).reshape(15, 16)
    s = blocks ^ rk[0]
    for r in range(1, 15):
        s = SB[s][:, SHIFT]
        if r < 14:
            c = s.reshape(-1, 4, 4)
            n = np.roll(c, -1, 2)
            s = (XT[c] ^ XT[n] ^ n ^ np.roll(c, -2, 2) ^ np.roll(c, -3, 2)).reshape(-1, 16)
        s = s ^ rk[r]
    return s


assert aes(bytes(range(32)), np.frombuffer(bytes.fromhex("00112233445566778899aabbccddeeff"), np.uint8)[None]).tobytes().hex() == "8ea2b7ca516745bfeafc49904b496089"


def counter(v, n, width=16):
    """the n blocks after v (16 bytes), only the last width bytes counting"""
    hi, lo = v[:16 - width], int.from_bytes(v[16 - width:], "big")
    b = b"".join(hi + ((lo + i) % (1 << 8 * width)).to_bytes(width, "big") for i in range(n))
    return np.frombuffer(b, np.uint8).reshape(-1, 16)


def plus(v, n):
    return ((int.from_bytes(v, "big") + n) % (1 << 128)).to_bytes(16, "big")


def update(data, k, v):
    t = aes(k, counter(plus(v, 1), 3)).tobytes()
    t = bytes(a ^ b for a, b in zip(t, data or bytes(48)))
    return t[:32], t[32:]


class DRBG:
    def __init__(self, e=None, pers=None):
        if e is not None:
            self.k, self.v = update(bytes(a ^ b for a, b in zip(e, pers or bytes(48))), bytes(32), bytes(16))

    def bytes(self, n):
        b = -(-n // 16)
        o = aes(self.k, counter(plus(self.v, 1), b)).tobytes()[:n] if b else b""
        self.k, self.v = update(None, self.k, plus(self.v, b))
        return o


# --- executables
GEN = [("Utilities", "ref", "1B", (5, 2)), ("Utilities", "avx2", "1I", (6, 2)), ("Reference", "ref", "1S", (5, 2)), ("Optimized", "avx2", "1B", (13, 4)), ("Reference", "avx2", "3B", (4, 1)), ("Optimized", "avx2", "3S", (5, 2)), ("Utilities", "avx2", "5S", (4, 1)), ("Reference", "avx2", "5B", (4, 1)),
       ("Utilities", "avx2", "1S", None), ("Utilities", "ref", "1B", None), ("Utilities", "avx2", "3B", None), ("Utilities", "avx2", "5B", None)]


def name(g):
    return f"{g[0]} {g[1]} {g[2]}" + (f" T{g[3][0]}" if g[3] else "")


def build(b):
    out = {}
    for n, (d, inc) in SRC.items():
        for san in (False, True):
            exe = f"{b.root}/katrng{len(out)}"
            fl = ["clang", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if san else ["gcc", "-O3"]
            r = sh(fl + ["-w", f'-DKAT_SRC="{d}/KAT_NIST_rng.c"', f"-I{d}", f"-I{inc}", f"{VERIF}/worker/kat_driver.c", "-o", exe, "-lcrypto"])
            out[n, san] = exe if r.returncode == 0 else None
            if r.returncode:
                b.notes.append(f"{d}: {r.stdout[-400:]}")
    import concurrent.futures as cf

    def gen(g):
        who, impl, ps, rd = g
        if rd is None and os.environ.get("VERIF_TIER_RUN") == "quick":
            return g, None, ""
        d, inc = SRC[who]
        sp = Spec(impl, ps, "plain", rd)
        exe = f"{b.root}/kat-{name(g).replace(' ', '-')}"
        src = sorted(glob.glob(f"{REPO}/{BASE[impl]}/lib/*.c"))
        cf_ = b.cflags(sp)                        # OpenSSL's headers first: the parameters are macros with short names
        r = sh(cf_[:1] + [x for h in ("stdio.h", "string.h", "openssl/conf.h", "openssl/evp.h", "openssl/err.h") for x in ("-include", h)] + cf_[1:] + [f"-I{d}", f"-I{inc}", f"{d}/PQCgenKAT_sign.c", f"{d}/KAT_NIST_rng.c", f"{VERIF}/worker/kat_wrap.c"] + src + ["-o", exe, "-lcrypto", "-lm", "-Wl,--wrap=KAT_NIST_randombytes_init"])
        return g, exe if r.returncode == 0 else None, r.stdout
    with cf.ThreadPoolExecutor(8) as ex:
        for g, exe, err in ex.map(gen, GEN):
            out[g] = exe
            if err and not exe:
                b.notes.append(f"{name(g)}: {err[-400:]}")
    return out


# --- the generator's bytes
def run_rng(env, c):
    exe = runner.G["extra"].get((c["v"], c["san"]))
    if not exe:
        raise Unsupported(f"the generator of {c['v']} does not compile")
    R = Rnd("kat", c["s"])
    cmd, want, what = b"", b"", []
    d, x = DRBG(bytes(48)), None
    cmd += b"I" + bytes(8) + bytes(96)
    n8 = lambda v: v.to_bytes(8, "little")
    i4 = lambda v: (v & 0xffffffff).to_bytes(4, "little")
    marks = []

    def expect(b, t):
        nonlocal want
        marks.append((len(want), t))
        want += b
    for op, n in c["ops"]:
        if op == "init":
            e, p = {0: (bytes(48), None), 1: (b"\xff" * 48, bytes(48))}.get(n, (R.bytes(48), R.bytes(48) if n & 1 else None))
            cmd += b"I" + n8(p is not None) + e + (p or R.bytes(48))
            d = DRBG(e, p)
        elif op == "state":                       # a counter about to carry
            k, v = R.bytes(32), R.bytes(15 - n % 16) + b"\xff" * (1 + n % 16)
            v = v[:-1] + bytes([v[-1] - n % 3]) if n % 5 else v
            cmd += b"V" + k + v
            d.k, d.v = k, v
        elif op == "bytes":
            cmd += b"R" + n8(n)
            expect(i4(0) + d.bytes(n), f"{n} bytes of the generator")
        elif op == "update":
            dat, k, v = R.bytes(48), R.bytes(32), R.bytes(15 - n % 16) + b"\xff" * (1 + n % 16)
            cmd += b"U" + n8(n & 1) + dat + k + v
            k, v = update(dat if n & 1 else None, k, v)
            expect(i4(0) + k + i4(0) + v, "state update")
        elif op == "expander":
            seed, div = R.bytes(32), R.bytes(8)
            m = {0: 0, 1: 1, 2: (1 << 32) - 1, 3: 1 << 32, 4: 1 << 40}.get(n % 9, 1 + R.below(1 << (1 + n % 31)))
            cmd += b"S" + n8(m) + seed + div
            expect(i4(-1 if m >> 32 else 0), "start of the seed expander")
            x = None if m >> 32 else [seed, div + m.to_bytes(4, "big") + bytes(4), m, 0]
        elif op == "expand" and x:
            if n == x[2] or x[3] + n > 1 << 20:                # the NIST code refuses the last byte
                continue
            cmd += b"X" + n8(n)
            if n > x[2]:
                expect(i4(-3) + b"\xc7" * n, f"refused request of {n} bytes with {x[2]} left")
                continue
            a, b = x[3] // 16, -(-(x[3] + n) // 16)
            o = aes(x[0], counter(x[1][:12] + a.to_bytes(4, "big"), b - a, 4)).tobytes()[x[3] - 16 * a:][:n] if n else b""
            expect(i4(0) + o, f"{n} bytes of the seed expander after {x[3]}")
            x[2] -= n
            x[3] += n
        elif op == "null" and x:
            cmd += b"N" + n8(n)
            expect(i4(-2), "request without a buffer")
    if not want:
        return False
    r = subprocess.run([exe], input=cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    env.need(r.returncode == 0, "the generator wrote outside its buffer" if r.returncode == 5 else f"the generator ended with {r.returncode}: {r.stderr[-300:].decode(errors='replace')}")
    if r.stdout != want:
        k = next((i for i in range(min(len(want), len(r.stdout))) if want[i] != r.stdout[i]), 0)
        t = [t for o, t in marks if o <= k][-1]
        o = [o for o, t in marks if o <= k][-1]
        raise Violation(f"{t}: wrong from byte {k - o - 4}: got {r.stdout[k:k+8].hex()} expected {want[k:k+8].hex()}")
    for op, n in c["ops"]:
        env.label(op)
    return True


NB = [0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 255, 256, 3300, 4096, 4097]


def strat_rng(env):
    n = st.one_of(st.sampled_from(NB), st.integers(0, 200), st.integers(0, 6000))
    op = st.tuples(st.sampled_from(["bytes", "expand", "init", "bytes", "expand", "state", "update", "expand", "expander", "bytes", "null"]), n)
    return st.fixed_dictionaries(dict(v=st.sampled_from(sorted(SRC)), san=st.booleans(), s=seed32, ops=st.lists(op, min_size=2, max_size=16).map(lambda l: [("expander", len(l))] + l)))


# --- whole files
def fields(text):
    """list of records, each an ordered list of (name, value)"""
    recs, cur = [], []
    for l in text.split("\n"):
        m = re.match(r"^(\w+) ?=(?: (.*))?$", l)
        if m:
            cur.append((m.group(1), (m.group(2) or "").strip()))
        elif not l.strip():
            if cur:
                recs.append(cur)
            cur = []
        elif not l.startswith("#"):
            raise Violation(f"unexpected line {l[:80]!r}")
    return recs + ([cur] if cur else [])


def run_files(env, c):
    g = tuple(tuple(x) if isinstance(x, list) else x for x in c["g"])
    exe = runner.G["extra"].get(g)
    if not exe:
        raise Unsupported(f"{name(g)} does not compile")
    par = env.par(Spec(g[1], g[2], "plain", g[3]))
    S = par.S
    d = tempfile.mkdtemp(prefix="less-kat-")
    try:
        ent = bytes(range(48))
        if c["e"] is not None:
            ent = xof(f"ent{c['e']}", 48)
            with open(f"{d}/entropy.in", "wb") as f:
                f.write(ent)
        r = subprocess.run([exe], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        env.need(r.returncode == 0, f"the generator ended with {r.returncode}: {r.stdout[-200:].decode(errors='replace')}")
        fs = sorted(os.listdir(d))
        if c["e"] is not None and "entropy.used" not in fs:
            raise Unsupported("the entropy cannot be substituted")
        if "entropy.used" in fs:
            env.eq(open(f"{d}/entropy.used", "rb").read(), bytes(range(48)), "the program's own entropy")
        env.eq([x for x in fs if not x.startswith("entropy")], [f"PQCsignKAT_{par.pkb}.req", f"PQCsignKAT_{par.pkb}.rsp"], "files written")
        req, rsp = (open(f"{d}/PQCsignKAT_{par.pkb}.{x}").read() for x in ("req", "rsp"))
    finally:
        shutil.rmtree(d)
    req, rsp = fields(req), fields(rsp)
    env.eq(len(req), 100, "number of requests")
    env.eq(len(rsp), 100, "number of responses")
    rng_ = DRBG(ent)
    for i in range(100):
        seed, n = rng_.bytes(48), 33 * (i + 1)
        m = rng_.bytes(n)
        q, p = req[i], rsp[i]
        env.eq([k for k, _ in q], ["count", "seed", "mlen", "msg", "pk", "sk", "smlen", "sm"], f"fields of request {i}")
        env.eq([k for k, _ in p], ["count", "seed", "mlen", "msg", "pk", "sk", "smlen", "sm"], f"fields of response {i}")
        q, p = dict(q), dict(p)
        for x, w in ((q, "request"), (p, "response")):
            env.eq(int(x["count"]), i, f"count of {w} {i}")
            env.eq(bytes.fromhex(x["seed"]), seed, f"seed of {w} {i}")
            env.eq(int(x["mlen"]), n, f"mlen of {w} {i}")
            env.eq(bytes.fromhex(x["msg"]), m, f"msg of {w} {i}")
        env.eq([q[k] for k in ("pk", "sk", "smlen", "sm")], [""] * 4, f"open fields of request {i}")
        s = par.xof(seed, 6 * S)
        env.eq(bytes.fromhex(p["sk"]), s[:3 * S], f"secret key of response {i}")
        if c["deep"] and i % c["deep"]:
            continue
        env.eq(bytes.fromhex(p["pk"]), par.keygen(s[:2 * S], s[2 * S:3 * S]), f"public key of response {i}")
        sig, _ = par.sign(s[:2 * S], s[2 * S:3 * S], s[3 * S:4 * S], s[4 * S:], m)
        env.eq(int(p["smlen"]), n + len(sig), f"smlen of response {i}")
        env.eq(bytes.fromhex(p["sm"]), m + sig, f"signed message of response {i}")
    env.label(name(g))
    return True


def scenarios(tier):
    q = tier == "quick"
    os.environ["VERIF_TIER_RUN"] = tier
    fixed = [dict(v=v, san=bool(i & 1), s=i, ops=[("init", i), ("bytes", n), ("bytes", NB[(i + 3) % len(NB)]), ("state", i), ("bytes", 100), ("update", i), ("expander", 5 + i), ("expand", n), ("expand", 5), ("expander", 2), ("expand", 4096 * (1 + i % 3)), ("expand", n), ("expand", 17)]) for v in sorted(SRC) for i, n in enumerate(NB)]
    S = [Scenario("generator", run_rng, strat_rng, None, n=(700, 40000), parts=(4, 16), cost=4, fixed=fixed, py=True)]
    for g in GEN:
        cat = int(g[2][0])
        if g[3] is None and q:
            continue
        fx = [dict(g=list(g), e=None, deep=0 if g[3] else {1: 3, 3: 10, 5: 25}[cat])]
        S.append(Scenario(f"files/{name(g)}", run_files, lambda env, g=g, cat=cat: st.fixed_dictionaries(dict(g=st.just(list(g)), e=seed32, deep=st.just(0 if cat == 1 else 3))), None, n=({1: 1, 3: 0, 5: 0}[cat] if g[3] else 0, {1: 30, 3: 8, 5: 4}[cat] if g[3] else 0), parts=(1, 2), cost={1: 5, 3: 9, 5: 12}[cat], fixed=fx))
    return S
