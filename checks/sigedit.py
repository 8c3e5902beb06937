"""Structured alterations of (signed message, public key)."""
from .common import *

SIG_KINDS = ["flip", "byte", "salt", "digest", "digestlast", "act.flip", "act.pos", "act.coef", "act.swap", "act.copy", "act.dup", "act.pair", "act.pad", "act.posN", "act.zero", "act.scale", "act.unit", "seed.flip", "seed.swap", "seed.zero",
             "count", "count+", "count-", "grow", "shrink", "trunc", "append", "zeros"]
MSG_KINDS = ["msg.flip", "msg.last", "msg.first", "msg.cut", "msg.add", "msg.zero", "msg.drop", "msg.new", "msg.prepend"]
PK_KINDS = ["pk.flip", "pk.seed", "pk.byte", "pk.val", "pk.127", "pk.piv", "pk.pivswap", "pk.padflag", "pk.padtail", "pk.swap", "pk.copy", "pk.zero", "pk.ones", "pk.other"]


def edits(kinds, lo=1, hi=2):
    return st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 1 << 20), st.integers(0, 1 << 16)), min_size=lo, max_size=hi)


def getbits(b, off, n):
    v = 0
    for i in range(n):
        v |= (b[(off + i) >> 3] >> ((off + i) & 7) & 1) << i
    return v


def setbits(b, off, n, v):
    for i in range(n):
        m = 1 << ((off + i) & 7)
        b[(off + i) >> 3] = (b[(off + i) >> 3] & ~m) | (m if v >> i & 1 else 0)


class SM:
    """A signed message and key as editable parts."""

    def __init__(self, mp, sm, pk):
        self.mp = mp
        n = sm[-1]
        L = mp.siglen(n)
        self.m = bytearray(sm[:len(sm) - L])
        s = sm[len(sm) - L:]
        S = mp.S
        self.salt = bytearray(s[:2 * S])
        o = 2 * S
        self.acts = [bytearray(s[o + i * mp.ab:o + (i + 1) * mp.ab]) for i in range(mp.W)]
        o += mp.W * mp.ab
        self.digest = bytearray(s[o:o + 2 * S])
        o += 2 * S
        self.seeds = [bytearray(s[o + i * S:o + (i + 1) * S]) for i in range(n)]
        self.count = n
        self.tail = bytearray()
        self.cut = 0
        self.pk = bytearray(pk)

    def sig(self):
        return bytes(self.salt) + b"".join(map(bytes, self.acts)) + bytes(self.digest) + b"".join(map(bytes, self.seeds)) + bytes([self.count & 255]) + bytes(self.tail)

    def sm(self):
        b = bytes(self.m) + self.sig()
        return b[:len(b) - self.cut] if self.cut else b

    def edit(self, kind, a, v):
        mp = self.mp
        S, K, N = mp.S, mp.K, mp.N
        pb = N.bit_length()
        m, W = self.m, mp.W
        A = self.acts[a % W]
        e = v % K
        eo, co = e * pb, K * pb + 7 * e
        k = kind
        if k in ("flip", "byte"):
            b = bytearray(self.sm())
            if not b:
                return
            i = (a * 2654435761 + v) % len(b)
            b[i] = b[i] ^ (1 << (v % 8)) if k == "flip" else v & 255
            self.raw(b)
        elif k == "salt":
            self.salt[a % (2 * S)] ^= 1 << v % 8
        elif k == "digest":
            self.digest[a % (2 * S)] ^= 1 << v % 8
        elif k == "digestlast":
            self.digest[2 * S - 1 - a % 4] ^= 1 << v % 8
        elif k == "act.flip":
            i = (v * 7919 + a) % (8 * mp.ab)
            A[i >> 3] ^= 1 << (i & 7)
        elif k == "act.pos":
            setbits(A, eo, pb, a % N)
        elif k == "act.coef":
            setbits(A, co, 7, a % 128)
        elif k == "act.zero":
            setbits(A, co, 7, 0 if a & 1 else 127)
        elif k in ("act.scale", "act.unit"):        # a common factor cannot be seen by the canonical form; a factor on one entry can
            f = 2 + a % 125
            for q in range(K) if k == "act.scale" else [e]:
                x = getbits(A, K * pb + 7 * q, 7)
                setbits(A, K * pb + 7 * q, 7, x * f % 127)
        elif k == "act.swap":
            i, j = a % W, v % W
            self.acts[i], self.acts[j] = self.acts[j], self.acts[i]
        elif k == "act.copy":
            self.acts[a % W] = bytearray(self.acts[v % W])
        elif k == "act.dup":
            e2 = (e + 1 + a % (K - 1)) % K
            setbits(A, eo, pb, getbits(A, e2 * pb, pb))
        elif k == "act.pair":                       # exchange two entries of one action
            e2 = (e + 1 + a % (K - 1)) % K
            for o1, o2, n in ((eo, e2 * pb, pb), (co, K * pb + 7 * e2, 7)):
                x, y = getbits(A, o1, n), getbits(A, o2, n)
                setbits(A, o1, n, y)
                setbits(A, o2, n, x)
        elif k == "act.pad":
            used = K * (pb + 7)
            if used < 8 * mp.ab:
                i = used + v % (8 * mp.ab - used)
                A[i >> 3] ^= 1 << (i & 7)
        elif k == "act.posN":
            for d in range(K):
                q = (e + d) % K
                p = getbits(A, q * pb, pb)
                if p + N < 1 << pb:
                    setbits(A, q * pb, pb, p + N)
                    break
        elif k == "seed.flip" and self.seeds:
            self.seeds[a % len(self.seeds)][v % S] ^= 1 << (v // S) % 8
        elif k == "seed.swap" and self.seeds:
            i, j = a % len(self.seeds), v % len(self.seeds)
            self.seeds[i], self.seeds[j] = self.seeds[j], self.seeds[i]
        elif k == "seed.zero" and self.seeds:
            self.seeds[a % len(self.seeds)] = bytearray(S)
        elif k == "count":
            self.count = v & 255
        elif k == "count+":
            self.count += 1 + v % 3
        elif k == "count-":
            self.count -= 1 + v % 3
        elif k == "grow":                           # more seeds, announced
            n = 1 + v % 4
            self.seeds += [bytearray(S) if a & 1 else bytearray(xof(a, S)) for _ in range(n)]
            if a & 2 and n == 1:
                self.seeds[-1] = bytearray([self.count]) + bytearray(S - 1)
            self.count += n
        elif k == "shrink":
            n = 1 + v % 4
            del self.seeds[max(0, len(self.seeds) - n):]
            self.count = len(self.seeds)
        elif k == "trunc":
            self.cut += 1 + (v % 40 if a & 1 else (a * 31 + v) % max(1, len(self.sm())))
        elif k == "append":
            self.tail += bytes([self.count & 255]) if a & 1 else xof(v, 1 + v % 20)
        elif k == "zeros":
            self.tail += bytes(1 + v % 40)
        elif k == "msg.flip" and m:
            m[(a * 2654435761 + v) % len(m)] ^= 1 << v % 8
        elif k == "msg.last" and m:
            m[-1 - a % min(len(m), 9)] ^= 1 << v % 8
        elif k == "msg.first" and m:
            m[a % min(len(m), 9)] ^= 1 << v % 8
        elif k == "msg.cut" and m:
            del m[max(0, len(m) - 1 - v % 9):]
        elif k == "msg.drop" and m:
            del m[a % len(m)]
        elif k == "msg.add":
            m += xof(v, 1 + v % 9)
        elif k == "msg.zero":
            m += bytes(1 + v % 200)
        elif k == "msg.prepend":
            m[:0] = xof(v, 1 + v % 9)
        elif k == "msg.new":
            m[:] = xof(v, a % 300)
        elif k.startswith("pk."):
            self.pkedit(k, a, v)

    def pkedit(self, k, a, v):
        mp, pk = self.mp, self.pk
        S, K, N, rb = mp.S, mp.K, mp.N, mp.rb
        fb = (N + 7) // 8
        j = a % (mp.keys - 1)
        o = S + j * rb
        M = memoryview(pk)[o:o + rb]
        nv = K * (N - K)
        i = (a * 2654435761 + v) % nv
        piv = [c for c in range(N) if getbits(M, c, 1)]
        non = [c for c in range(N) if not getbits(M, c, 1)]
        if k == "pk.flip":
            x = (a * 2654435761 + v) % len(pk)
            pk[x] ^= 1 << v % 8
        elif k == "pk.byte":
            x = (a * 2654435761 + v) % len(pk)
            pk[x] = v & 255
        elif k == "pk.seed":
            pk[a % S] ^= 1 << v % 8
        elif k == "pk.val":
            setbits(M, 8 * fb + 7 * i, 7, v % 127)
        elif k == "pk.127":
            ed = [i, 0, nv - 1, N - K - 1]
            zs = [q for q in ed if getbits(M, 8 * fb + 7 * q, 7) == 0] or [q for q in ((i + d) % nv for d in range(600)) if getbits(M, 8 * fb + 7 * q, 7) == 0]
            setbits(M, 8 * fb + 7 * (zs[0] if zs and v & 1 else ed[v % 4]), 7, 127)
        elif k == "pk.piv":
            c = v % N
            setbits(M, c, 1, 1 - getbits(M, c, 1))
        elif k == "pk.pivswap" and piv and non:
            setbits(M, piv[v % len(piv)], 1, 0)
            setbits(M, non[a % len(non)], 1, 1)
        elif k == "pk.padflag":
            if 8 * fb > N:
                x = N + v % (8 * fb - N)
                M[x >> 3] ^= 1 << (x & 7)
        elif k == "pk.padtail":
            used = 8 * fb + 7 * nv
            if used < 8 * rb:
                x = used + v % (8 * rb - used)
                M[x >> 3] ^= 1 << (x & 7)
        elif k == "pk.swap" and mp.keys > 2:
            j2 = (j + 1 + v % (mp.keys - 2)) % (mp.keys - 1)
            x, y = bytes(pk[S + j * rb:S + (j + 1) * rb]), bytes(pk[S + j2 * rb:S + (j2 + 1) * rb])
            del M
            pk[S + j * rb:S + (j + 1) * rb], pk[S + j2 * rb:S + (j2 + 1) * rb] = y, x
        elif k == "pk.copy" and mp.keys > 2:
            j2 = (j + 1 + v % (mp.keys - 2)) % (mp.keys - 1)
            M[:] = bytes(pk[S + j2 * rb:S + (j2 + 1) * rb])
        elif k == "pk.zero":
            M[:fb] = bytes(fb)
        elif k == "pk.ones":
            M[:fb] = b"\xff" * fb
        elif k == "pk.other":
            pk[:] = xof(v, len(pk))

    def raw(self, b):
        """Continue from raw bytes (keeps them as an opaque signed message)."""
        self.opaque = bytes(b)
        self.sm = lambda: self.opaque
        self.raw = self._raw2

    def _raw2(self, b):
        self.opaque = bytes(b)


def apply(mp, sm, pk, eds):
    o = SM(mp, sm, pk)
    for k, a, v in eds:
        o.edit(k, a, v)
    return o.sm(), bytes(o.pk)
