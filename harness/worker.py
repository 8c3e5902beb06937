"""Client side of the pipe worker, and the ctypes face of the model."""
import ctypes
import os
import select
import signal
import struct
import subprocess
import tempfile
import time


class Violation(Exception):
    """The code under test broke the property on this case."""


class Died(Violation):
    pass


class Unsupported(Exception):
    """The tree does not offer this internal operation (any more); the case says nothing."""


SLOW = os.environ.get("VERIF_SLOW")       # file that lists slow calls
U32 = struct.Struct("<I")


def u32(v):
    return U32.pack(v & 0xFFFFFFFF)


def blob(b):
    b = bytes(b)
    return U32.pack(len(b)) + b


class Reply:
    __slots__ = ("b", "p")

    def __init__(self, b):
        self.b, self.p = b, 0

    def u32(self):
        v, = U32.unpack_from(self.b, self.p)
        self.p += 4
        return v

    def i32(self):
        v = self.u32()
        return v - (1 << 32) if v >> 31 else v

    def blob(self):
        n = self.u32()
        v = self.b[self.p:self.p + n]
        if len(v) != n:
            raise RuntimeError("short reply")
        self.p += n
        return v


_libc = ctypes.CDLL(None)


def die_with_parent():
    _libc.prctl(1, signal.SIGKILL)


class Hang(Died):
    pass


class Worker:
    def __init__(self, exe, spec):
        self.exe, self.spec = exe, spec
        # seconds of processor time after which a call counts as not terminating (the slowest one takes a quarter of it)
        self.cpu_limit = 60.0 if spec.quick() else 240.0
        self.proc = None
        self.calls = 0

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="halt_on_error=1 exitcode=66")
        self.proc = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, bufsize=0, preexec_fn=die_with_parent)
        self.calls = 0
        self.mode = (0, 0)

    def stop(self):
        if self.proc:
            self.proc.kill()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc.wait()
            self.err.close()
            self.proc = None

    def _cpu(self):
        try:
            with open(f"/proc/{self.proc.pid}/stat") as f:
                v = f.read().rsplit(")", 1)[1].split()
            return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
        except OSError:
            return 0.0

    def _stderr(self):
        try:
            self.err.seek(0)
            t = self.err.read().decode(errors="replace")
        except (OSError, ValueError):
            return ""
        keep = [l for l in t.splitlines() if any(k in l for k in ("ERROR: ", "WARNING: ThreadSanitizer", "runtime error", "SUMMARY", "worker:", "Assertion"))]
        return " | ".join(keep[:4])[:600]

    def _fail(self, op, why, kind=None):
        p = self.proc
        try:
            rc = p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            rc = None
        msg = f"{self.spec}: operation {op}: {why}"
        if rc is not None:
            msg += f" (killed by {signal.Signals(-rc).name})" if rc < 0 else f" (exit {rc})"
        e = self._stderr()
        if e:
            msg += ": " + e
        self.stop()
        if "worker:" in e and rc == 97:
            raise RuntimeError(msg)
        raise (kind or Died)(msg)

    def call(self, op, payload=b"", name=None):
        if not self.proc:
            self.start()
        name = name or str(op)
        self.calls += 1
        fd = self.proc.stdout.fileno()
        cpu0 = None
        buf = bytearray()
        need = 12
        head = None
        t0 = time.time()
        try:
            mv = memoryview(struct.pack("<II", op, len(payload)) + payload)
            while mv:
                mv = mv[os.write(self.proc.stdin.fileno(), mv):]
        except BrokenPipeError:
            self._fail(name, "the process died")
        while len(buf) < need:
            r, _, _ = select.select([fd], [], [], 10.0)
            if not r:
                c = self._cpu()
                if cpu0 is None:
                    cpu0 = c
                elif c - cpu0 > self.cpu_limit:
                    self.proc.kill()
                    self._fail(name, f"no answer after {int(c - cpu0)} s of processor time (does not terminate)", Hang)
                continue
            d = os.read(fd, 1 << 20)
            if not d:
                self._fail(name, "the process died")
            buf += d
            if head is None and len(buf) >= 12:
                head = struct.unpack_from("<III", buf)
                need = 12 + head[2]
        if SLOW and time.time() - t0 > 5:
            with open(SLOW, "a") as f:
                f.write(f"{time.time() - t0:.1f} {self.spec} {name}\n")
        ok, intact, n = head
        if not ok:
            raise Unsupported(f"{self.spec}: {name}")
        if not intact:
            raise Violation(f"{self.spec}: operation {name} wrote outside a buffer it was given")
        return Reply(bytes(buf[12:]))

    # --- settings
    def setmode(self, guard=0, poison=0):
        if not self.proc:
            self.start()
        if self.mode != (guard, poison):
            self.call(1, u32(guard) + u32(poison))
            self.mode = (guard, poison)

    def force(self, chal=None):
        """Substitute the challenge; returns how often the previous substitution was used."""
        return self.call(3, u32(1 if chal is not None else 0) + blob(chal or b"")).u32()

    # --- api
    def info(self):
        v = struct.unpack("<21I", self.call(10).blob())
        k = "N K Q S H PS T W keys maxpub leaves rref act sk pk sig maxbytes b0 b1 rng signt".split()
        return dict(zip(k, v))

    def seed(self, s):
        self.call(11, blob(s), "seed generator")

    def rng(self):
        return self.call(12).blob()

    def set_rng(self, s):
        self.call(13, blob(s))

    def random(self, n):
        return self.call(14, u32(n)).blob()

    def keypair(self):
        r = self.call(20, name="crypto_sign_keypair")
        return r.i32(), r.blob(), r.blob()

    def sign(self, sk, m, fill=0xA5):
        r = self.call(21, u32(fill) + blob(sk) + blob(m), "crypto_sign")
        ret, lo, hi, sm = r.i32(), r.u32(), r.u32(), r.blob()
        return ret, lo | hi << 32, sm

    def open(self, sm, pk, fill=0xA5):
        r = self.call(22, u32(fill) + blob(sm) + blob(pk), "crypto_sign_open")
        ret, lo, hi, m = r.i32(), r.u32(), r.u32(), r.blob()
        return ret, lo | hi << 32, m

    def verify(self, pk, m, sig):
        return self.call(23, blob(pk) + blob(m) + blob(sig), "LESS_verify").u32()


class CPar(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in "cat N K S T W keys maxpub".split()]


class Model:
    def __init__(self, so):
        L = self.L = ctypes.CDLL(so)
        for f in "m_xof m_sha3 m_open m_sign".split():
            getattr(L, f)
        L.m_xof.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_char_p, ctypes.c_uint64]
        L.m_sha3.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_char_p]
        L.m_sign.argtypes = [ctypes.c_void_p] + [ctypes.c_char_p] * 5 + [ctypes.c_uint64] + [ctypes.c_char_p] * 3
        L.m_open.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_char_p]
        L.m_sample.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p, ctypes.c_int]

    @staticmethod
    def buf(n):
        return ctypes.create_string_buffer(max(n, 1))

    def xof(self, cat, data, n):
        o = self.buf(n)
        self.L.m_xof(cat, data, len(data), o, n)
        return o.raw[:n]


class MP:
    """The model for one parameter tuple."""

    def __init__(self, model, par):
        self.m, self.L, self.par = model, model.L, par
        self.c = CPar(*par)
        self.cat, self.N, self.K, self.S, self.T, self.W, self.keys, self.maxpub = par
        self.p = ctypes.byref(self.c)
        self.rb = self.L.m_rref_bytes(self.p)
        self.ab = self.L.m_act_bytes(self.p)
        self.leaves = self.L.m_leaves(self.p)
        self.pkb = self.S + (self.keys - 1) * self.rb
        self.skb = 3 * self.S
        self.sigmax = 4 * self.S + self.W * self.ab + self.maxpub + 1

    def siglen(self, n):
        return 4 * self.S + self.W * self.ab + n * self.S + 1

    def xof(self, data, n):
        return self.m.xof(self.cat, data, n)

    def keygen(self, sk, g0):
        o = self.m.buf(self.pkb)
        self.L.m_keygen(self.p, sk, g0, o)
        return o.raw[:self.pkb]

    def sign(self, sk, g0, eph, salt, msg, forced=None):
        o, ch = self.m.buf(self.sigmax + 64 * self.S), self.m.buf(self.T)
        n = self.L.m_sign(self.p, sk, g0, eph, salt, msg, len(msg), o, forced, ch)
        return o.raw[:n], ch.raw[:self.T]

    def open(self, pk, sm, forced=None):
        return self.L.m_open(self.p, pk, sm, len(sm), forced)

    def sample(self, seed, lo, span, n, after=16):
        o, a = self.m.buf(n), self.m.buf(after)
        self.L.m_sample(self.p, seed, len(seed), lo, span, o, n, a, after)
        return o.raw[:n], a.raw[:after]

    def mono(self, data):
        c, p = self.m.buf(self.N), self.m.buf(2 * self.N)
        self.L.m_mono(self.p, data, len(data), c, p)
        return c.raw[:self.N], p.raw[:2 * self.N]

    def G0(self, seed):
        o = self.m.buf(self.K * self.N)
        self.L.m_G0(self.p, seed, o)
        return o.raw[:self.K * self.N]

    def rref(self, G, K=None, N=None):
        K, N = K or self.K, N or self.N
        g, piv = ctypes.create_string_buffer(bytes(G), K * N), self.m.buf(N)
        r = self.L.m_rref(K, N, g, piv)
        return r, g.raw[:K * N], piv.raw[:N]

    def canon(self, G, piv):
        o = self.m.buf(self.K * self.N)
        self.L.m_canon(self.K, self.N, bytes(G), bytes(piv), o)
        return o.raw[:self.K * (self.N - sum(piv))]

    def pack_rref(self, G, piv):
        o = self.m.buf(self.rb)
        self.L.m_pack_rref(self.p, bytes(G), bytes(piv), o)
        return o.raw[:self.rb]

    def unpack_rref(self, b):
        g, piv = self.m.buf(self.K * self.N), self.m.buf(self.N)
        r = self.L.m_unpack_rref(self.p, b, g, piv)
        return r, g.raw[:self.K * self.N], piv.raw[:self.N]

    def pack_act(self, c, p):
        o = self.m.buf(self.ab)
        self.L.m_pack_act(self.p, bytes(p), bytes(c), o)
        return o.raw[:self.ab]

    def unpack_act(self, b):
        p, c = self.m.buf(2 * self.K), self.m.buf(self.K)
        ok = self.L.m_unpack_act(self.p, b, p, c)
        return ok, c.raw[:self.K], p.raw[:2 * self.K]

    def act_valid(self, c, p):
        return bool(self.L.m_act_valid(self.p, bytes(p), bytes(c)))

    def tree(self, root, salt):
        n = (2 * self.leaves - 1) * self.S
        o = self.m.buf(n)
        self.L.m_tree(self.p, root, salt, o)
        return o.raw[:n]

    def pub(self, hide):
        a = (ctypes.c_int * (2 * self.leaves))()
        n = self.L.m_pub(self.p, bytes(hide), a)
        return list(a[:n])

    def challenge(self, d):
        o = self.m.buf(self.T)
        self.L.m_challenge(self.p, d, o)
        return o.raw[:self.T]

    def commit(self, G, c, p):
        v, bp, bc = self.m.buf(self.K * (self.N - self.K)), self.m.buf(2 * self.K), self.m.buf(self.K)
        self.L.m_commit(self.p, bytes(G), bytes(c), bytes(p), v, bp, bc)
        return v.raw[:self.K * (self.N - self.K)], bc.raw[:self.K], bp.raw[:2 * self.K]
