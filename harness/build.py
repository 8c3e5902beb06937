"""Builds the code under test (from /repo's working tree) together with the pipe worker, and the model."""
import concurrent.futures as cf
import glob
import os
import re
import subprocess
import tempfile

REPO = os.environ.get("LESS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKER = f"{VERIF}/worker"

#            cat  N    K    S   T     W   keys maxpub
PSETS = {
    "1B": (1, 252, 126, 16, 247, 30, 2, 1472),
    "1I": (1, 252, 126, 16, 244, 20, 4, 1152),
    "1S": (1, 252, 126, 16, 198, 17, 8, 1056),
    "3B": (3, 400, 200, 24, 759, 33, 2, 3912),
    "3S": (3, 400, 200, 24, 895, 26, 3, 3264),
    "5B": (5, 548, 274, 32, 1352, 40, 2, 7168),
    "5S": (5, 548, 274, 32, 907, 37, 3, 5600),
}
NAMES = {"B": "BALANCED", "I": "INTERMEDIATE", "S": "SHORT_SIG"}
BASE = {"ref": "Reference_Implementation", "avx2": "Optimized_Implementation/avx2", "neon": "Optimized_Implementation/neon"}
# operation groups of the worker; a group that cannot be built against a tree is replaced by an empty one
GROUPS = ["api", "fq", "fqopt", "vec", "mono", "code", "tree", "hash", "chal", "stat", "kat", "wrap", "big", "thr", "lib", "print"]
OPT_ONLY = {"fqopt", "vec"}
WANT = {"api": "api lib fq chal wrap hash mono code tree fqopt vec".split()}


def worst_seeds(T, W, L=None):
    """Largest number of tree nodes that can be revealed: exact, by dynamic programming over subtrees."""
    memo = {}
    L = L or 1 << T.bit_length()

    def g(lo, size):
        cap = max(0, min(T - lo, size))
        key = (cap, size)
        if key in memo:
            return memo[key]
        m = min(cap, W)
        r = [-10**9] * (m + 1)
        r[0] = 1
        if size == 1:
            if m:
                r[1] = 0
        else:
            a, b = g(lo, size // 2), g(lo + size // 2, size // 2)
            for i, x in enumerate(a):
                for j, y in enumerate(b):
                    if 0 < i + j <= m:
                        r[i + j] = max(r[i + j], x + y)
        memo[key] = r
        return r
    return g(0, L)[W]


class Spec:
    """One executable: implementation x parameter set x flavour, optionally with fewer rounds."""

    def __init__(self, impl, pset, flavour="plain", red=None, groups=None):
        self.impl, self.pset, self.flavour = impl, pset, flavour
        self.optional = impl == "neon"         # emulated: a tree it cannot be built from says nothing
        p = list(PSETS[pset])
        self.red = None
        if red:
            T, W = red
            mx = worst_seeds(T, W) * p[3]
            self.red = (T, W, mx)
            p[4], p[5], p[7] = T, W, mx
        self.par = tuple(p)
        self.groups = tuple(groups) if groups else None

    @property
    def key(self):
        return f"{self.impl}-{self.pset}-{self.flavour}" + (f"-T{self.red[0]}W{self.red[1]}" if self.red else "") + ("-" + "+".join(self.groups) if self.groups else "")

    def quick(self):
        """No call takes long: few rounds, or no whole signatures at all."""
        g = self.groups or ()
        return self.flavour != "tsan" and bool(self.red or g) and "thr" not in g and "big" not in g

    def __repr__(self):
        return self.key


FLAGS = {
    "plain": ["gcc", "-O3", "-DNDEBUG", "-fomit-frame-pointer", "-fno-stack-protector"],
    "fast": ["gcc", "-O2", "-DNDEBUG"],
    "asan": ["clang", "-O2", "-g", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment,shift-base", "-fno-omit-frame-pointer"],
    "asan0": ["gcc", "-O0", "-g", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment,shift-base", "-fno-omit-frame-pointer"],   # reads the optimiser would drop
    "tsan": ["clang", "-O1", "-g", "-DNDEBUG", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "msan": ["clang", "-O1", "-g", "-DNDEBUG", "-fsanitize=memory", "-fno-omit-frame-pointer"],
}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, root=None):
        self.tmp = None
        if root is None:
            self.tmp = tempfile.TemporaryDirectory(prefix="less-verif-")
            root = self.tmp.name
        self.root = root
        os.makedirs(root, exist_ok=True)
        self.exe, self.groups, self.notes = {}, {}, []

    def model(self):
        so = f"{self.root}/libmodel.so"
        if not os.path.exists(so):
            r = run(["g++", "-O3", "-march=native", "-shared", "-fPIC", "-pthread", "-std=c++17", "-o", so, f"{VERIF}/model/model.cpp"])
            if r.returncode:
                raise BuildError(r.stdout)
        return so

    def cflags(self, spec):
        cat = spec.pset[0]
        base = f"{REPO}/{BASE[spec.impl]}"
        f = list(FLAGS[spec.flavour]) + ["-std=gnu11", "-w", f"-DCATEGORY_{cat}", f"-D{NAMES[spec.pset[1]]}=1", "-march=native"]
        if spec.impl == "avx2":
            f += ["-mavx2", "-mavx"]
        if spec.impl == "neon":
            f += [f"-I{VERIF}/shim", "-flax-vector-conversions", "-mavx2"]
        f += [f"-I{base}/include", f"-I{WORKER}"]
        if spec.red:
            f += [f"-DRED_T={spec.red[0]}", f"-DRED_W={spec.red[1]}", f"-DRED_MAX={spec.red[2]}", "-include", f"{WORKER}/reduced.h"]
        return f

    def build_many(self, specs, jobs=8):
        """Compile every spec; all single-file compilations of all specs share one pool."""
        specs = [s for s in specs if s.key not in self.exe]
        todo = []
        for s in {s.key: s for s in specs}.values():
            d = f"{self.root}/{s.key}"
            os.makedirs(d, exist_ok=True)
            fl = self.cflags(s)
            srcs = sorted(glob.glob(f"{REPO}/{BASE[s.impl]}/lib/*.c"))
            for c in srcs:
                todo.append((s, "lib", os.path.basename(c), fl + ["-c", c, "-o", f"{d}/lib_{os.path.basename(c)}.o"]))
            for g in (s.groups or WANT["api"]):
                if g in OPT_ONLY and s.impl == "ref":
                    continue
                wf = [x if x != "-O3" else "-O1" for x in fl if x != "-w"] + ["-D_GNU_SOURCE", "-Werror=int-conversion", "-Werror=incompatible-pointer-types", "-Werror=implicit-function-declaration"]
                todo.append((s, "grp", g, wf + ["-c", f"{WORKER}/ops_{g}.c", "-o", f"{d}/ops_{g}.o"]))
            core = [x for x in fl if not x.startswith("-DRED") and x not in ("-include", f"{WORKER}/reduced.h")]
            todo.append((s, "core", "core", [x if x != "-O3" else "-O1" for x in core] + ["-c", f"{WORKER}/core.c", "-o", f"{d}/core.o"]))
        todo.sort(key=lambda t: (t[2] != "codes.c", t[2] != "LESS.c"))
        with cf.ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda t: (t, run(t[3])), todo))
        per = {}
        for (s, kind, name, cmd), r in res:
            st = per.setdefault(s.key, dict(spec=s, groups=[], err=None))
            if r.returncode:
                if kind == "grp":
                    self.notes.append(f"{s.key}: operation group {name} does not compile: {r.stdout[-400:]}")
                else:
                    st["err"] = f"{name}: {r.stdout[-2000:]}"
            elif kind == "grp":
                st["groups"].append(name)

        def link(st):
            s = st["spec"]
            if st["err"]:
                return s, None, st["err"], []
            d = f"{self.root}/{s.key}"
            groups = list(st["groups"])
            stub = f"{d}/stubs.c"
            err = ""
            for _ in range(12):
                with open(stub, "w") as f:
                    for g in GROUPS:
                        if g not in groups and g != "wrap":
                            f.write(f"int ops_{g}(unsigned op) {{ (void)op; return 0; }}\n")
                cmd = [x for x in FLAGS[s.flavour] if x != "-g"] + [stub, f"{d}/core.o"] + [f"{d}/ops_{g}.o" for g in groups] + sorted(glob.glob(f"{d}/lib_*.o")) + ["-o", f"{d}/worker", "-pthread", "-lm"]
                if "wrap" in groups:
                    cmd.append("-Wl,--wrap=expand_digest_to_fixed_weight")
                if "kat" in groups:
                    cmd += ["-lcrypto"]
                r = run(cmd)
                if r.returncode == 0:
                    return s, f"{d}/worker", None, groups
                err = r.stdout
                bad = [g for g in groups if re.search(rf"ops_{g}\.(o|c)\b", err) and "undefined reference" in err]
                if not bad:
                    break
                for g in bad:
                    groups.remove(g)
                    self.notes.append(f"{s.key}: operation group {g} does not link")
            return s, None, err[-2000:], []

        with cf.ThreadPoolExecutor(jobs) as ex:
            for s, exe, err, groups in ex.map(link, per.values()):
                self.exe[s.key] = exe
                self.groups[s.key] = groups
                if not exe:
                    self.notes.append(f"{s.key}: does not build: {err}")

    def close(self):
        if self.tmp:
            self.tmp.cleanup()
