"""Runs a property's scenarios: seeded generation in a pool of processes, shrinking, replay, evidence."""
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing as mp
import os
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis.errors import Flaky, FlakyFailure

from .build import VERIF, BuildError, Builder, Spec
from .worker import MP, Died, Hang, Model, Unsupported, Violation, Worker

SHRINK_S = 40.0          # after the first failure, how long to look for a smaller one
GRACE_S = 25.0           # after the first confirmed violation, how long to wait for jobs already begun
STOP = multiprocessing.Value("i", 0)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def xof(seed, n):
    return hashlib.shake_128(b"case" + str(seed).encode()).digest(n)


def cid(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


class Scenario:
    """name; spec (primary executable or None); strategy(env) -> Hypothesis strategy of JSON-able dicts; run(env, case)
    raises Violation or returns whether the case was non-trivial; n cases per tier; also = further executables;
    parts = number of independently seeded jobs the cases are spread over; cost = rough seconds of the job (ordering);
    fixed = list of cases run before the generated ones."""

    def __init__(self, name, run, strategy=None, spec=None, n=(10, 100), also=(), parts=(1, 4), cost=1.0, fixed=(), tier=None, py=False):
        self.name, self.run, self.strategy, self.spec, self.n, self.also, self.parts, self.cost, self.fixed, self.tier, self.py = name, run, strategy, spec, n, tuple(also), parts, cost, list(fixed), tier, py

    def specs(self):
        return ([self.spec] if self.spec else []) + list(self.also)


class Env:
    def __init__(self, builder_exe, model_so, sc, groups):
        self.exe, self.sc, self.groups = builder_exe, sc, groups
        self.model = Model(model_so) if model_so else None
        self.workers, self.mps, self.cache, self.labels = {}, {}, {}, {}
        self.keep = []

    def worker(self, spec):
        w = self.workers.get(spec.key)
        if not w:
            exe = self.exe.get(spec.key)
            if not exe and spec.optional:
                raise Unsupported(f"{spec.key} does not build")
            if not exe:
                raise BuildError(f"{spec.key} was not built")
            w = self.workers[spec.key] = Worker(exe, spec)
        return w

    def worker_fresh(self, spec):
        """A separate client of the same executable, not shared with other cases."""
        self.worker(spec)
        w = Worker(self.exe[spec.key], spec)
        self.keep.append(w)
        return w

    @property
    def w(self):
        return self.worker(self.sc.spec)

    def other(self, i=0):
        return self.worker(self.sc.also[i])

    def par(self, spec):
        m = self.mps.get(spec.par)
        if not m:
            m = self.mps[spec.par] = MP(self.model, spec.par)
        return m

    @property
    def mp(self):
        return self.par(self.sc.spec)

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def need(self, cond, msg):
        if not cond:
            raise Violation(msg)

    def eq(self, got, want, what):
        if got == want:
            return
        d = ""
        if isinstance(got, (bytes, bytearray)) and isinstance(want, (bytes, bytearray)):
            k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            d = f"first difference at byte {k} of {len(want)}: got {bytes(got[k:k+8]).hex()} expected {bytes(want[k:k+8]).hex()}"
        else:
            d = f"got {str(got)[:200]} expected {str(want)[:200]}"
        raise Violation(f"{what}: {d}")

    def close(self):
        for w in list(self.workers.values()) + self.keep:
            w.stop()
        self.keep = []
        self.workers = {}
        self.cache = {}


G = {}


def execute(sc, case, env):
    return sc.run(env, case)


def fresh_run(sc, cases):
    """Message of the violation when the cases are run in order by a fresh process, else None."""
    env = Env(G["exe"], G["so"], sc, G["groups"])
    try:
        for c in cases:
            try:
                sc.run(env, c)
            except Violation as v:
                return str(v)
            except Unsupported:
                pass
        return None
    finally:
        env.close()


def job(args):
    si, part, nparts, n, seed = args
    sc = G["scen"][si]
    if STOP.value:
        return None
    t0 = time.time()
    out = dict(scenario=sc.name, spec=str(sc.spec) if sc.spec else None, part=part, evaluations=0, unsupported=0, nontrivial=[], samples=[], labels={}, violation=None, error=None, note=None)
    env = Env(G["exe"], G["so"], sc, G["groups"])
    seen, log, fails = set(), [], {}
    state = dict(t=None, stop=False)

    def one(case):
        k = cid(case)
        if state["t"] and time.time() - state["t"] > SHRINK_S and k not in fails:
            return
        log.append(case)
        if not state["t"]:
            out["evaluations"] += 1
        try:
            r = sc.run(env, case)
            if not state["t"]:
                if r is not False and k not in seen:
                    seen.add(k)
                    if len(out["samples"]) < 2 and len(json.dumps(case)) < 1500:
                        out["samples"].append(dict(scenario=sc.name, variant=str(sc.spec), case=case))
        except Unsupported as u:
            out["unsupported"] += 1
            out["note"] = str(u)
        except Violation as v:
            if not state["t"]:
                state["t"] = time.time() - isinstance(v, Hang) * SHRINK_S      # looking for a smaller hang takes too long
                state["n"] = len(log)
            fails[k] = (case, str(v))
            state["last"] = (case, str(v))
            raise

    try:
        failed = False
        try:
            if part == 0:
                for c in sc.fixed:
                    one(c)
            if n and sc.strategy:
                s = int.from_bytes(hashlib.sha256(f"{seed}/{sc.name}/{sc.spec}/{part}".encode()).digest()[:8], "big")
                f = given(sc.strategy(env))(one)
                f = hypothesis.seed(s)(f)
                f = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False, print_blob=False,
                             suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])(f)
                f()
        except (Violation, Flaky, FlakyFailure):
            failed = True
        if failed or fails:
            out["violation"] = confirm(sc, log, fails, state)
            if not out["violation"]:
                out["note"] = "a failure was seen once and could not be reproduced: " + state["last"][1]
    except BuildError as e:
        out["error"] = str(e)
    except Exception:
        out["error"] = traceback.format_exc()[-3000:]
    finally:
        env.close()
    out["nontrivial"] = sorted(seen)
    out["labels"] = env.labels
    out["wall"] = time.time() - t0
    return out


def confirm(sc, log, fails, state):
    cands = [state["last"][0]] + [c for c, _ in sorted(fails.values(), key=lambda x: len(json.dumps(x[0])))[:3]]
    for c in cands:
        if "does not terminate" in state["last"][1]:
            r = fresh_run(sc, [c])
            if r:
                return dict(cases=[c], what=r)
            continue
        rs = [fresh_run(sc, [c]) for _ in range(3)]
        if sum(r is not None for r in rs) >= 2:
            return dict(cases=[c], what=next(r for r in rs if r))
    hist = log[:state["n"]]                          # depends on what ran before
    if len(hist) > 1:
        if fresh_run(sc, hist) is not None:
            k = 1                                    # shortest failing suffix, by doubling
            while k < len(hist) and fresh_run(sc, hist[-k:]) is None:
                k *= 2
            hist = hist[-k:]
            rs = [fresh_run(sc, hist) for _ in range(3)]
            if sum(r is not None for r in rs) >= 2:
                return dict(cases=hist, what=next(r for r in rs if r) + " (depends on the calls made before)")
    return None


def load(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


def prepare(builder, scen):
    sp = {s.key: s for sc in scen for s in sc.specs()}
    if any(not sc.py for sc in scen):
        so = builder.model()
    else:
        so = None
    builder.build_many(list(sp.values()))
    G.update(exe=builder.exe, so=so, groups=builder.groups, scen=scen)


def main(pid, tier, seed):
    t0 = time.time()
    mod = load(pid)
    scen = [s for s in mod.scenarios(tier) if s.tier in (None, tier)]
    builder = Builder()
    ti = 0 if tier == "quick" else 1
    rc = 0
    try:
        if hasattr(mod, "build"):
            G["extra"] = mod.build(builder)
        prepare(builder, scen)
        opt = {s.key for sc in scen for s in sc.specs() if s.optional}
        miss = [k for k, v in builder.exe.items() if not v and k not in opt]
        if miss:
            print("\n".join(builder.notes), file=sys.stderr)
            print(f"ERROR: cannot build {miss}", file=sys.stderr)
            return 2
        jobs = []
        for i, sc in enumerate(scen):
            np_, n = sc.parts[ti], sc.n[ti]
            for p in range(np_):
                jobs.append((sc.cost, (i, p, np_, max(1, n // np_) if n else 0, seed)))
        jobs.sort(key=lambda j: -j[0])
        res = []
        with mp.get_context("fork").Pool(min(JOBS, len(jobs)), maxtasksperchild=1) as pool:
            it, end = pool.imap_unordered(job, [j for _, j in jobs], chunksize=1), None
            while True:
                try:
                    r = it.next(max(0.1, end - time.time()) if end else None)
                except (StopIteration, mp.TimeoutError):
                    break
                if r is None:
                    continue
                res.append(r)
                if r["violation"] and not end:          # no need to finish the rest
                    STOP.value, end = 1, time.time() + GRACE_S
                if os.environ.get("VERIF_TRACE"):
                    print(f"# {time.time()-t0:6.1f}s {r['scenario']} {r['spec']} part {r['part']}: {r['evaluations']} cases in {r['wall']:.1f}s", r["labels"], r["note"] or "", file=sys.stderr)
        viol = [r for r in res if r["violation"]]
        errs = [r for r in res if r["error"]]
        nt, labels, per = set(), {}, {}
        for r in res:
            nt.update(f"{r['scenario']}/{r['spec']}/{h}" for h in r["nontrivial"])
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            d = per.setdefault(f"{r['scenario']} [{r['spec']}]", [0, 0])
            d[0] += r["evaluations"]
            d[1] += len(r["nontrivial"])
        samples = []
        for r in sorted(res, key=lambda r: (r["scenario"], str(r["spec"]), r["part"])):
            samples += r["samples"][:1]
        step = max(1, len(samples) // 12)
        cov = dict(evaluations=sum(r["evaluations"] for r in res), distinct_nontrivial=len(nt), rule=mod.RULE, samples=samples[::step][:14],
                   per_scenario={k: dict(cases=v[0], nontrivial=v[1]) for k, v in sorted(per.items())}, classes=dict(sorted(labels.items())),
                   unsupported=sum(r["unsupported"] for r in res))
        notes = list(builder.notes) + [f"{r['scenario']}: {r['note']}" for r in res if r["note"]]
        if notes:
            cov["notes"] = notes[:20]
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(viol), assumptions=list(getattr(mod, "ASSUME", [])))
        if getattr(mod, "EXHAUSTIVE", None):
            cov["exhaustive_parts"] = mod.EXHAUSTIVE
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        done = set()
        for r in viol:
            v = r["violation"]
            os.makedirs(f"{VERIF}/replays", exist_ok=True)
            path = f"{VERIF}/replays/{pid}-{cid(v['cases'])}.json"
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, scenario=r["scenario"], spec=r["spec"], what=v["what"], cases=v["cases"]), f, indent=1)
            key = (r["scenario"], r["spec"])
            if key not in done:
                done.add(key)
                print(f"# {r['scenario']} [{r['spec']}]: {v['what']}")
                print(f"VIOLATION property={pid} replay={path}")
            rc = 1
        for l in findings(pid):
            print(l)
        print(f"{pid} {tier}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} non-trivial, {len(viol)} violations, {time.time()-t0:.1f} s")
        if not rc and errs:
            print(errs[0]["error"], file=sys.stderr)
            rc = 2
        if not rc and cov["evaluations"] - cov["unsupported"] == 0:
            print("ERROR: nothing could be checked", file=sys.stderr)
            rc = 2
    finally:
        builder.close()
    return rc


def findings(pid):
    """Lines for recorded, unrepaired defects (none are suppressed in the generators)."""
    out = []
    p = f"{VERIF}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:") and f"property={pid} " in l:
                out.append("KNOWN-FINDING: " + l[len("known:"):].strip())
    return out


def replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    scen = [s for s in mod.scenarios(d.get("tier", "quick")) if s.name == d["scenario"] and (str(s.spec) if s.spec else None) == d["spec"]]
    if not scen:
        print("no such scenario", file=sys.stderr)
        return 2
    builder = Builder()
    try:
        if hasattr(mod, "build"):
            G["extra"] = mod.build(builder)
        prepare(builder, scen[:1])
        r = fresh_run(scen[0], d["cases"])
    finally:
        builder.close()
    if r:
        print("# " + r)
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the recorded case passes")
    return 0

