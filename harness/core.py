"""Shared machinery: run the Quint specification, read its ITF behaviours, replay
them into the code under /repo, compare projected states, report."""
import atexit, concurrent.futures, glob, json, math, os, shutil, signal, subprocess, sys, tempfile, time, traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TMP = tempfile.mkdtemp(prefix="vchk")
atexit.register(shutil.rmtree, TMP, True)
os.environ.setdefault("MPLCONFIGDIR", os.path.join(TMP, "mpl"))
os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(TMP, "pyc")     # never trust a stale .pyc
sys.path.insert(0, REPO)
THOROUGH = TIER == "thorough"


class SpecError(Exception):
    """The specification or its toolchain failed: a machinery error, not a verdict."""


# ---------------------------------------------------------------- ITF reading
def unitf(v):
    if isinstance(v, dict):
        if "#bigint" in v: return int(v["#bigint"])
        if "#tup" in v: return tuple(unitf(x) for x in v["#tup"])
        if "#set" in v: return [unitf(x) for x in v["#set"]]
        if "#map" in v: return {_key(unitf(k)): unitf(x) for k, x in v["#map"]}
        if set(v) == {"tag", "value"}: return (v["tag"], unitf(v["value"]))
        return {k: unitf(x) for k, x in v.items() if k != "#meta"}
    if isinstance(v, list): return [unitf(x) for x in v]
    return v


def _key(k): return tuple(k) if isinstance(k, list) else k


def _quint(args, outdir, tag, timeout):
    env = dict(os.environ); env.pop("NODE_OPTIONS", None)
    env["NODE_OPTIONS"] = "--max-old-space-size=3500"
    p = subprocess.run(["quint", *args], cwd=SPEC, capture_output=True, text=True, timeout=timeout, env=env)
    return p


def behaviours(specfile, main, steps, samples, invs=(), init="init", step="step", jobs=None, seed=None,
               timeout=800, stats=None):
    """Random behaviours of the specification (every state checked against `invs`).
    Deterministic in VERIF_SEED.  Returns a list of behaviours (lists of states)."""
    jobs = jobs or min(8, os.cpu_count() or 4, samples)
    base = (SEED if seed is None else seed) * 1000003
    per = [samples // jobs + (1 if i < samples % jobs else 0) for i in range(jobs)]

    def one(i):
        if per[i] == 0: return []
        d = os.path.join(TMP, f"{main}_{step}_{i}_{time.monotonic_ns()}"); os.makedirs(d)
        args = ["run", specfile, "--main", main, "--init", init, "--step", step, "--max-steps", str(steps),
                "--max-samples", str(per[i]), "--n-traces", str(per[i]), "--seed", str(base + i),
                "--out-itf", os.path.join(d, "t_{seq}.itf.json"), "--verbosity", "1"]
        if invs: args += ["--invariants", *invs]
        p = _quint(args, d, main, timeout)
        if p.returncode != 0:
            raise SpecError(f"quint {' '.join(args)}\n{p.stdout[-3000:]}\n{p.stderr[-3000:]}")
        out = []
        for f in sorted(glob.glob(os.path.join(d, "t_*.itf.json")), key=lambda s: int(s.rsplit("_", 1)[1].split(".")[0])):
            with open(f) as fh: out.append([unitf(s) for s in json.load(fh)["states"]])
        shutil.rmtree(d, True)
        return out
    t0 = time.time()
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        res = [b for part in ex.map(one, range(jobs)) for b in part]
    if len(res) == 0: raise SpecError(f"{main}: no behaviours")
    if stats is not None: stats.spec(f"{specfile}:{main}/{step}", res, list(invs), time.time() - t0)
    return res


# ---------------------------------------------------------------- verdicts
class Known:
    def __init__(self):
        p = os.path.join(VERIF, "known_findings.json")
        self.items = json.load(open(p))["findings"] if os.path.exists(p) else []

    def match(self, pid, key):
        for k in self.items:
            if k.get("property") == pid and k.get("key") == key: return k
        return None


def dress(x, k):
    """the same numbers laid out differently in memory: the specification's tables have no layout"""
    import numpy as np
    if type(x) is not np.ndarray or x.ndim not in (1, 2) or x.size < 2 or x.dtype.kind not in "fc" or k % 4 == 0: return x
    if k % 4 == 1: return np.asfortranarray(x) if x.ndim == 2 else np.repeat(x, 3)[::3]
    if k % 4 == 2:
        y = np.full(tuple(2 * n + 1 for n in x.shape), 0.123, x.dtype); v = y[(slice(1, None, 2),) * x.ndim]
    else:
        y = np.zeros(x.shape, x.dtype); v = y[(slice(None, None, -1),) * x.ndim]
    v[...] = x
    return v


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.comparisons = self.calls = 0
        self.labels = {}
        self.samples, self.specs, self.failures, self.knowns = [], [], [], {}
        self.known = Known()
        self.assumptions = []
        self.extra = {}
        self.ctx = None

    # --- bookkeeping
    def spec(self, name, behs, invs, wall):
        st = sum(len(b) for b in behs)
        self.states += st; self.transitions += st - len(behs)
        acts = {}
        for b in behs:
            for s in b:
                op = s.get("op")
                n = op.get("name") if isinstance(op, dict) else None
                if n: acts[n] = acts.get(n, 0) + 1
        self.specs.append({"spec": name, "behaviours": len(behs), "states": st, "invariants": invs,
                           "actions_taken": acts, "wall_s": round(wall, 2)})

    def sample(self, x):
        if len(self.samples) < 4: self.samples.append(x)

    def at(self, **ctx): self.ctx = ctx

    def fail(self, label, key=None, **info):
        key = key or label
        k = self.known.match(self.pid, key)
        if k:
            self.knowns[key] = k["what"]; return
        if len(self.failures) < 200:
            self.failures.append({"label": label, "key": key, "where": self.ctx, **info})

    def ok(self, label, cond, key=None, **info):
        self.comparisons += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond: self.fail(label, key, **info)
        return bool(cond)

    def close(self, label, got, want, tol, key=None, **info):
        """|got - want| <= tol elementwise (tol scalar or array); shape and finiteness included."""
        import numpy as np
        self.comparisons += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        try:
            g = np.asarray(got, dtype=complex); w = np.asarray(want, dtype=complex)
        except Exception as e:
            self.fail(label, key, got=repr(got)[:500], why=f"not numeric: {e}", **info); return False
        if g.shape != w.shape:
            self.fail(label, key, why=f"shape {g.shape} instead of {w.shape}", **info); return False
        t = np.broadcast_to(np.asarray(tol, dtype=float), w.shape)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(g - w) <= t + 1e-290)     # below: denormals
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0]) if g.ndim else ()
            self.fail(label, key, index=i, got=str(g[i]), want=str(w[i]), tol=float(t[i]), nbad=int(bad.sum()), **info)
            return False
        return True

    def call(self, label, f, *a, **kw):
        """Call the code under test; an exception is a violation.  Returns (ok, value)."""
        import contextlib, io
        key = kw.pop("_key", None)
        self.calls += 1
        given, a = a, [dress(x, self.calls + i) for i, x in enumerate(a)]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = f(*a, **kw)
            for x, y in zip(given, a):
                if x is not y and x.flags.writeable: x[...] = y      # a write to an argument is a write to the caller's array
            return True, r
        except (SystemExit, KeyboardInterrupt): raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.comparisons += 1
            self.labels[label] = self.labels.get(label, 0) + 1
            self.fail(label, key, why=f"raised {type(e).__name__}: {e}", at=f"{tb[-1].filename}:{tb[-1].lineno}")
            return False, None

    # --- end of run
    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or [{"note": "no sample recorded"}], "comparisons": self.comparisons,
               "comparisons_by_clause": self.labels, "spec_runs": self.specs}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.failures)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        for k, w in self.knowns.items(): print(f"KNOWN-FINDING: property={self.pid} {w}")
        if self.failures:
            d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": SEED, "tier": TIER, "failures": self.failures}, f, indent=1, default=str)
            shown = set()
            for x in self.failures:
                if x["label"] in shown: continue
                shown.add(x["label"])
                print("  clause:", json.dumps(x, default=str)[:700])
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"{self.pid}: held ({self.traces} behaviours, {self.states} states, {self.comparisons} comparisons, "
              f"{time.time() - self.t0:.1f}s)")
        if self.traces == 0 or self.comparisons == 0: raise SpecError("vacuous run")
        return 0


def watchdog(chk, seconds):
    """If the code under test never returns, that is a violation, not a missing answer."""
    def fire(sig, frame):
        chk.fail("code under test did not finish", seconds=seconds)
        os.write(1, b""); rc = chk.finish(); sys.stdout.flush(); os._exit(rc)
    signal.signal(signal.SIGALRM, fire); signal.alarm(seconds)


G = 6.67428e-11
