"""Simulator core: seeded cases, isolated runs, minimisation, replay files, evidence.

One integer (VERIF_SEED) decides everything: case i of property P is generated by Random(f"{seed}/{P}/{i}") and
executing a case is a pure function of the case and the code under test.  Every simulated run happens in its own
forked process, so no run sees state another one left behind; reference results come from further pristine forks.
"""
from __future__ import annotations
import faulthandler, hashlib, io, json, os, pickle, random, resource, select, signal, struct, subprocess, sys, time, traceback

_monotonic = time.monotonic      # the simulated clock never drives the simulator itself
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "puncturedfem") + os.sep
PYTHON = "/opt/venv/bin/python"


class Violation(Exception):
    """The property is broken: `kind` classifies (stable across shrinking), `detail` explains."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, str(detail)[:2000]


class HarnessError(Exception):
    """The simulator itself is at fault; never reported as a violation."""


class StepBudget(BaseException):
    """Injected when a call exceeds its bound of executed library statements (bounded liveness)."""


# ---------------------------------------------------------------- isolated execution

def _child_setup(mem_gb):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    sys.settrace(None)
    if mem_gb:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        except (ValueError, OSError):
            pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _spawn(fn, args, mem_gb=6):
    sys.stdout.flush(); sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 0
    try:
        os.close(r)
        _child_setup(mem_gb)
        try:
            res = ("ok", fn(*args))
        except Violation as v:
            res = ("viol", (v.kind, v.detail, getattr(v, "extra", None)))
        except BaseException as e:  # noqa: BLE001
            sys.settrace(None)
            res = ("err", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3500:])
        sys.settrace(None)
        data = pickle.dumps(res)
        with os.fdopen(w, "wb") as f:
            f.write(data)
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def _finish(pid, data, status, timed_out):
    if timed_out:
        return ("timeout", "wall-clock limit")
    try:
        return pickle.loads(data)
    except Exception:
        return ("err", f"run died without an answer, wait status {status}, {len(data)} bytes")


def isolated(fn, *args, timeout=240, mem_gb=6):
    """Run fn(*args) in a forked child with pristine library state and return its (pickled) result."""
    pid, r = _spawn(fn, args, mem_gb)
    buf, deadline, out = bytearray(), _monotonic() + timeout, False
    while True:
        left = deadline - _monotonic()
        if left <= 0:
            out = True; os.kill(pid, signal.SIGKILL); break
        if select.select([r], [], [], min(left, 5))[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    tag, val = _finish(pid, bytes(buf), st, out)
    if tag == "ok":
        return val
    if tag == "viol":
        v = Violation(val[0], val[1]); v.extra = val[2]
        raise v
    raise HarnessError(f"isolated run: {tag}: {val}")


def run_many(fn, cases, workers, timeout, deadline=None, stop_on=None):
    """Run fn(case) for each case in its own process; yields (index, tag, value) in completion order."""
    active, nxt, stop = {}, 0, False
    while active or (nxt < len(cases) and not stop):
        if deadline and _monotonic() > deadline:
            stop = True
        while nxt < len(cases) and len(active) < workers and not stop:
            pid, r = _spawn(fn, (cases[nxt],))
            active[r] = [pid, nxt, bytearray(), _monotonic() + timeout]
            nxt += 1
        if not active:
            break
        ready, _, _ = select.select(list(active), [], [], 1.0)
        now = _monotonic()
        done = []
        for r in ready:
            b = os.read(r, 1 << 20)
            if b:
                active[r][2] += b
            else:
                done.append((r, False))
        for r, a in active.items():
            if now > a[3] and not any(r == d[0] for d in done):
                os.kill(a[0], signal.SIGKILL)
                done.append((r, True))
        for r, to in done:
            pid, i, buf, _ = active.pop(r)
            os.close(r)
            _, st = os.waitpid(pid, 0)
            tag, val = _finish(pid, bytes(buf), st, to)
            yield i, tag, val
            if stop_on and stop_on(i, tag, val):
                stop = True


# ---------------------------------------------------------------- comparing results

def np_():
    import numpy
    return numpy


def digest(obj):
    """Bitwise digest of nested results (event log entries)."""
    h = hashlib.sha256()

    def put(o):
        np = np_()
        if isinstance(o, np.ndarray):
            h.update(str((o.dtype, o.shape)).encode()); h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode()); put(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"[");
            for x in o: put(x)
            h.update(b"]")
        elif isinstance(o, (float, np.floating)):
            h.update(struct.pack("<d", float(o)))
        else:
            h.update(repr(o).encode())
    put(obj)
    return h.hexdigest()[:16]


UNSET = "<not computed yet>"        # agrees with anything: when a derived quantity is computed is nobody's business


def diff(a, b, tol=1e-8, path="result"):
    """First difference between two nested results, or None.  Numeric tolerance is relative to the array's scale."""
    np = np_()
    if any(isinstance(z, str) and z == UNSET for z in (a, b)):
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(map(str, set(a) ^ set(b)))[:6]} differ"
        for k in a:
            d = diff(a[k], b[k], tol, f"{path}.{k}")
            if d: return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, f"{path}[{i}]")
            if d: return d
        return None
    num = (int, float, np.number, np.ndarray, np.bool_)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return f"{path}: shape {x.shape} vs {y.shape}"
        if x.size == 0:
            return None
        if x.dtype.kind in "biu" and y.dtype.kind in "biu":
            if not np.array_equal(x, y):
                return f"{path}: {x.ravel()[:6]} vs {y.ravel()[:6]}"
            return None
        x, y = x.astype(float), y.astype(float)
        if not np.array_equal(np.isfinite(x), np.isfinite(y)) or not np.array_equal(np.isnan(x), np.isnan(y)):
            return f"{path}: non-finite entries differ ({np.sum(~np.isfinite(x))} vs {np.sum(~np.isfinite(y))})"
        m = np.isfinite(x)
        if not m.any(): return None
        scale = max(1e-3, float(np.max(np.abs(y[m]))), float(np.max(np.abs(x[m]))))
        e = float(np.max(np.abs(x[m] - y[m])))
        if e > tol * scale:
            k = int(np.argmax(np.where(m, np.abs(np.where(m, x, 0) - np.where(m, y, 0)), 0)))
            return f"{path}: differs by {e:.3e} (scale {scale:.3e}) at flat index {k}: {x.ravel()[k]!r} vs {y.ravel()[k]!r}"
        return None
    if type(a) is not type(b) and not (isinstance(a, str) and isinstance(b, str)):
        return f"{path}: {type(a).__name__} {a!r:.80} vs {type(b).__name__} {b!r:.80}"
    return None if a == b else f"{path}: {a!r:.120} vs {b!r:.120}"


def must_equal(kind, got, want, tol=1e-8, what=""):
    d = diff(got, want, tol)
    if d:
        raise Violation(kind, f"{what} {d}")


class sut:
    """Context manager around calls into the code under test: unexpected exceptions become violations."""

    def __init__(self, what, allow=()):
        self.what, self.allow = what, allow

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is None or issubclass(t, (Violation, HarnessError)) or (self.allow and issubclass(t, tuple(self.allow))):
            return False
        if issubclass(t, StepBudget):
            raise Violation("no-progress", f"{self.what}: exceeded its bound of executed statements") from None
        if issubclass(t, (Exception, KeyboardInterrupt)):
            fr = traceback.extract_tb(tb)
            where = [f"{os.path.relpath(f.filename, REPO)}:{f.name}" for f in fr if f.filename.startswith(PKG)][-3:]
            raise Violation("unexpected-exception", f"{self.what}: {t.__name__}: {e} in {where}") from None
        return False


# ---------------------------------------------------------------- per-run log

class Log:
    """Recorded history of one simulated run; never draws randomness, never reads a clock."""

    def __init__(self):
        self.events, self.faults, self.probes, self.steps = [], {}, {}, 0
        self.threads_switches = 0
        self.sim_time = 0.0

    def ev(self, *a):
        self.events.append(a)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def result(self, **kw):
        d = dict(digest=digest([list(map(str, e)) for e in self.events]), n_events=len(self.events), faults=self.faults,
                 probes=self.probes, steps=self.steps, switches=self.threads_switches, sim_time=self.sim_time)
        d.update(kw)
        return d


# ---------------------------------------------------------------- known findings

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def match_known(mod, kind, detail, case):
    """A violation is suppressed only if it is one of the listed findings, as recognised by the check's own matcher."""
    for f in known_findings():
        if f["property"] == mod.ID and f.get("status") == "known":
            m = getattr(mod, "matches_finding", None)
            if m and m(f, kind, detail, case):
                return f
    return None


# ---------------------------------------------------------------- minimisation

def _attempt(mod, case, timeout):
    """Run one candidate; returns (kind, detail) if it violates, else None."""
    try:
        isolated(mod.run, case, timeout=timeout)
    except Violation as v:
        return v.kind, v.detail
    except HarnessError:
        return None
    return None


def shrink_lists(case, keys):
    """Generic candidates: drop chunks of the lists under `keys`."""
    for key in keys:
        xs = case.get(key)
        if not isinstance(xs, list) or len(xs) < 1:
            continue
        n = len(xs)
        size = max(1, n // 2)
        while size >= 1:
            for i in range(0, n, size):
                c = dict(case); c[key] = xs[:i] + xs[i + size:]
                yield c
            size //= 2


def minimise(mod, case, kind, detail, budget_s=60, timeout=120):
    t_end = _monotonic() + budget_s
    best, best_d, tried, improved = case, detail, 0, True
    while improved and _monotonic() < t_end:
        improved = False
        for cand in mod.shrink(best):
            if _monotonic() > t_end:
                break
            tried += 1
            r = _attempt(mod, cand, timeout)
            if r and r[0] == kind and not match_known(mod, r[0], r[1], cand):
                best, best_d, improved = cand, r[1], True
                break
    return best, best_d, tried


# ---------------------------------------------------------------- driver

def load(pid):
    import importlib
    sys.path.insert(0, VERIF)
    return importlib.import_module(f"sim.checks.{pid.lower()}")


def prepare(mod, nested=False):
    """nested: in an interpreter started by a check rather than in the simulator itself."""
    from . import world
    mod.NESTED = nested
    world.prepare(need_jit=getattr(mod, "NEED_JIT", True), knobs=getattr(mod, "KNOBS", True))
    if hasattr(mod, "prepare"):
        mod.prepare()


def main(pid, argv):
    t0 = _monotonic()
    mod = load(pid)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--replay" in argv:
        return replay(mod, argv[argv.index("--replay") + 1])
    print(f"{pid}: seed={seed} tier={tier} repo={REPO}", flush=True)
    prepare(mod)
    n = int(os.environ.get("VERIF_RUNS") or mod.RUNS[tier])
    workers = int(os.environ.get("VERIF_WORKERS") or min(8, os.cpu_count() or 1))
    timeout = getattr(mod, "CASE_TIMEOUT", 300)
    budget = {"quick": 420, "thorough": 5400}[tier]
    cases = []
    for i in range(n):
        c = mod.gen(random.Random(f"{seed}/{pid}/{i}"), i, tier)
        c["_i"] = i
        cases.append(c)
    rerun = list(range(0, n, max(1, n // 6)))[:6]
    allc = cases + [dict(cases[i], _rerun=True) for i in rerun]
    results, viols, errs = {}, [], []
    known_hits = {}

    def stop_on(i, tag, val):
        return False

    got_viol_at = [None]
    deadline = _monotonic() + budget
    for i, tag, val in run_many(mod.run, allc, workers, timeout, deadline,
                                stop_on=lambda i, tag, val: len(viols) >= 3 or len(errs) >= 4):
        if tag == "ok":
            results[i] = val
        elif tag == "viol":
            f = match_known(mod, val[0], val[1], allc[i])
            if f:
                known_hits.setdefault(f["id"], []).append((i, val[1]))
                results[i] = dict(digest="known:" + f["id"], n_events=0, faults={}, probes={}, steps=0, switches=0, sim_time=0.0)
            else:
                viols.append((i, val[0], val[1]))
        else:
            errs.append((i, tag, val))
    # violations first: a harness error elsewhere must not hide them
    if viols:
        i, kind, detail = min(viols)
        case = {k: v for k, v in allc[i].items() if k != "_rerun"}
        small, d, tried = minimise(mod, case, kind, detail, budget_s=float(os.environ.get("VERIF_SHRINK_S", "75")), timeout=timeout)
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replays", f"{pid}-{seed}-{i}.json")
        json.dump(dict(property=pid, seed=seed, tier=tier, case_index=i, kind=kind, detail=d, case=small,
                       minimised_from=_size(case), minimised_to=_size(small), candidates_tried=tried), open(path, "w"), indent=1, default=str)
        ok = subprocess.run([PYTHON, "-m", "sim", pid, "--replay", path], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_QUIET="1"))
        print(f"{pid}: {kind}: {d}")
        print(f"{pid}: minimised {_size(case)} -> {_size(small)} ({tried} candidates); fresh-process replay exit={ok.returncode}")
        _evidence(mod, seed, tier, cases, results, t0, len(viols), known_hits, rerun, errs)
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if errs:
        for i, tag, val in errs[:3]:
            print(f"{pid}: harness error in case {i}: {tag}: {val}", file=sys.stderr)
        return 2
    done = [i for i in range(n) if i in results]
    if len(done) < max(1, n // 4):
        print(f"{pid}: only {len(done)} of {n} runs finished in the wall budget", file=sys.stderr)
        return 2
    _evidence(mod, seed, tier, cases, results, t0, 0, known_hits, rerun, errs)
    if os.environ.get("VERIF_DIGESTS"):
        json.dump({str(i): results[i]["digest"] for i in done}, open(os.environ["VERIF_DIGESTS"], "w"))
    for f in known_findings():
        if f["property"] == pid and f.get("status") == "known":
            hits = known_hits.get(f["id"], [])
            print(f"KNOWN-FINDING: property={pid} {f['what']} (seen in {len(hits)} runs)")
    print(f"{pid}: held on {len(done)} simulated runs in {_monotonic() - t0:.1f}s", flush=True)
    return 0


def _size(case):
    return {k: len(v) for k, v in case.items() if isinstance(v, list)}


def replay(mod, path):
    rec = json.load(open(path))
    prepare(mod)
    case = rec["case"]
    try:
        out = isolated(mod.run, case, timeout=600)
    except Violation as v:
        print(f"{mod.ID}: {v.kind}: {v.detail}")
        if not os.environ.get("VERIF_QUIET"):
            print(json.dumps(case, indent=1, default=str))
        f = match_known(mod, v.kind, v.detail, case)
        if f:
            print(f"KNOWN-FINDING: property={mod.ID} {f['what']}")
            return 0
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    print(f"{mod.ID}: replay held (digest {out.get('digest')})")
    return 0


def _evidence(mod, seed, tier, cases, results, t0, nviol, known_hits, rerun, errs):
    n = len(cases)
    done = [i for i in range(n) if i in results]
    faults, probes = {}, {}
    for i in done:
        for k, v in results[i]["faults"].items(): faults[k] = faults.get(k, 0) + v
        for k, v in results[i]["probes"].items(): probes[k] = probes.get(k, 0) + v
    nontriv = {results[i]["digest"] for i in done if mod.nontrivial(cases[i], results[i])}
    mism = [i for j, i in enumerate(rerun) if n + j in results and i in results and results[n + j]["digest"] != results[i]["digest"]]
    reruns = sum(1 for j in range(len(rerun)) if n + j in results)
    if mism:
        print(f"{mod.ID}: note: {len(mism)} of {reruns} re-executed runs had a different event log: {mism}", file=sys.stderr)
    wall = _monotonic() - t0
    samples = []
    for i in done[:2] + done[-1:]:
        samples.append({"case": json.loads(json.dumps({k: v for k, v in cases[i].items()}, default=str)),
                        "log_digest": results[i]["digest"], "events": results[i]["n_events"], "faults_fired": results[i]["faults"]})
    ev = dict(property=mod.ID, tier=tier, seed=seed, level=mod.LEVEL, wall_s=round(wall, 2), violations=nviol,
              assumptions=list(mod.ASSUMPTIONS),
              coverage=dict(
                  evaluations=len(done), distinct_nontrivial=len(nontriv), rule=mod.RULE, samples=samples,
                  simulated_runs=len(done), runs_per_hour=round(len(done) / wall * 3600), seeds_per_hour=round(len(done) / wall * 3600),
                  seeds=f"Random('{seed}/{mod.ID}/i') for i in 0..{n - 1}",
                  statements_executed_under_simulation=sum(results[i]["steps"] for i in done),
                  simulated_seconds=round(sum(results[i]["sim_time"] for i in done), 3),
                  simulated_time_note=getattr(mod, "TIME_NOTE", "the code under this property reads no clock; progress is counted in executed library statements"),
                  thread_switches=sum(results[i]["switches"] for i in done),
                  faults_fired=faults, probes=probes,
                  distinct_interleavings_or_states=len({results[i]["digest"] for i in done}),
                  distinct_measure="distinct digests of the recorded event log (operations, fault points, results)",
                  determinism=dict(reexecuted=reruns, different_event_log=len(mism)),
                  known_findings={k: len(v) for k, v in known_hits.items()},
                  components=dict(real=mod.REAL, stub=mod.STUB)))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{mod.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
