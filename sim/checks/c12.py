"""C12: a boundary-integral (or global) solve that did not converge is never silent."""
import io, re, sys, warnings
import numpy as np
from .. import core, local_ops as lo, problem as pr, seams, world
from ..core import Violation, sut

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 200, "thorough": 12000}
CASE_TIMEOUT = 240
RULE = ("one simulated run: a random cell (simply or multiply connected) and a small mesh, and a seeded history of solver set-ups, conjugates, Neumann solves, local functions, local spaces, assemblies and "
        "global solves during which the iterative solver stops early (truthfully reporting it) at a seeded pattern of calls and global solves are singular; notices (warning lines, warnings, exceptions) are "
        "counted against reported failures per call, undisturbed calls against a pristine process; counted if at least one solve did not converge and a later one did; distinct event logs")
REAL = ["NystromSolver", "LocalPoissonFunction", "LocalPoissonSpace", "anti-Laplacian (both strategies)", "Solver", "scipy gmres (run for fewer iterations)"]
STUB = ["gmres is told to stop after a few iterations at seeded calls", "spsolve behaves as for a singular matrix at seeded calls", "standard streams are recorded", "default interior grid 7x7"]
ASSUMPTIONS = ["non-convergence means a positive status of an iterative solver of scipy", "a notice is an exception, a Python warning, or an output line that mentions the warning, the convergence or the failure"]
WORDS = re.compile(r"warn|converg|residual|gmres|fail|singular|error", re.I)


def gen_pattern(rng):
    """Which iterative solves stop early: a 0/1 string repeated over the calls of one operation (number of inner iterations allowed)."""
    if rng.random() < .42:
        return [0]
    return [rng.choice([0, 0, 0, 1, 1, 2, 3, 6, 9]) for _ in range(rng.choice([1, 1, 2, 3, 5]))]


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.choice([3, 4, 6, 9])):
        r, s, p = rng.random(), rng.randrange(40), gen_pattern(rng)
        if r < .18: op = ["nyst", rng.choice(["fft", "fft", "direct"]), int(rng.random() < .3), int(rng.random() < .2)]
        elif r < .34: op = ["conj", s]
        elif r < .50: op = ["neumann", s]
        elif r < .76: op = ["fun", s, (pr.poly_terms(rng, 2) if rng.random() < .4 else None), lo.gen_trace(rng), int(rng.random() < .35), int(rng.random() < .2)]
        elif r < .86: op = ["space", rng.choice([1, 1, 2]), int(rng.random() < .4), int(rng.random() < .4)]
        elif r < .92: op = ["assemble", int(rng.random() < .4), int(rng.random() < .3), int(rng.random() < .3)]
        else: op = ["solve", rng.choice(["plain", "singular", "plain", "get"])]
        ops.append(op + [p])
    return dict(spec=lo.cell_spec(rng), q=[rng.choice([4, 6, 8]), rng.choice([3, 5, 7])], ops=ops, strat=rng.choice(["fft", "fft", "direct"]), first=gen_pattern(rng) if rng.random() < .3 else [0],
                mesh=pr.small_spec(rng, two=.2))


class Iterative:
    """Stands in for scipy's iterative solvers; counts solves and reported failures."""

    def __init__(self, orig, st):
        self.orig, self.st = orig, st

    def __call__(self, *a, **kw):
        st = self.st
        p = st["pattern"][st["n"] % len(st["pattern"])]
        st["n"] += 1
        if p:
            kw.update(maxiter=1)
            if "restart" in st["args"][self.orig.__name__]:
                kw.update(restart=p)
        r = self.orig(*a, **kw)
        if isinstance(r, tuple) and len(r) == 2 and int(r[1]) > 0:
            st["failed"] += 1
            if p: st["injected"] += 1
        return r


def solvers():
    import inspect, scipy.sparse.linalg as sl
    fs = [getattr(sl, k) for k in ("gmres", "lgmres", "gcrotmk", "bicg", "bicgstab", "cg", "cgs", "minres", "qmr", "tfqmr") if hasattr(sl, k)]
    return fs, {f.__name__: list(inspect.signature(f).parameters) for f in fs}


def observed(fn, pattern, singular=False):
    """(tag, result, dict(solves, failures, injected, notices))"""
    import scipy.sparse.linalg as sl
    fs, args = solvers()
    st = dict(pattern=pattern, n=0, failed=0, injected=0, args=args, direct=0)

    def bad(*a, **kw):
        st["direct"] += 1
        warnings.warn("Matrix is exactly singular", sl.MatrixRankWarning, stacklevel=2)
        return np.full(np.shape(a[0])[0] if a else np.shape(kw["A"])[0], np.nan)
    pairs = [(f, Iterative(f, st)) for f in fs] + ([(sl.spsolve, bad)] if singular else [])
    out = io.StringIO()
    so, se = sys.stdout, sys.stderr
    tag = "ok"
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        sys.stdout = sys.stderr = out
        try:
            with seams.replaced(pairs):
                r = fn()
        except (RuntimeError, ArithmeticError, np.linalg.LinAlgError, RuntimeWarning, UserWarning, ValueError) as e:
            if not (st["failed"] or st["direct"]):
                raise
            tag, r = "raised", e
        finally:
            sys.stdout, sys.stderr = so, se
    notices = sum(bool(WORDS.search(line)) for line in re.split(r"[\n\r]", out.getvalue()))
    notices += sum(1 for w in ws if not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning, ResourceWarning, RuntimeWarning)) or WORDS.search(str(w.message)))
    return tag, r, dict(solves=st["n"], failed=st["failed"], injected=st["injected"], notices=notices, direct=st["direct"])


class State:
    """One cell with its solver, and one mesh with its linear system."""

    def __init__(self, case):
        pf = world.pf
        self.case = case
        with world.mute():
            m = world.build(case["spec"])
            self.K = m.get_cell(m.cell_idx_list[0])
            self.K.parameterize(pr.quad(case["q"]))
            self.mesh = world.build(case["mesh"])
        self.N, self.S, self.V = None, None, None

    def field(self, s):
        x1, x2 = self.K.get_boundary_points()
        return np.cos((1 + s % 3) * x1) + (s % 7 - 3) * x2 * x1 + np.exp(.3 * (s % 5) * x2)

    def call(self, op):
        pf, K, k = world.pf, self.K, op[0]
        if k == "nyst":
            def go():
                self.N = pf.NystromSolver(K, antilap_strategy=op[1], verbose=bool(op[2]), debug=bool(op[3]))
                return pr.obs_nyst(self.N)
            return go
        if k == "conj":
            return lambda: [np.array(a) for a in self.N.get_harmonic_conjugate(self.field(op[1]))]
        if k == "neumann":
            x = self.field(op[1])
            x = x - K.integrate_over_boundary_preweighted(x) / K.integrate_over_boundary_preweighted(np.ones(K.num_pts))
            return lambda: np.array(self.N.solve_neumann_zero_average(x))
        if k == "fun":
            def go():
                kw = dict(laplacian=pr.poly(op[2])) if op[2] is not None else {}
                f = pf.LocalPoissonFunction(nyst=self.N, trace=lo.make_trace(K, op[3]), evaluate_interior=bool(op[4]), evaluate_gradient=bool(op[5]), **kw)
                return lo.obs_fun(f)
            return go
        if k == "space":
            return lambda: lo.obs_space(pf.LocalPoissonSpace(K, deg=op[1], compute_interior_values=bool(op[2]), verbose=bool(op[3])))
        if k == "assemble":
            def go():
                if self.V is None:
                    self.V = pr.space(self.mesh, 1, self.case["q"], verbose=False)
                b = pf.BilinearForm(diffusion_constant=0.0 if op[3] else 1.5, reaction_constant=0.0, rhs_poly=pr.poly([[1.0, 0, 0], [2.0, 1, 0]]))
                self.S = pf.Solver(self.V, b, verbose=bool(op[1]), compute_interior_values=bool(op[2]))
                return pr.obs_system(self.S)
            return go
        if k == "solve":
            def go():
                x = self.S.get_solution() if op[1] == "get" else (self.S.solve(), self.S.soln)[1]
                return np.array(x)
            return go
        raise AssertionError(op)


def reference(case, prefix):
    """The last operation of `prefix` after the others, everything converging as far as it does by itself."""
    def go():
        st = State(case)
        for op in prefix:
            tag, r, c = observed(st.call(op), [0])
        return r, c
    return core.isolated(go)


def run(case):
    log = core.Log()
    st = State(case)
    refs = {}
    tainted, sys_op, sys_tainted, marked = True, None, True, False
    failures = clean_after = 0

    def ref(prefix):
        k = repr(prefix)
        if k not in refs: refs[k] = reference(case, prefix)
        return refs[k]

    nyst_op = None
    for j, op in enumerate([["nyst", case["strat"], 0, 0, case["first"]]] + case["ops"]):
        k, pattern = op[0], op[-1]
        what = f"op {j} {op}"
        if k in ("conj", "neumann", "fun") and st.N is None:
            continue
        if k == "solve" and st.S is None:
            continue
        prefix = [op] if k in ("nyst", "space", "assemble") else ([nyst_op, op] if k != "solve" else None)
        old = None if k != "solve" or st.S.soln is None else np.array(st.S.soln)
        if k == "nyst":
            st.N = None
        if k == "assemble":
            st.S = None
        with sut(what):
            tag, r, c = observed(st.call(op), pattern if k != "solve" else [0], singular=(k == "solve" and op[1] == "singular"))
        log.ev(j, k, tag, c["solves"], c["failed"])
        if k == "solve":
            if tag == "raised":
                continue
            A, b = pr.arr(st.S.glob_mat), pr.arr(st.S.glob_rhs).ravel()
            ok = np.all(np.isfinite(r)) and np.max(np.abs(A @ r - b), initial=0) <= 1e-6 * (1 + np.max(np.abs(b)) + np.max(np.abs(A)) * np.max(np.abs(r), initial=0))
            known_bad = op[1] == "get" and old is not None and marked
            if not ok and not c["notices"] and not known_bad:
                raise Violation("silent", f"{what}: the linear system was not solved (finite: {bool(np.all(np.isfinite(r)))}) and nothing said so")
            if ok and c["notices"] and not c["direct"]:
                raise Violation("spurious", f"{what}: the linear system was solved, yet {c['notices']} warnings appeared")
            marked = not ok
            if c["direct"]:
                log.fault("singular-matrix"); failures += 1
            elif not ok:
                log.fault("singular-system"); failures += 1
            log.probe("global-solves")
            continue
        base, bc = ref(prefix)
        extra = c["notices"] - max(0, bc["notices"] - bc["failed"])
        if tag != "raised" and extra < c["failed"]:
            raise Violation("silent", f"{what}: {c['failed']} of {c['solves']} iterative solves reported that they did not converge, but only {max(extra, 0)} notices appeared")
        if c["failed"] == 0 and extra > 0:
            raise Violation("spurious", f"{what}: all {c['solves']} iterative solves converged, yet {extra} warnings appeared")
        bad = c["failed"] > 0 or tag == "raised"
        if c["injected"]: log.fault("stopped-early", c["injected"])
        if c["failed"] - c["injected"] > 0: log.probe("did-not-converge-by-itself", c["failed"] - c["injected"])
        failures += bad
        if k == "nyst":
            nyst_op, tainted = op, bad and c["injected"] > 0
        if k == "assemble":
            marked = False
        if not c["injected"] and tag == "ok" and (k in ("space", "assemble", "nyst") or not tainted):
            core.must_equal("later-solve", r, base, 1e-7, what)
            log.probe("compared")
            if failures: clean_after += 1
    log.probe("failures", failures)
    log.probe("clean-after-failure", clean_after)
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("failures", 0) >= 1 and res["probes"].get("clean-after-failure", 0) >= 1


def shrink(case):
    yield from core.shrink_lists(case, ["ops"])
    for k, op in enumerate(case["ops"]):
        if len(op[-1]) > 1:
            for b in op[-1]:
                yield dict(case, ops=case["ops"][:k] + [op[:-1] + [[b]]] + case["ops"][k + 1:])
        elif op[-1] != [0]:
            yield dict(case, ops=case["ops"][:k] + [op[:-1] + [[0]]] + case["ops"][k + 1:])
    if case["first"] != [0]:
        yield dict(case, first=[0])
    for key in ("spec", "mesh"):
        E = case[key]["edges"]
        for k, e in enumerate(E):
            if e["a"] == e["b"] and min(e["pos"], e["neg"]) < 0:
                yield dict(case, **{key: dict(case[key], edges=E[:k] + E[k + 1:])})
