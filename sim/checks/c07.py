"""C07: interrupted or failed space building, assembly, solution and evaluation can be repeated; nothing wrong is left behind silently."""
import numpy as np
from .. import core, faults, problem as pr, seams, world
from ..core import Violation, sut

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 200, "thorough": 4000}
NEED_JIT = True
CASE_TIMEOUT = 240
RULE = ("one simulated run: a random mesh (1-3 cells), one or two function spaces and up to three solvers sharing them, and a seeded history of building spaces, assembling, solving and "
        "evaluating solutions in which calls are interrupted (exception at a seeded library statement) or lose a linear solve; after each fault whatever can be read "
        "must be a correct answer or an error, then the call is repeated and everything compared with the undisturbed problem in a pristine process; "
        "counted if at least one fault hit and a repeated call was compared; distinct event logs")
REAL = ["GlobalFunctionSpace", "Solver", "BilinearForm", "LocalPoissonSpace", "EdgeSpace", "NystromSolver", "local functions", "mesh and polynomial layers", "scipy gmres/spsolve"]
STUB = ["default interior grid 7x7 instead of 33x33", "a linear solver called by the library raises when told to"]
ASSUMPTIONS = ["interrupts and allocation failures arrive at library statements outside except/finally bodies", "values agree to 1e-6 relative"]
TOL = 1e-6


def gen_fault(rng, p=.6):
    if rng.random() > p:
        return None
    if rng.random() < .2:
        return ["solver", rng.random(), rng.choice(["RuntimeError", "MemoryError"])]
    return [rng.choice(["interrupt", "nomem"]), rng.random(), rng.random()]


def gen(rng, i, tier):
    spec = pr.small_spec(rng, two=.6)
    spaces = [[rng.choice([1, 1, 1, 1, 2]), [rng.choice([5, 6, 6]), rng.choice([3, 5])]] for _ in range(rng.choice([1, 1, 2]))]
    forms = [pr.form(rng) for _ in range(2)]
    ops = []
    if rng.random() < .4:
        ops.append(["space", 0, [gen_fault(rng, .9)]])
    ops.append(["solver", 0, 0, int(rng.random() < .5), 0, [gen_fault(rng)] if rng.random() < .7 else []])
    for _ in range(rng.choice([2, 3, 4] if tier == "quick" else [3, 5, 7])):
        r = rng.random()
        fs = [f for f in [gen_fault(rng, .75) for _ in range(rng.choice([1, 1, 2]))] if f]
        s, v, f = rng.randrange(3), rng.randrange(2), rng.randrange(2)
        if r < .1 and len(spaces) > 1: ops.append(["setspace", s, v, f, int(rng.random() < .3), fs if rng.random() < .6 else []])
        elif r < .36: ops.append(["assemble", s, f, int(rng.random() < .4), int(rng.random() < .15), fs])
        elif r < .5: ops.append(["solver", v, f, int(rng.random() < .4), 0, fs])
        elif r < .6: ops.append(["space", v, fs])
        elif r < .7: ops.append(["solve", s, fs])
        elif r < .82: ops.append(["get", s, fs])
        elif r < .92: ops.append(["combo", s, rng.randrange(4), fs])
        else: ops.append(["local", v, rng.randrange(4), int(rng.random() < .3), fs])
    return dict(spec=spec, spaces=spaces, forms=forms, ops=ops)


class Sol:
    def __init__(self, S, asm):
        self.S, self.asm = S, asm


EXC = {"RuntimeError": RuntimeError, "MemoryError": MemoryError}


def disturbed(fn, fault, log):
    """Run fn once under the fault.  Returns ("ok"|"swallowed", result) or ("fault", where)."""
    if fault is None:
        return "ok", fn()
    if fault[0] == "solver":
        orig = seams.linear_solvers()

        def count():
            ks = [seams.Kernel(o) for o in orig]
            tot = []
            for k in ks:
                k.__class__ = _Shared; k.tot = tot
            with seams.replaced(list(zip(orig, ks))):
                fn()
            return len(tot)
        n = core.isolated(count)
        if not n:
            return "ok", fn()
        tot = []
        ks = [_Shared(o, min(int(fault[1] * n), n - 1) + 1, EXC[fault[2]]) for o in orig]
        for k in ks:
            k.tot = tot
        with seams.replaced(list(zip(orig, ks))):
            try:
                r = fn()
            except Exception as e:
                if not any(k.fired for k in ks):
                    raise
                log.fault("failed-linear-solve"); log.ev("fault", "solver", min(int(fault[1] * n), n - 1))
                return "fault", "linear solver"
        return ("swallowed" if any(k.fired for k in ks) else "ok"), r
    at = core.isolated(lambda: faults.choose(faults.dry(fn, hot=True)[1], fault[1], fault[2]))
    if at is None:
        return "ok", fn()
    return faults.interrupted(fn, at, fault[0], log, hot=True)


class _Shared(seams.Kernel):
    """Kernels sharing one call counter."""

    def __call__(self, *a, **kw):
        self.tot.append(1)
        if self.at is not None and len(self.tot) == self.at:
            self.fired = True
            raise self.exc("injected failure of a linear solver")
        return self.orig(*a, **kw)


def run(case):
    log, pf, spec = core.Log(), world.pf, case["spec"]
    with sut("building the mesh"):
        mesh = world.build(spec)
    ids = list(mesh.cell_idx_list)
    V, forms, sols = {}, case["forms"], []
    pr._refs.clear()
    st = dict(hit=0, fresh=None)     # fresh: quadrature with which every cell is sampled at the moment

    def ref(asm):
        v, f, iv, grad = asm
        return pr.ref_problem(spec, case["spaces"][v][0], case["spaces"][v][1], forms[f], bool(iv), bool(grad))

    def get_space(v):
        v %= len(case["spaces"])
        if v not in V:
            st["fresh"] = None
            with sut("GlobalFunctionSpace"):
                V[v] = pr.space(mesh, *case["spaces"][v])
        return v, V[v]

    def check_system(x, what):
        R = ref(x.asm)
        core.must_equal("system", pr.obs_system(x.S), R["system"], TOL, what)
        core.must_equal("space", pr.obs_space(x.S.glob_fun_sp), R["space"], TOL, what)
        core.must_equal("dofs", pr.obs_dofs(x.S.glob_fun_sp), R["dofs"], 0, what)
        pr.check_dofs(x.S.glob_fun_sp, spec, what)

    def check_solution(x, u, what):
        R = ref(x.asm)
        core.must_equal("solution", np.array(u).ravel(), R["soln"], 1e-5, what)
        with sut("get_coef_on_mesh_cell"):
            core.must_equal("coefficients", [np.array(x.S.get_coef_on_mesh_cell(c, u)) for c in ids], R["coef"], 1e-5, what)

    def silent(x, asms, what):
        """After a failed call: whatever the solver hands out must be right for the system before or after the call."""
        try:
            u = np.array(x.S.get_solution()).ravel()
        except Exception:
            log.probe("left-behind-raises")
            return
        log.probe("left-behind-read")
        good = [a for a in asms if core.diff(u, ref(a)["soln"], 1e-5) is None]
        if not good:
            raise Violation("silently-wrong", f"{what}: after the failed call get_solution() returns a vector that is the solution neither of the old nor of the new system: "
                                              f"{core.diff(u, ref(asms[0])['soln'], 1e-5)}")
        for k, c in enumerate(ids):
            try:
                w = np.array(x.S.get_coef_on_mesh_cell(c, u))
            except Exception:
                continue
            if not any(core.diff(w, ref(a)["coef"][k], 1e-5) is None for a in good):
                raise Violation("silently-wrong", f"{what}: after the failed call the coefficients on cell {c} are wrong: {w}")
            try:
                cm = pr.combo(x.S, c, u)
            except Exception:
                continue
            for a in good:
                want = ref((a[0], a[1], 1, 1))["combo"][k]
                if core.diff(cm["t"], want["t"], 1e-5) is None and (cm["v"] is None or core.diff(cm["v"], want["v"], 1e-5) is None):
                    break
            else:
                raise Violation("silently-wrong", f"{what}: after the failed call the solution on cell {c} is wrong")

    def right_or_refused(x, what, asm=None):
        """Given the solution of the current problem, the solver evaluates it on each cell correctly or refuses."""
        a = asm or x.asm
        u = ref(a)["soln"]
        for k, c in enumerate(ids):
            try:
                cm = pr.combo(x.S, c, u)
            except Exception:
                log.probe("left-behind-raises")
                continue
            want = ref((a[0], a[1], 1, 1))["combo"][k]
            d = core.diff(cm["t"], want["t"], 1e-5) or (cm["v"] is not None and core.diff(cm["v"], want["v"], 1e-5)) or None
            if d:
                raise Violation("silently-wrong", f"{what}: the solution on cell {c} is wrong: {d}")
            log.probe("combo-right")

    def attempt(fn, fs, what, after, resamples=True):
        """Run fn under each fault in turn, then (if the last one hit) undisturbed."""
        for f in fs:
            if f is None:
                continue
            with sut(what):
                tag, r = disturbed(fn, f, log)
            if tag != "fault":
                if tag == "swallowed":
                    log.probe("absorbed")
                return r
            st["hit"] += 1
            if resamples:
                st["fresh"] = None
            after(f"{what} after {f[0]} at {r}")
        with sut(what + (" (repeated)" if st["hit"] else "")):
            return fn()

    def others(what):
        for x in sols:
            check_system(x, what)

    for j, op in enumerate(case["ops"]):
        what = f"op {j} {op[:-1]}"
        fs = op[-1]
        if op[0] == "space":
            v = op[1] % len(case["spaces"])
            st["fresh"] = None
            sp = attempt(lambda: pr.space(mesh, *case["spaces"][v]), fs, what, others)
            core.must_equal("space", pr.obs_space(sp), ref((v, 0, 0, 0))["space"], TOL, what)
            if v not in V:
                V[v] = sp
            log.probe("compared")
        elif op[0] == "solver":
            if len(sols) >= 3:
                continue
            v, sp = get_space(op[1]); f = op[2] % len(forms)
            S = attempt(lambda: pf.Solver(sp, pr.bilinear(forms[f]), verbose=False, compute_interior_values=bool(op[3]), compute_interior_gradient=bool(op[4])), fs, what, others)
            x = Sol(S, (v, f, op[3], op[4])); sols.append(x)
            st["fresh"] = case["spaces"][v][1]
            check_system(x, what); log.probe("compared")
        elif op[0] == "assemble" and sols:
            x = sols[op[1] % len(sols)]; f = op[2] % len(forms)
            old = x.asm
            new = (old[0], f, op[3], op[4])
            if f != old[1]:
                x.S.set_bilinear_form(pr.bilinear(forms[f]))

            def after(w):
                for y in sols:
                    if y is not x: check_system(y, w)
                silent(x, [old, new], w)
            attempt(lambda: x.S.assemble(verbose=False, compute_interior_values=bool(op[3]), compute_interior_gradient=bool(op[4])), fs, what, after)
            x.asm = new
            st["fresh"] = case["spaces"][new[0]][1]
            check_system(x, what)
            with sut("get_solution"):
                u = x.S.get_solution()
            check_solution(x, u, what); log.probe("compared")
            right_or_refused(x, what)
        elif op[0] == "setspace" and sols:
            x = sols[op[1] % len(sols)]; f = op[3] % len(forms)
            v, sp = get_space(op[2])
            old, new = x.asm, (v, f, op[4], 0)
            with sut(what):
                x.S.set_bilinear_form(pr.bilinear(forms[f])); x.S.set_global_function_space(sp)

            def after(w):
                for y in sols:
                    if y is not x: check_system(y, w)
                right_or_refused(x, w, new)
                try:
                    u = np.array(x.S.get_solution()).ravel()
                except Exception:
                    return
                if all(core.diff(u, ref(a)["soln"], 1e-5) is not None for a in (old, new)):
                    raise Violation("silently-wrong", f"{w}: get_solution() returns a vector that is the solution neither of the old nor of the new system")
            attempt(lambda: x.S.assemble(verbose=False, compute_interior_values=bool(op[4])), fs, what, after)
            x.asm = new
            st["fresh"] = case["spaces"][v][1]
            check_system(x, what)
            right_or_refused(x, what); log.probe("compared")
        elif op[0] in ("solve", "get") and sols:
            x = sols[op[1] % len(sols)]
            def fn():
                if op[0] == "get": return x.S.get_solution()
                x.S.solve(); return x.S.soln
            u = attempt(fn, fs, what, lambda w: (others(w), silent(x, [x.asm], w)), resamples=False)
            check_solution(x, u, what); log.probe("compared")
        elif op[0] == "combo" and sols:
            x = sols[op[1] % len(sols)]; k = op[2] % len(ids)
            if not x.asm[2] or st["fresh"] != case["spaces"][x.asm[0]][1]:
                continue
            with sut("get_solution"):
                u = np.array(x.S.get_solution())
            got = attempt(lambda: pr.combo(x.S, ids[k], u), fs, what, others, resamples=False)
            want = ref(x.asm)["combo"][k]
            core.must_equal("combo", got, want, 1e-5, what); log.probe("compared")
        elif op[0] == "local":
            v, sp = get_space(op[1]); c = ids[op[2] % len(ids)]
            L = attempt(lambda: sp.build_local_function_space(c, verbose=False, compute_interior_values=bool(op[3]), compute_interior_gradient=False), fs, what, others)
            if st["fresh"] != case["spaces"][v][1]:
                st["fresh"] = None
            from .c06 import ref_local
            core.must_equal("local-space", pr.obs_local_space(L), ref_local(case, v, c, op[3]), TOL, what); log.probe("compared")
        log.ev(j, op[0])
    for x in sols:
        check_system(x, "final")
        with sut("get_solution"):
            u = x.S.get_solution()
        check_solution(x, u, "final")
        log.ev(core.digest(np.round(np.array(u), 7)))
    log.probe("faults-hit", st["hit"])
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("faults-hit", 0) >= 1 and res["probes"].get("compared", 0) >= 1


def shrink(case):
    yield from core.shrink_lists(case, ["ops"])
    for k, op in enumerate(case["ops"]):
        for q in range(len(op[-1])):
            yield dict(case, ops=case["ops"][:k] + [op[:-1] + [op[-1][:q] + op[-1][q + 1:]]] + case["ops"][k + 1:])
    E = case["spec"]["edges"]
    for k, e in enumerate(E):
        if e["a"] == e["b"] and min(e["pos"], e["neg"]) < 0:
            yield dict(case, spec=dict(case["spec"], edges=E[:k] + E[k + 1:]))
