"""C06: systems, solutions and degrees of freedom depend on the problem only, not on the assembly history."""
import numpy as np
from .. import core, problem as pr, world
from ..core import Violation, sut

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 220, "thorough": 3000}
NEED_JIT = True
RULE = ("one simulated run: a random mesh (1-3 cells), one or two function spaces and up to three solvers sharing them, and a seeded history of assembling, "
        "re-assembling with other coefficients/options, solving, reading solutions, building local spaces and re-sampling cells; after each step systems, "
        "numbering and solutions are compared with the same problem in a pristine process and with algebraic invariants; counted if a system or "
        "solution was compared after at least one other assembly on the same objects; distinct event logs")
REAL = ["GlobalFunctionSpace", "Solver", "BilinearForm", "GlobalKey", "LocalPoissonSpace", "EdgeSpace", "NystromSolver", "mesh and polynomial layers", "scipy gmres/spsolve"]
STUB = ["default interior grid 7x7 instead of 33x33"]
ASSUMPTIONS = ["values agree to 1e-6 relative (iterative solver tolerance 1e-12, conditioning of small systems)"]
TOL = 1e-6
CASE_TIMEOUT = 240


def gen(rng, i, tier):
    spec = pr.small_spec(rng)
    spaces = [[rng.choice([1, 1, 1, 2]), [rng.choice([5, 6, 6, 8]), rng.choice([2, 3, 5])]] for _ in range(rng.choice([1, 1, 2]))]
    if len(spaces) > 1 and rng.random() < .5:
        spaces[1][1] = spaces[0][1]
    forms = [pr.form(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = [["solver", 0, 0, int(rng.random() < .5), 0]]
    for _ in range(rng.choice([2, 3, 4, 6] if tier == "quick" else [3, 5, 8, 12])):
        r = rng.random()
        s, v, f = rng.randrange(3), rng.randrange(2), rng.randrange(3)
        if r < .2: ops.append(["solver", v, f, int(rng.random() < .4), int(rng.random() < .2)])
        elif r < .36: ops.append(["assemble", s, int(rng.random() < .4), int(rng.random() < .2)])
        elif r < .44: ops.append(["setform", s, f])
        elif r < .52: ops += [["mutform", s, f], ["assemble", s, int(rng.random() < .4), 0]]
        elif r < .62: ops.append(["solve", s])
        elif r < .74: ops.append(["get", s])
        elif r < .79: ops.append(["setspace", s, v])
        elif r < .88: ops.append(["local", v, rng.randrange(4), int(rng.random() < .3)])
        elif r < .92: ops.append(["cell", rng.randrange(4), v])
        elif r < .95: ops.append(["espaces", v])
        else: ops.append(["bad", s, rng.choice(["space", "form", "cell"])])
    if len(spaces) > 1 and rng.random() < .5:      # a solver moves to a space another solver has worked with
        if rng.random() < .6:
            spaces[1] = [3 - spaces[0][0] if spaces[0][0] < 3 else 1, spaces[0][1]]
        ops[0][3] = 1
        ops[1:1] = [["solver", 1, rng.randrange(3), 0, 0], ["setspace", 0, 1]]
    ops.append(["get", rng.randrange(3)])
    return dict(spec=spec, spaces=spaces, forms=forms, ops=ops)


class Sol:
    """Bookkeeping of what a solver should currently contain."""
    def __init__(self, S, v, form, iv, grad):
        self.S, self.v, self.form, self.asm = S, v, form, (v, form["f"], iv, grad)


def run(case):
    log, pf, spec = core.Log(), world.pf, case["spec"]
    with sut("building the mesh"):
        mesh = world.build(spec)
    ids = list(mesh.cell_idx_list)
    V, forms = {}, case["forms"]
    sols, assemblies = [], 0
    F = {}

    def get_form(f):
        """A form object, shared by all solvers that ask for this problem; "mutform" changes it in place."""
        f %= len(forms)
        if f not in F or F[f]["f"] != f:
            F[f] = dict(f=f, obj=pr.bilinear(forms[f]))
        return F[f]
    pr._refs.clear()

    def get_space(v):
        v %= len(case["spaces"])
        if v not in V:
            with sut("GlobalFunctionSpace"):
                V[v] = pr.space(mesh, *case["spaces"][v])
        return v, V[v]

    def ref(asm):
        v, f, iv, grad = asm
        return pr.ref_problem(spec, case["spaces"][v][0], case["spaces"][v][1], forms[f], bool(iv), bool(grad))

    def check_system(x, what):
        R = ref(x.asm)
        with sut("printing"): str(x.S)
        core.must_equal("system", pr.obs_system(x.S), R["system"], TOL, what)
        core.must_equal("space", pr.obs_space(V[x.asm[0]]), R["space"], TOL, what)
        pr.check_dofs(V[x.asm[0]], spec, what)
        core.must_equal("dofs", pr.obs_dofs(V[x.asm[0]]), R["dofs"], 0, what)
        log.probe("systems-compared")
        if assemblies > 1: log.probe("compared-after-history")
        log.ev(what, core.digest(np.round(pr.arr(x.S.glob_mat), 7)))

    def check_solution(x, got, what):
        R = ref(x.asm)
        core.must_equal("solution", np.array(got).ravel(), R["soln"], 1e-5, what)
        with sut("get_coef_on_mesh_cell"):
            coefs = [np.array(x.S.get_coef_on_mesh_cell(c, got)) for c in ids]
            # a vector of the caller's own, changed in place, and an answer he writes into
            mine = np.array(got, dtype=float)
            for c in ids: x.S.get_coef_on_mesh_cell(c, mine)[:] = -3.0
            mine += np.arange(len(mine)) + 1.0
            again = [np.array(x.S.get_coef_on_mesh_cell(c, mine)) for c in ids]
            keys = [[k.glob_idx for k in x.S.glob_fun_sp.cell_dofs[j]] for j in range(len(ids))]
        core.must_equal("coefficients", coefs, R["coef"], 1e-5, what)
        core.must_equal("coefficients", again, [mine[k] for k in keys], 0, what + ": the vector changed in place")
        log.probe("solutions-compared")
        if assemblies > 1: log.probe("compared-after-history")

    def right_or_refused(x, asm, what):
        try:
            got = pr.combo(x.S, ids[-1], ref(asm)["soln"])
        except Exception:
            log.probe("combo-refused")
            return
        core.must_equal("combo", got["t"], ref(asm)["combo"][-1]["t"], 1e-5, what)

    def check_combo(x, what):
        """Right after an assembly: the solution on a cell is that of this system, or asking for it is an error."""
        try:
            u = np.array(x.S.get_solution()).ravel()
            got = pr.combo(x.S, ids[-1], u)
        except Exception:
            log.probe("combo-refused")
            return
        want = ref((x.asm[0], x.asm[1], 1, x.asm[3]))["combo"][-1]
        core.must_equal("combo", got["t"], want["t"], 1e-5, what)
        if got["v"] is not None:
            core.must_equal("combo", got["v"], want["v"], 1e-5, what)
        log.probe("combos-compared")

    for j, op in enumerate(case["ops"]):
        what = f"op {j} {op}"
        if op[0] == "solver":
            if len(sols) >= 3:
                continue
            v, sp = get_space(op[1])
            fo = get_form(op[2])
            with sut(what):
                S = pf.Solver(sp, fo["obj"], verbose=False, compute_interior_values=bool(op[3]), compute_interior_gradient=bool(op[4]))
            x = Sol(S, v, fo, op[3], op[4])
            sols.append(x); assemblies += 1
            check_system(x, what)
            pr.check_algebra(S, what)
            if op[3]:
                # with the cells as just assembled: the solution on each cell (later use is C17)
                c = ids[-1]
                u = np.cos(np.arange(S.num_funs))
                with sut("compute_linear_combo_on_mesh_cell"):
                    got = pr.combo(S, c, u)
                    tiny = pr.combo(S, c, 1e-6 * u)
                core.must_equal("combo", tiny["t"] * 1e6, got["t"], 1e-7, what + ", coefficients scaled by 1e-6")
                basis = S.local_function_spaces[len(ids) - 1].get_basis()
                core.must_equal("combo", got["t"], sum(u[b.key.glob_idx] * b.get_trace_values() for b in basis), 1e-7, what)
        elif op[0] == "assemble":
            x = sols[op[1] % len(sols)]
            with sut(what):
                if x.S.glob_fun_sp is not V[x.v]: x.S.set_global_function_space(V[x.v])
                x.S.assemble(verbose=False, compute_interior_values=bool(op[2]), compute_interior_gradient=bool(op[3]))
            x.asm = (x.v, x.form["f"], op[2], op[3])
            assemblies += 1
            check_system(x, what)
            pr.check_algebra(x.S, what)
            check_combo(x, what)
        elif op[0] == "setform":
            x = sols[op[1] % len(sols)]
            x.form = get_form(op[2])
            with sut(what):
                x.S.set_bilinear_form(x.form["obj"])
        elif op[0] == "mutform":
            fo = sols[op[1] % len(sols)].form; g = forms[op[2] % len(forms)]
            with sut(what):
                fo["obj"].set_diffusion_constant(g["D"]); fo["obj"].set_reaction_constant(g["R"]); fo["obj"].set_rhs_poly(pr.poly(g["f"]))
            fo["f"] = op[2] % len(forms)
            for x in sols:
                check_system(x, what)
        elif op[0] == "setspace":
            x = sols[op[1] % len(sols)]; v, sp = get_space(op[2])
            with sut(what):
                x.S.set_global_function_space(sp)
            right_or_refused(x, (v, x.form["f"], 1, 0), what + " before assembling")
            with sut(what):
                x.S.assemble(verbose=False, compute_interior_values=False)
            x.v = v; x.asm = (v, x.form["f"], 0, 0); assemblies += 1
            check_system(x, what)
            check_combo(x, what)
        elif op[0] in ("solve", "get"):
            x = sols[op[1] % len(sols)]
            with sut(what):
                if op[0] == "solve":
                    x.S.solve(); got = x.S.soln
                else:
                    got = x.S.get_solution()
            check_system(x, what)
            if x.S.glob_fun_sp is V[x.asm[0]]:
                check_solution(x, got, what)
        elif op[0] == "local":
            v, sp = get_space(op[1]); c = ids[op[2] % len(ids)]
            with sut(what):
                L = sp.build_local_function_space(c, verbose=False, compute_interior_values=bool(op[3]), compute_interior_gradient=False)
            got = pr.obs_local_space(L)
            check_local(L, mesh, spec, c, what)
            B = L.get_basis(); fo = get_form(op[2] + op[3]); g = forms[fo["f"]]
            for u, w in ((B[0], B[-1]), (B[-1], B[len(B) // 2])):
                with sut("BilinearForm.eval"):
                    val, h1, l2 = float(fo["obj"].eval(u, w)), float(u.get_h1_semi_inner_prod(w)), float(u.get_l2_inner_prod(w))
                core.must_equal("form", val, g["D"] * h1 + g["R"] * l2, 1e-10, what + f": the form with diffusion {g['D']} and reaction {g['R']} of two local functions")
            core.must_equal("local-space", got, ref_local(case, v, c, op[3]), TOL, what)
            log.probe("local-spaces")
        elif op[0] == "cell":
            c = ids[op[1] % len(ids)]
            with sut(what):
                K = mesh.get_cell(c)
                K.parameterize(pr.quad(case["spaces"][op[2] % len(case["spaces"])][1]), compute_interior_points=False)
                L = pf.LocalPoissonSpace(K, deg=1, verbose=False, compute_interior_values=False)
            check_local(L, mesh, spec, c, what)
        elif op[0] == "espaces":
            v, sp = get_space(op[1])
            with sut(what):
                sp.build_edge_spaces(verbose=False)
        elif op[0] == "bad":
            x = sols[op[1] % len(sols)]
            try:
                if op[2] == "space": x.S.set_global_function_space(None)
                elif op[2] == "form": x.S.set_bilinear_form(None)
                else: x.S.compute_linear_combo_on_mesh_cell(99, np.zeros(3))
            except Exception:
                log.fault("rejected-request")
            check_system(x, what)
    for x in sols:
        check_system(x, "final")
        with sut("get_solution"):
            got = x.S.get_solution()
        if x.S.glob_fun_sp is V[x.asm[0]]:
            check_solution(x, got, "final")
    return log.result()


def check_local(L, mesh, spec, c, what):
    """Vertex functions are 1 at their own vertex and 0 at the others, and linear functions are reproduced on the boundary."""
    K = L.nyst.K
    corner = {}
    for comp, s in zip(K.components, K.component_start_idx):
        for e, o, k in zip(comp.edges, comp.edge_orients, comp.vert_idx):
            if not e.is_loop:
                corner[(e.anchor if o > 0 else e.endpnt).idx] = s + k
    if sorted(v.key.vert_idx for v in L.vert_funs) != sorted(corner):
        raise Violation("vertex-functions", f"{what}: vertex functions {[v.key.vert_idx for v in L.vert_funs]} for vertices {sorted(corner)}")
    for v in L.vert_funs:
        t = v.get_trace_values()
        for i, k in corner.items():
            if abs(t[k] - (1.0 if i == v.key.vert_idx else 0.0)) > 1e-8:
                raise Violation("vertex-functions", f"{what}: function of vertex {v.key.vert_idx} has value {t[k]:.6g} at vertex {i}")
    B = np.array([v.get_trace_values() for v in L.get_basis()]).T
    x1, x2 = K.get_boundary_points()
    for nm, y in (("1", np.ones(len(x1))), ("x1", x1), ("x2", x2)):
        r = B @ np.linalg.lstsq(B, y, rcond=None)[0] - y
        if np.max(np.abs(r)) > 5e-3:  # the library drops trace directions below sqrt(1e-6)
            raise Violation("reproduction", f"{what}: the local space of cell {c} does not contain {nm}: residual {np.max(np.abs(r)):.2e}")


def ref_local(case, v, c, iv):
    key = repr(("local", case["spaces"][v], c, iv))
    if key not in pr._refs:
        def go():
            with world.mute():
                m = world.build(case["spec"])
                sp = pr.space(m, *case["spaces"][v])
                return pr.obs_local_space(sp.build_local_function_space(c, verbose=False, compute_interior_values=bool(iv), compute_interior_gradient=False))
        pr._refs[key] = core.isolated(go)
    return pr._refs[key]


def nontrivial(case, res):
    return res["probes"].get("compared-after-history", 0) >= 1


def shrink(case):
    for c in core.shrink_lists(case, ["ops"]):
        if c["ops"] and c["ops"][0][0] == "solver":
            yield c
    E = case["spec"]["edges"]
    for k, e in enumerate(E):
        if e["a"] == e["b"] and min(e["pos"], e["neg"]) < 0:
            yield dict(case, spec=dict(case["spec"], edges=E[:k] + E[k + 1:]))
    for k, e in enumerate(E):
        if e["curve"] == "sine_wave":
            yield dict(case, spec=dict(case["spec"], edges=E[:k] + [dict(e, curve="line", opts={})] + E[k + 1:]))
