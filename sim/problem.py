"""Boundary value problems on small meshes: seeded generation, observables, pristine references, algebraic oracles."""
from __future__ import annotations
import numpy as np
from . import core, world
from .core import Violation


def small_spec(rng, holes=True, two=.5):
    nx, ny = rng.choice([(2, 1), (1, 2)]) if rng.random() < two else (1, 1)
    for _ in range(50):
        s = world.gen_spec(rng, cells=(nx, ny), max_holes=(1 if holes and rng.random() < .6 else 0), curved=.35)
        if len(s["edges"]) <= 13:
            return s
    return s


def poly_terms(rng, deg=2, n=3):
    return [[float(rng.choice([1, -1, 2, -3, .5, -.25, 1.5])), a, b] for a, b in
            [rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)][:1 + 3 * deg]) for _ in range(rng.randint(1, n))]]


def form(rng):
    return dict(D=rng.choice([1.0, 1.0, 2.5, .01]), R=rng.choice([0.0, 1.0, 3.0]), f=poly_terms(rng, 1 if rng.random() < .7 else 2))


def poly(terms):
    return world.pf.Polynomial([(c, a, b) for c, a, b in terms])


def bilinear(f):
    return world.pf.BilinearForm(diffusion_constant=f["D"], reaction_constant=f["R"], rhs_poly=poly(f["f"]))


def quad(q):
    return world.pf.get_quad_dict(n=q[0], p=q[1])


def space(mesh, deg, q, verbose=False):
    return world.pf.GlobalFunctionSpace(mesh=mesh, deg=deg, quad_dict=quad(q), verbose=verbose)


def arr(m):
    return np.asarray(m.todense()) if hasattr(m, "todense") else np.array(m)


def obs_system(S):
    return dict(n=int(S.num_funs), mat=arr(S.glob_mat), rhs=arr(S.glob_rhs).ravel(), stiff=arr(S.stiff_mat), mass=arr(S.mass_mat))


def key_obs(k):
    return [k.fun_type, int(k.vert_idx), int(k.edge_idx), int(k.edge_space_idx), int(k.bubb_space_idx), int(getattr(k, "glob_idx", -1)), bool(getattr(k, "is_on_boundary", False))]


def obs_dofs(V):
    """Per cell, the numbered degrees of freedom (order is the library's own; compare with a pristine run)."""
    return [[key_obs(k) for k in ks] for ks in V.cell_dofs]


def obs_poly_edge(p):
    return world.obs_poly(p)


def obs_space(V):
    return dict(num=int(V.num_funs), v=int(V.num_vert_funs), e=int(V.num_edge_funs), b=int(V.num_bubb_funs), cum=[int(i) for i in V.edge_fun_cumsum], deg=int(V.deg),
                edges=[[[obs_poly_edge(p) for p in s.vert_fun_traces], [obs_poly_edge(p) for p in s.edge_fun_traces], [key_obs(k)[:5] for k in s.vert_fun_global_keys + s.edge_fun_global_keys]]
                       for s in V.edge_spaces])


def obs_fun(v, interior=True, grad=False):
    """Everything a caller can read off a local function."""
    d = dict(trace=np.array(v.get_trace_values()), harm=world.obs_trace(v.harm.trace), conj=np.array(v.harm.conj_trace.values), psi=np.array(v.harm.psi.values),
             log=[float(a) for a in v.harm.log_coef], bih=world.obs_trace(v.harm.biharmonic_trace), poly=world.obs_poly(v.poly.exact_form),
             g=[world.obs_poly(v.poly.grad1), world.obs_poly(v.poly.grad2)], anti=world.obs_poly(v.poly.antilap), ptrace=world.obs_trace(v.poly.trace), atrace=world.obs_trace(v.poly.antilap_trace))
    for k in ("int_vals", "int_grad1", "int_grad2"):
        x = getattr(v, k)
        d[k] = None if x is None else np.array(x)
    return d


def obs_nyst(n):
    d = dict(single=np.array(n.single_layer_mat), double=np.array(n.double_layer_mat), dsum=np.array(n.double_layer_sum), strat=n.antilap_strategy)
    if n.K.num_holes:
        d.update(lam=[world.obs_trace(t) for t in n.lam_trace], T1=np.array(n.T1_dlam_dt), Sn=np.array(n.Sn_lam))
        d["eta"] = core.UNSET if n.eta is None else [world.obs_trace(t) for t in n.eta]
    return d


def obs_local_space(L, interior=False):
    return dict(n=[L.num_vert_funs, L.num_edge_funs, L.num_bubb_funs, L.num_funs], area=float(L.area), centroid=[float(c) for c in L.centroid],
                keys=[key_obs(v.key) for v in L.get_basis()], basis=[dict(t=np.array(v.get_trace_values()), n=np.array(v.harm.trace.w_norm_deriv), i=(None if v.int_vals is None else np.array(v.int_vals))) for v in L.get_basis()])


def combo(S, c, coef):
    u = S.compute_linear_combo_on_mesh_cell(c, coef)
    return dict(t=np.array(u.get_trace_values()), v=None if u.int_vals is None else np.array(u.int_vals),
                g=None if u.int_grad1 is None else [np.array(u.int_grad1), np.array(u.int_grad2)])


_refs = {}


def ref_problem(spec, deg, q, f, iv, grad):
    """The whole problem in a pristine process: (space, system, dofs, solution, per-cell coefficients, per-cell solution)."""
    key = repr((spec, deg, q, f, iv, grad))
    if key not in _refs:
        def go():
            with world.mute():
                m = world.build(spec)
                V = space(m, deg, q)
                sp = obs_space(V)
                S = world.pf.Solver(V, bilinear(f), verbose=False, compute_interior_values=iv, compute_interior_gradient=grad)
                S.solve()
                x = np.array(S.soln)
                return dict(space=sp, system=obs_system(S), dofs=obs_dofs(V), soln=x, coef=[np.array(S.get_coef_on_mesh_cell(c, x)) for c in m.cell_idx_list],
                            combo=[combo(S, c, x) for c in m.cell_idx_list] if iv else None, cells=list(m.cell_idx_list))
        _refs[key] = core.isolated(go)
    return _refs[key]


def check_dofs(V, spec, what):
    """Degrees of freedom: per cell complete and without repetition, shared ones identical on both sides, jointly covering everything once."""
    seen, num = {}, int(V.num_funs)
    cells = V.mesh.cell_idx_list
    for ks, c in zip(V.cell_dofs, cells):
        g = [int(k.glob_idx) for k in ks]
        if len(set(g)) != len(g):
            raise Violation("dofs", f"{what}: cell {c} lists degrees of freedom twice: {g}")
        for k in ks:
            tag = {"vert": ("vert", k.vert_idx), "edge": ("edge", k.edge_idx, k.edge_space_idx), "bubb": ("bubb", c, k.bubb_space_idx)}[k.fun_type]
            if seen.setdefault(k.glob_idx, tag) != tag:
                raise Violation("dofs", f"{what}: number {k.glob_idx} stands for {seen[k.glob_idx]} and {tag}")
            if not 0 <= k.glob_idx < num:
                raise Violation("dofs", f"{what}: number {k.glob_idx} out of range {num}")
            on = _on_boundary(spec, k)
            if on is not None and bool(k.is_on_boundary) != on:
                raise Violation("dofs", f"{what}: {tag} is_on_boundary={k.is_on_boundary}, should be {on}")
    tags = list(seen.values())
    if len(set(tags)) != len(tags):
        raise Violation("dofs", f"{what}: one function has two numbers")
    if sorted(seen) != list(range(num)):
        raise Violation("dofs", f"{what}: numbers {sorted(set(range(num)) - set(seen))[:8]} of {num} are not used by any cell")


def _on_boundary(spec, k):
    if "lib" in spec:
        return None
    E = spec["edges"]
    bd = lambda e: e["pos"] < 0 or e["neg"] < 0
    if k.fun_type == "bubb": return False
    if k.fun_type == "edge": return bd(E[k.edge_idx])
    return any(bd(e) for e in E if k.vert_idx in (world.vert_label(spec, e["a"]), world.vert_label(spec, e["b"])))


def check_algebra(S, what, tol=1e-7):
    """Symmetry (up to quadrature error, so loose), boundary rows, and the equations a*stiff + r*mass."""
    A, M, G = arr(S.stiff_mat), arr(S.mass_mat), arr(S.glob_mat)
    for nm, X in (("stiffness", A), ("mass", M)):
        sc = np.max(np.abs(X)) or 1.0
        if np.max(np.abs(X - X.T)) > 1e-10 * sc:
            raise Violation("symmetry", f"{what}: {nm} matrix is not symmetric: {np.max(np.abs(X - X.T)):.3e}")
    want = S.bilinear_form.diffusion_constant * A + S.bilinear_form.reaction_constant * M
    bd = {k.glob_idx for ks in S.glob_fun_sp.cell_dofs for k in ks if k.is_on_boundary}
    cnt = np.zeros(len(A))
    for ks in S.glob_fun_sp.cell_dofs:
        for k in ks:
            cnt[k.glob_idx] += 1
    for i in range(len(A)):
        if i in bd:
            row = np.zeros(len(A)); row[i] = cnt[i]
            if abs(float(arr(S.glob_rhs).ravel()[i])) > 1e-14:
                raise Violation("boundary", f"{what}: right-hand side of boundary unknown {i} is not zero")
            if G[i, i] <= 0 or np.max(np.abs(np.delete(G[i], i)), initial=0.0) > 1e-14:
                raise Violation("boundary", f"{what}: boundary row {i} is not a multiple of the identity")
        else:
            core.must_equal("combination", G[i], want[i], tol, f"{what} row {i}")
