"""Independent model of a sampled mesh cell: which edges bound it, in which direction, and what their samples are."""
from __future__ import annotations
import numpy as np
from . import core, world
from .core import Violation
from .model_curve import EdgeModel, quad_nodes

TOL = 1e-8


def edge_models(spec):
    V = spec["verts"]
    return [EdgeModel(e["curve"], e["opts"], V[e["a"]], V[e["b"]]) for e in spec["edges"]]


def sides(spec, c):
    """{edge index: +1/-1} for the edges bounding cell c."""
    return {k: (1 if e["pos"] == c else -1) for k, e in enumerate(spec["edges"]) if c in (e["pos"], e["neg"])}


def shoelace(x, y):
    return .5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def inside(px, py, x, y):
    """Even-odd ray casting."""
    x2, y2 = np.roll(x, -1), np.roll(y, -1)
    c = ((y > py) != (y2 > py))
    with np.errstate(divide="ignore", invalid="ignore"):
        xi = x + (py - y) * (x2 - x) / (y2 - y)
    return bool(np.sum(c & (px < xi)) % 2)


def seg_dist(px, py, x, y):
    """Distance of a point to a closed polygon's sides."""
    a, b = np.array([x, y]), np.array([np.roll(x, -1), np.roll(y, -1)])
    d = b - a
    t = np.clip(((np.array([[px], [py]]) - a) * d).sum(0) / np.maximum((d * d).sum(0), 1e-300), 0, 1)
    return float(np.min(np.hypot(*(a + t * d - np.array([[px], [py]])))))


def check_cell(K, spec, c, q, what, interior=False, start_free=True):
    """Compare a sampled cell with the model; raises Violation.  `q` = (n, p)."""
    o = world.obs_cell(K, interior)
    ms, want = edge_models(spec), sides(spec, c)
    tr = {"kress": quad_nodes("kress", *q), "trap": quad_nodes("trap", *q)}
    got = o["edge_idx"]
    if sorted(got) != sorted(want):
        raise Violation("edges", f"{what}: boundary edges {sorted(got)}, should be {sorted(want)}")
    pos, X, T, N, D, comps = 0, [], [], [], [], []
    length = area = 0.0
    for ci, comp in enumerate(K.components):
        pts = []
        es = comp.edges
        smp = []
        for e in es:
            t, w = tr[spec["edges"][e.idx]["quad"]]
            smp.append(ms[e.idx].sample(t, w, reverse=want[e.idx] < 0))
        for j, s in enumerate(smp):
            nx = smp[(j + 1) % len(smp)]
            if np.hypot(*(s["x"][:, -1] - nx["x"][:, 0])) > 1e-7:
                raise Violation("chain", f"{what}: component {ci} is not traversed end to end: edge {es[j].idx} ends at {s['x'][:, -1]}, edge {es[(j + 1) % len(es)].idx} starts at {nx['x'][:, 0]}")
            core.must_equal("curvature", np.array(es[j].curvature), s["curv"], 1e-7, f"{what} edge {es[j].idx}") if np.all(np.isfinite(s["curv"])) else None
            X.append(s["x"][:, :-1]); T.append(s["t"][:, :-1]); N.append(s["nrm"][:, :-1]); D.append(s["dx"][:-1])
            pts.append(s["x"][:, :-1])
            h = np.pi / ((len(s["dx"]) - 1) / 2)
            length += h * float(np.sum(s["dx"][:-1]))
            area += .5 * h * float(np.sum((s["x"] * s["nrm"]).sum(0)[:-1] * s["dx"][:-1]))
        comps.append(np.concatenate(pts, 1))
    for ci, P in enumerate(comps):
        a = shoelace(P[0], P[1])
        if (a > 0) != (ci == 0):
            raise Violation("orientation", f"{what}: boundary component {ci} of {len(comps)} has signed area {a:.4g}; the outer boundary must come first and counterclockwise, holes clockwise")
        hx, hy = o["holes"][ci]
        if not inside(hx, hy, P[0], P[1]):
            raise Violation("hole-point", f"{what}: the interior point of component {ci} is outside of it: {(hx, hy)}")
    X = np.concatenate(X, 1); T = np.concatenate(T, 1); N = np.concatenate(N, 1); D = np.concatenate(D)
    exp = dict(num_pts=len(D), num_holes=len(comps) - 1, num_edges=len(want), x1=X[0], x2=X[1], tang=[T[0], T[1]], norm=[N[0], N[1]],
               dx=D, length=length, area=area, bbox=[X[0].min(), X[0].max(), X[1].min(), X[1].max()],
               start=list(np.concatenate(([0], np.cumsum([P.shape[1] for P in comps]))).astype(int)))
    exp["start"] = [int(v) for v in exp["start"]]
    core.must_equal("geometry", {k: o[k] for k in exp}, exp, TOL, what)
    if interior:
        for px, py in zip(np.ravel(o["int_x1"]), np.ravel(o["int_x2"])):
            if (not inside(px, py, *comps[0]) or any(inside(px, py, *P) for P in comps[1:])) and min(seg_dist(px, py, *P) for P in comps) > 1e-6:
                raise Violation("interior-point", f"{what}: interior point {(px, py)} is not in the cell")
        core.must_equal("triangulation", [o["tx"], o["ty"]], [np.concatenate((o["int_x1"], X[0])), np.concatenate((o["int_x2"], X[1]))], TOL, what)
        core.must_equal("boundary triangles", np.array(o["bmask"], bool), np.any(np.array(o["tri"]) >= len(o["int_x1"]), axis=1), 0, what)
    return o


def set_grid(K, grid):
    K.set_interior_mesh_size(*grid[:2])
    if len(grid) > 2: K.set_interior_point_tolerance(*grid[2:])


def ref_cell(spec, c, q, interior, grid=None, ask=False):
    """The same cell in a pristine process."""
    def go():
        pf = world.pf
        with world.mute():
            K = world.build(spec).get_cell(c)
            if grid: set_grid(K, grid)
            K.parameterize(pf.get_quad_dict(n=q[0], p=q[1]), compute_interior_points=interior)
        return (world.obs_cell(K, interior), world.queries(K)) if ask else world.obs_cell(K, interior)
    return core.isolated(go)
