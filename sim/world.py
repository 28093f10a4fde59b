"""The system under test, built from JSON-able specs, and everything observable about it.

Nothing here executes library code in the parent process beyond importing it: runs and references are forked from a
parent whose library state is pristine (numba kernels are compiled from signatures found by a throw-away child).
"""
from __future__ import annotations
import contextlib, importlib, io, os, pkgutil, sys, warnings
from . import core

pf = None
_np = None
SMALL = (7, 7)          # interior grid used by default in simulated runs (tuning knob, default (33, 33))


def prepare(need_jit=True, knobs=True):
    global pf, _np
    sys.path.insert(0, core.REPO)
    warnings.simplefilter("ignore")
    from . import sched
    sched.install_locks()
    import numpy
    _np = numpy
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, matplotlib.tri, scipy.sparse.linalg, scipy.interpolate  # noqa: F401
    import tqdm
    tqdm.tqdm.monitor_interval = 0          # no monitor thread: progress bars run in the simulated thread only
    import puncturedfem
    pf = puncturedfem
    got = os.path.dirname(os.path.abspath(puncturedfem.__file__))
    if os.path.realpath(got) != os.path.realpath(core.PKG.rstrip("/")):
        raise core.HarnessError(f"wrong package under test: {got}")
    for m in pkgutil.walk_packages([got], "puncturedfem."):
        try:
            importlib.import_module(m.name)
        except Exception:      # an optional or broken helper module is not this harness' business
            pass
    warnings.resetwarnings(); warnings.simplefilter("default"); warnings.simplefilter("ignore", ResourceWarning)
    if knobs:
        shrink_interior_grid()
    if need_jit:
        warm_jit()


def shrink_interior_grid(size=SMALL):
    """Tuning knob: MeshCell's default interior grid size (pure cost, coordinates of sampled interior points)."""
    import inspect
    C = pf.MeshCell
    f = C.__init__
    ps = list(inspect.signature(f).parameters.values())
    d = list(f.__defaults__ or ())
    named = [p.name for p in ps if p.default is not inspect.Parameter.empty and p.kind is p.POSITIONAL_OR_KEYWORD]
    if "int_mesh_size" in named:
        d[named.index("int_mesh_size")] = size
        f.__defaults__ = tuple(d)


def dispatchers():
    from numba.core.dispatcher import Dispatcher
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if name.startswith("puncturedfem") and mod is not None:
            for k, v in sorted(vars(mod).items()):
                if isinstance(v, Dispatcher) and getattr(v, "__module__", name) == name:
                    out[(name, k)] = v
    return out


def _jit_probe():
    with mute():
        K = build(demo_spec()).get_cell(0)
        K.parameterize(pf.get_quad_dict(n=4, p=4), compute_interior_points=False)
        pf.NystromSolver(K)
        K = build(demo_spec()).get_cell(1)
        K.parameterize(pf.get_quad_dict(n=4, p=4), compute_interior_points=False)
        pf.NystromSolver(K)
    return {k: [tuple(s) for s in d.signatures] for k, d in dispatchers().items()}


def warm_jit():
    try:
        sigs = core.isolated(_jit_probe, timeout=120, mem_gb=8)
    except Exception as e:      # the code under test may be broken: let the runs find out
        print("note: JIT probe failed:", str(e)[:200], file=sys.stderr)
        return
    ds = dispatchers()
    for k, ss in sigs.items():
        for s in ss:
            try:
                ds[k].compile(s)
            except Exception:
                pass


@contextlib.contextmanager
def mute():
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = out, err


# ------------------------------------------------------------------ mesh specs

def demo_spec():
    """Two cells side by side, the left one with a circular and a polygonal hole, mixed listing order and orientation."""
    return dict(verts=[[0, 0], [1, 0], [2, 0], [2, 1], [1, 1], [0, 1], [.3, .3], [.7, .65], [.6, .65], [.6, .8], [.75, .8]],
                edges=[ed(0, 1, 0), ed(1, 2, 1), ed(2, 3, 1), ed(4, 3, -1, 1), ed(4, 5, 0), ed(5, 0, 0, -1),
                       ed(1, 4, 0, 1, "sine_wave", amp=.05, freq=1),
                       ed(6, 6, -1, 0, "circle", "trap", radius=.15),
                       ed(8, 9, 0), ed(9, 10, 0), ed(8, 10, -1, 0)])


def ed(a, b, pos=-1, neg=-1, curve="line", quad="kress", **opts):
    return dict(a=a, b=b, pos=pos, neg=neg, curve=curve, quad=quad, opts=opts)


def build(spec, verbose=False, mesh=True):
    """Build a PlanarMesh (or just its edge list) from a spec."""
    if "lib" in spec:
        return getattr(pf.meshlib, spec["lib"])(verbose=verbose, **spec.get("kw", {}))
    V = [pf.Vert(x=float(x), y=float(y), idx=vert_label(spec, i)) for i, (x, y) in enumerate(spec["verts"])]
    es = [pf.Edge(V[e["a"]], V[e["b"]], pos_cell_idx=e["pos"], neg_cell_idx=e["neg"], curve_type=e["curve"],
                  quad_type=e["quad"], **options(e)) for e in spec["edges"]]
    return pf.PlanarMesh(es, verbose=verbose) if mesh else es


def options(e):
    o = dict(e["opts"])
    if "pts" in o: o["pts"] = [_np.array(x, dtype=float) for x in o["pts"]]
    return o


def gen_spec(rng, cells=None, max_holes=2, curved=.5, reorder=True, boundary_only_holes=False, splines=0):
    """Random conforming mesh: a row or block of (curvilinear) quadrilaterals with holes, some filled by further cells."""
    nx, ny = cells or rng.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2)])
    verts, edges, vid = [], [], {}
    for j in range(ny + 1):
        for i in range(nx + 1):
            jx = rng.uniform(-.12, .12) if rng.random() < .5 else 0.0
            jy = rng.uniform(-.12, .12) if rng.random() < .5 else 0.0
            vid[i, j] = len(verts); verts.append([round(i + jx, 6), round(j + jy, 6)])
    cid = lambda i, j: i + nx * j if 0 <= i < nx and 0 <= j < ny else -1
    def curve():
        if splines and rng.random() < splines:       # not symmetric under reversal
            return "spline", dict(pts=[[0, round(rng.uniform(.15, .4), 3), round(rng.uniform(.5, .85), 3), 1], [0, round(rng.uniform(-.1, .1), 3), round(rng.uniform(-.1, .1), 3), 0]])
        if rng.random() < curved:
            return "sine_wave", dict(amp=round(rng.choice([-1, 1]) * rng.uniform(.02, .07), 4), freq=rng.randint(1, 3))
        return "line", {}
    for j in range(ny + 1):
        for i in range(nx):
            c, o = curve(); edges.append(ed(vid[i, j], vid[i + 1, j], cid(i, j), cid(i, j - 1), c, "kress", **o))
    for j in range(ny):
        for i in range(nx + 1):
            c, o = curve(); edges.append(ed(vid[i, j], vid[i, j + 1], cid(i - 1, j), cid(i, j), c, "kress", **o))
    nxt = nx * ny
    for j in range(ny):
        for i in range(nx):
            k = rng.randint(0, max_holes)
            spots = [(.5, .5)] if k == 1 else rng.sample([(.3, .32), (.7, .3), (.32, .7), (.7, .68)], k)
            for sx, sy in spots:
                r = .2 if k == 1 else .11
                cx, cy = i + sx, j + sy
                inner = -1
                if not boundary_only_holes and rng.random() < .45:
                    inner = nxt; nxt += 1
                kind = rng.choice(["circle", "ellipse", "poly", "poly", "kress-loop"] if k == 1 else ["circle", "ellipse", "poly"])
                host = cid(i, j)
                if kind == "poly":
                    m = rng.choice([3, 4])
                    import math
                    ph = rng.uniform(0, 6)
                    ids = []
                    for q in range(m):
                        ids.append(len(verts))
                        verts.append([round(cx + r * math.cos(ph + 2 * math.pi * q / m), 6), round(cy + r * math.sin(ph + 2 * math.pi * q / m), 6)])
                    for q in range(m):
                        edges.append(ed(ids[q], ids[(q + 1) % m], inner, host))
                elif kind == "kress-loop":
                    v = len(verts); verts.append([round(cx, 6), round(cy, 6)])
                    s = r * .7
                    edges.append(ed(v, v, inner, host, "ellipse", "kress"))
                    edges[-1]["opts"] = dict(a=round(s, 4), b=round(s * rng.uniform(.7, 1.3), 4))
                else:
                    v = len(verts); verts.append([round(cx, 6), round(cy, 6)])
                    edges.append(ed(v, v, inner, host, kind, "trap"))
                    edges[-1]["opts"] = dict(radius=round(r * rng.uniform(.7, 1), 4)) if kind == "circle" else dict(a=round(r * rng.uniform(.7, 1), 4), b=round(r * rng.uniform(.6, 1), 4))
    if reorder:
        rng.shuffle(edges)
        edges = [flip(e) if rng.random() < .4 else e for e in edges]
    spec = dict(verts=verts, edges=edges)
    return relabel(spec, rng) if reorder and rng.random() < .35 else spec


def thin_spec(rng):
    """One cell: a narrow wavy band, with the interior point hard to find."""
    h, o = round(rng.uniform(.011, .03), 4), dict(amp=rng.choice([-1, 1]) * rng.choice([.1, .2, .3, .3, round(rng.uniform(.1, .35), 4)]), freq=rng.choice([1, 2, 3, 3, 3, 3, 4]))
    E = [ed(0, 1, 0, -1, "sine_wave", **o), ed(1, 2, 0), ed(3, 2, -1, 0, "sine_wave", **o), ed(3, 0, 0)]
    rng.shuffle(E)
    s = rng.choice([0, 0, 0, .2, round(rng.uniform(.04, .3), 4)])
    return dict(verts=[[0, 0], [1, s], [1, round(s + h, 4)], [0, h]], edges=[flip(e) if rng.random() < .4 else e for e in E])


def relabel(spec, rng):
    """Cell and vertex numbers with gaps and in no particular order; any negative number for "no cell"."""
    cells = cells_of(spec)
    m = dict(zip(cells, rng.sample(range(3 * len(cells) + 2), len(cells))))
    out = rng.choice([-1, -1, -2])
    m.update({c: out for e in spec["edges"] for c in (e["pos"], e["neg"]) if c < 0})
    return dict(spec, edges=[dict(e, pos=m[e["pos"]], neg=m[e["neg"]]) for e in spec["edges"]], vidx=rng.sample(range(2 * len(spec["verts"]) + 3), len(spec["verts"])))


def vert_label(spec, i):
    return spec["vidx"][i] if "vidx" in spec else i


def flip(e):
    """The same curve given with the opposite direction (non-loops whose curve maps to itself under reversal)."""
    if e["a"] == e["b"] or e["curve"] not in ("line", "sine_wave", "spline"):
        return e
    o = dict(e["opts"])
    if e["curve"] == "spline":
        o["pts"] = [[1 - x for x in o["pts"][0][::-1]], [-y for y in o["pts"][1][::-1]]]
    if e["curve"] == "sine_wave" and o["freq"] % 2 == 1:
        o["amp"] = -o["amp"]
    return dict(e, a=e["b"], b=e["a"], pos=e["neg"], neg=e["pos"], opts=o)


def cells_of(spec):
    return sorted({c for e in spec["edges"] for c in (e["pos"], e["neg"]) if c >= 0})


# ------------------------------------------------------------------ observables

def obs_edge(e):
    np = _np
    if not e.is_parameterized:
        return dict(par=False)
    return dict(par=True, n=int(e.num_pts), x=np.array(e.x), t=np.array(e.unit_tangent), nrm=np.array(e.unit_normal),
                dx=np.array(e.dx_norm), curv=np.array(e.curvature))


def obs_cell(K, interior=True):
    """Everything a caller can read off a sampled cell (public accessors)."""
    np = _np
    one = np.ones((K.num_pts,))
    x1, x2 = K.get_boundary_points()
    d = dict(num_pts=K.num_pts, num_holes=K.num_holes, num_edges=K.num_edges, start=list(map(int, K.component_start_idx)),
             x1=x1, x2=x2, tang=list(K.get_unit_tangent()), norm=list(K.get_unit_normal()), dx=K.get_dx_norm(),
             closest=np.array(K.closest_vert_idx), bbox=[float(v) for v in K.get_bounding_box()],
             length=K.integrate_over_boundary(one), area=.5 * (K.integrate_over_boundary(K.dot_with_normal(x1, x2))),
             holes=[[c.interior_point.x, c.interior_point.y] for c in K.components],
             edge_idx=[getattr(e, "idx", None) for e in K.get_edges()], curv=[np.array(e.curvature) for e in K.get_edges()],
             vert_idx=[list(map(int, c.vert_idx)) for c in K.components])
    if interior:
        t = K.triangulation
        d.update(int_x1=np.array(K.int_x1), int_x2=np.array(K.int_x2), tri=np.array(t.triangles), tx=np.array(t.x), ty=np.array(t.y),
                 hole_mask=np.array(K.hole_mask), bmask=np.array(K.boundary_mask))
    return d


def queries(K, scribble=False):
    """Answers to what a caller may ask of a sampled cell and its contours; the arrays handed out are the caller's to spoil."""
    np = _np
    g = lambda x, y: x * x - 2 * x * y + .3
    x1, x2 = K.get_boundary_points()
    xmin, xmax, ymin, ymax = K.get_bounding_box()
    gx, gy = np.meshgrid(np.linspace(xmin, xmax, 5), np.linspace(ymin, ymax, 4))
    v = np.cos(np.arange(K.num_pts))
    arrays = [x1, x2, *K.get_unit_tangent(), *K.get_unit_normal(), K.get_dx_norm(), K.evaluate_function_on_boundary(g), K.dot_with_tangent(v, -v), K.dot_with_normal(v, v), K.multiply_by_dx_norm(v)]
    nums = [K.integrate_over_boundary(v), K.integrate_over_boundary_preweighted(v)] + [K.get_distance_to_boundary(a, b) for a, b in ((xmin - .1, ymin), (.5 * (xmin + xmax), .5 * (ymin + ymax)))]
    ins = [K.is_in_interior(gx, gy), K.is_in_interior(gx[1], gy[1])]
    for c in K.components:
        w = np.sin(np.arange(c.num_pts))
        arrays += [*c.get_sampled_points(), c.evaluate_function_on_contour(g), c.dot_with_tangent(w, w), c.dot_with_normal(w, -w), c.multiply_by_dx_norm(w)]
        nums += [c.integrate_over_closed_contour(w), c.integrate_over_closed_contour_preweighted(w), c.get_distance_to_boundary(xmin, ymax)]
        ins += [c.is_in_interior_contour(gx, gy)]
    for e in K.get_edges():
        arrays += [np.array(e.evaluate_function(g)), e.evaluate_function(g, ignore_endpoint=True)]
        nums += [float(e.integrate_over_edge(np.cos(np.arange(e.num_pts)))), *map(float, e.get_bounding_box())]
    out = dict(arrays=[np.array(a) for a in arrays], nums=list(map(float, nums)), inside=[np.array(a) for a in ins])
    if scribble:
        for a in arrays + ins:
            a[...] = 1
    return out


def obs_trace(t):
    np = _np
    d = dict(values=np.array(t.values))
    for k in ("w_tang_deriv", "w_norm_deriv"):
        if hasattr(t, k) and getattr(t, k) is not None:
            d[k] = np.array(getattr(t, k))
    return d


def obs_poly(p):
    """Canonical value of a polynomial: {(i, j): coefficient} with zero terms dropped, read without calling its methods."""
    d = {}
    for m in p.monos:
        k = (int(m.alpha.x), int(m.alpha.y))
        d[k] = d.get(k, 0.0) + float(m.coef)
    return {k: v for k, v in d.items() if abs(v) > 1e-12}
