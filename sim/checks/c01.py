"""C01: an edge's sampled geometry is its base curve carried through its recorded transformation history."""
import copy
import numpy as np
from .. import core, faults, world
from ..core import Violation, sut
from ..model_curve import EdgeModel, LOOPS, OPEN, quad_nodes, ortho

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 60000}
NEED_JIT = False
RULE = ("one simulated life of 1-2 edges: random curve, base vertices, parameter bounds, and 4-24 operations (transformations, endpoint resets, "
        "rejected requests, sampling with random quadratures, un-sampling, reversal, deep copies, interrupts at random library statements); "
        "counted if at least one transformation and two comparisons with the model happened; distinct event logs")
REAL = ["Edge", "Vert", "Quad", "edgelib curves", "get_quad_dict"]
STUB = []
ASSUMPTIONS = ["own closed-form curves, Kress map and affine algebra are the reference", "join_points on closed edges only exercised as a rejected request on sampled edges; join_points while the sample is reversed is ambiguous and not exercised",
               "interrupts are delivered at statement boundaries of library code"]
TOL = 1e-8


def gen_op(rng, loop):
    r = rng.random()
    f = lambda a, b: round(rng.uniform(a, b), 6)
    if r < .12: return ["rotate", rng.choice([90.0, 180.0, -45.0, 0.0, f(-720, 720)])]
    if r < .22: return ["translate", f(-2, 2), f(-2, 2)]
    if r < .34: return ["dilate", rng.choice([-1.0, 2.0, .5, f(.2, 3), -f(.2, 3)])]
    if r < .41: return ["reflect_x"]
    if r < .48: return ["reflect_y"]
    if r < .57: return ["ortho", rng.choice([f(-180, 180), rng.choice([0, 90, 180, 270, 45, 135])]), rng.choice([1, -1])]
    if r < .63: return ["join", f(-2, 2), f(-2, 2), f(2.1, 4), f(-2, 2)]
    if r < .68: return ["verts"] + [f(-2, 2), f(-2, 2)] + ([f(2.1, 4), f(-2, 2)] if not loop else [])
    if r < .73: return ["bad", rng.choice(["dilate0", "ortho_shear", "ortho_shape", "join_same", "join_loop", "curve"])]
    if r < .88: return ["param", rng.choice([4, 5, 8, 16]), rng.choice([2, 3, 7])]
    if r < .91: return ["deparam"]
    if r < .95: return ["reverse"]
    return ["copy"]


def gen(rng, i, tier):
    loop = rng.random() < .4
    curve, opts = rng.choice(LOOPS if loop else OPEN)
    f = lambda a, b: round(rng.uniform(a, b), 6)
    a = [f(-1, 1), f(-1, 1)]
    b = list(a) if loop else [f(1.2, 3), f(-1, 1)]
    tb = None
    if curve not in ("spline", "teardrop", "cartioid") and not loop and rng.random() < .25:
        tb = [f(0, 2), f(3, 6.2)]
    n = rng.randint(4, 24 if tier == "thorough" or rng.random() < .3 else 12)
    ops = [gen_op(rng, loop) for _ in range(n)]
    for k, o in enumerate(ops):
        o.insert(0, None)
        if o[1] in ("param", "join", "rotate", "reflect_x", "dilate", "ortho", "translate", "deparam", "copy") and rng.random() < .12:
            o[0] = [rng.choice(["interrupt", "nomem"]), rng.random(), rng.random()]
    ops.append([None, "param", rng.choice([4, 8, 16]), rng.choice([2, 7])])
    return dict(curve=curve, opts=opts, a=a, b=b, tb=tb, quad=rng.choice(["kress", "kress", "trap"]), ops=ops)


def call(e, op, quads):
    k = op[0]
    V = world.pf.Vert
    if k == "rotate": e.rotate(op[1])
    elif k == "translate":
        v = V(x=op[1], y=op[2])
        e.translate(v)
        v.x, v.y = 7.0, -7.0   # the caller reuses its vertex
    elif k == "dilate": e.dilate(op[1])
    elif k == "reflect_x": e.reflect_across_x_axis()
    elif k == "reflect_y": e.reflect_across_y_axis()
    elif k == "ortho":
        A = ortho(op[1], op[2])
        e.apply_orthogonal_transformation(A)
        A[:] = 7.0           # the caller reuses its array
    elif k == "join": e.join_points(V(x=op[1], y=op[2]), V(x=op[3], y=op[4]))
    elif k == "verts":
        a = V(x=op[1], y=op[2])
        e.set_verts(a, a if len(op) == 3 else V(x=op[3], y=op[4]))
    elif k == "param": e.parameterize(quads(op[1], op[2]))
    elif k == "deparam": e.deparameterize()
    elif k == "reverse": e.reverse_orientation()
    elif k == "copy": return copy.deepcopy(e)
    elif k == "bad":
        if op[1] == "dilate0": e.dilate(0.0)
        elif op[1] == "ortho_shear": e.apply_orthogonal_transformation(np.array([[1.0, .2], [0, 1.0]]))
        elif op[1] == "ortho_shape": e.apply_orthogonal_transformation(np.eye(3))
        elif op[1] == "curve": e.set_curve_type("no_such_curve")
        elif op[1] == "join_same": e.join_points(V(x=1.0, y=2.0), V(x=1.0, y=2.0))
        elif op[1] == "join_loop": e.join_points(V(x=0.0, y=0.0), V(x=1.0, y=0.0))


class Track:
    """One edge with the model of what it must look like.  models: possible histories (two after an interrupt)."""

    def __init__(self, edge, models):
        self.e, self.models, self.sampled, self.rev = edge, models, None, False

    def twin(self, edge):
        t = Track(edge, [m.copy() for m in self.models])
        t.sampled, t.rev = self.sampled, self.rev
        return t


def expect(m, tr, qt):
    t, w = quad_nodes(qt, *tr.sampled)
    return m.sample(t, w, tr.rev)


def compare(tr, qt, log, what):
    if tr.sampled is None:
        return
    got = world.obs_edge(tr.e)
    bad, keep = None, []
    for m in tr.models:
        d = core.diff(got, expect(m, tr, qt), TOL)
        if d is None:
            keep.append(m)
        else:
            bad = d
    if not keep:
        raise Violation("geometry", f"after {what}: {bad}")
    tr.models = keep
    log.probe("comparisons")
    answers(tr, got, qt, what)
    log.ev(what, core.digest(np.round(got["x"], 9)))


def answers(tr, g, qt, what):
    """The questions an edge answers, from the samples just compared: products with tangent and normal, weights, integrals, with and without the last point."""
    e, n = tr.e, g["n"]
    u, v = np.cos(np.arange(n)), np.sin(1.0 + np.arange(n))
    got, exp = {}, {}
    f = lambda x, y: 2.0 * x - x * y
    with sut("queries after " + what):
        for k in (0, 1):
            c, flag = slice(0, n - k), bool(k)
            a, b = np.array(u[c]), np.array(v[c])
            got[f"points{k}"] = [np.array(z) for z in e.get_sampled_points(ignore_endpoint=flag)]
            got[f"tangent{k}"], got[f"normal{k}"] = e.dot_with_tangent(a, b, flag), e.dot_with_normal(a, b, flag)
            got[f"weighted{k}"], got[f"function{k}"] = e.multiply_by_dx_norm(a, flag), e.evaluate_function(f, flag)
            got[f"integral{k}"], got[f"weighted integral{k}"] = float(e.integrate_over_edge(a, flag)), float(e.integrate_over_edge_preweighted(a, flag))
            x, w = g["x"][:, c], np.full(n - k, 2 * np.pi / (n - 1))
            if not k:
                w[0] *= .5; w[-1] *= .5
            exp[f"points{k}"] = [x[0], x[1]]
            exp[f"tangent{k}"], exp[f"normal{k}"] = (u[c] * g["t"][0, c] + v[c] * g["t"][1, c]), (u[c] * g["nrm"][0, c] + v[c] * g["nrm"][1, c])
            exp[f"weighted{k}"], exp[f"function{k}"] = u[c] * g["dx"][c], f(x[0], x[1])
            exp[f"integral{k}"], exp[f"weighted integral{k}"] = float(np.sum(w * u[c] * g["dx"][c])), float(np.sum(w * u[c]))
            if not (np.array_equal(a, u[c]) and np.array_equal(b, v[c])):
                raise Violation("arguments", f"after {what}: a query changed the values it was given")
        got["box"] = [float(z) for z in e.get_bounding_box()]
        got["ends"], exp["ends"] = ends(e)
        str(e)
    x = g["x"]
    exp["box"] = [float(x[0].min()), float(x[0].max()), float(x[1].min()), float(x[1].max())]
    d = core.diff(got, exp, TOL)
    if d is None:
        d = core.diff(world.obs_edge(e), g, 0.0)
    if d is not None:
        raise Violation("queries", f"after {what}: {d}")


def ends(e):
    """Arithmetic with the end points of an edge, which stay where they are."""
    a, b = e.anchor, e.endpnt
    p, q = (a.x, a.y), (b.x, b.y)
    c = lambda v: [float(z) for z in v.get_coord()] + [float(z) for z in v.get_coord_array()]
    got = [c(v) for v in (a + b, a - b, b * a, a * 3, 2.5 * b, b / 4)] + [a.norm(), float(a == b), str(a) != ""]
    two = lambda v: [v[0], v[1]] * 2
    exp = [two(v) for v in ((p[0] + q[0], p[1] + q[1]), (p[0] - q[0], p[1] - q[1]), (p[0] * q[0], p[1] * q[1]), (3 * p[0], 3 * p[1]), (2.5 * q[0], 2.5 * q[1]), (q[0] / 4, q[1] / 4))] + \
        [float(np.hypot(*p)), float(np.hypot(p[0] - q[0], p[1] - q[1]) < 1e-12), True]
    return got + [[a.x, a.y, b.x, b.y]], exp + [[*p, *q]]


def refusals(tr, what):
    """An edge that is not sampled refuses to answer rather than answering from an earlier sample."""
    e = tr.e
    z = np.zeros((8,))
    for name, ask in [("get_sampled_points", e.get_sampled_points), ("get_bounding_box", e.get_bounding_box), ("evaluate_function", lambda: e.evaluate_function(lambda x, y: x)),
                      ("dot_with_normal", lambda: e.dot_with_normal(z, z)), ("dot_with_tangent", lambda: e.dot_with_tangent(z, z)), ("multiply_by_dx_norm", lambda: e.multiply_by_dx_norm(z)),
                      ("integrate_over_edge", lambda: e.integrate_over_edge(z)), ("integrate_over_edge_preweighted", lambda: e.integrate_over_edge_preweighted(z))]:
        with sut(f"{name} after {what}", allow=(pf_errors().NotParameterizedError,)):
            try:
                ask()
            except pf_errors().NotParameterizedError:
                continue
            raise Violation("unsampled", f"{name} answers on an edge that is not sampled, after {what}")


def pf_errors():
    return world.pf.mesh.mesh_exceptions


def run(case):
    log = core.Log()
    pf = world.pf
    qt = case["quad"]
    V = pf.Vert
    a = V(x=case["a"][0], y=case["a"][1])
    b = a if case["a"] == case["b"] else V(x=case["b"][0], y=case["b"][1])
    kw = dict(case["opts"])
    if case["curve"] == "spline":
        kw["pts"] = [np.array(p) for p in kw["pts"]]
    if case["tb"]:
        kw["t_bounds"] = tuple(case["tb"])
    with sut("Edge()"):
        e = pf.Edge(a, b, curve_type=case["curve"], quad_type=qt, **kw)
    m = EdgeModel(case["curve"], case["opts"], case["a"], case["b"], tuple(case["tb"]) if case["tb"] else (0.0, 2 * np.pi))
    cache = {}

    def quads(n, p):
        if (n, p) not in cache:
            cache[n, p] = pf.get_quad_dict(n=n, p=p)
        return cache[n, p]
    tracks = [Track(e, [m])]
    cur = 0
    for step, full in enumerate(case["ops"]):
        flt, op = full[0], full[1:]
        tr = tracks[cur]
        k = op[0]
        what = f"step {step} {op}"
        if k == "bad":
            sampled = tr.sampled is not None
            if op[1] == "join_loop" and (not sampled or not tr.models[0].closed_base()):
                continue
            with sut(what, allow=(pf.mesh.mesh_exceptions.EdgeTransformationError, FileExistsError, ValueError)):
                try:
                    call(tr.e, op, quads)
                except (pf.mesh.mesh_exceptions.EdgeTransformationError, FileExistsError, ValueError):
                    log.fault("rejected-request")
                else:
                    raise Violation("accepted", f"{what} was not rejected")
            compare(tr, qt, log, what)
            continue
        if k == "join" and (tr.models[0].closed_base() or tr.rev):
            continue
        if k == "verts" and (len(op) == 3) != tr.models[0].closed_base():
            continue
        if k == "reverse" and tr.sampled is None:
            continue
        if flt:
            def dry():
                with sut("dry run of " + what):
                    return faults.choose(faults.dry(lambda: call(tr.e, op, quads))[1], flt[1], flt[2])
            at = core.isolated(dry)      # in a process of its own, so that nothing is left behind here
            if at is None:
                flt = None
        res = None
        if flt:
            with sut(what):
                st, res = faults.interrupted(lambda: call(tr.e, op, quads), at, flt[0], log)
            fired = st == "fault"
        else:
            fired = False
            with sut(what):
                res = call(tr.e, op, quads)
        if k == "param":
            if fired:
                tr.sampled = None      # nothing is promised until the edge is parameterized again
            else:
                tr.sampled, tr.rev = (op[1], op[2]), False
        elif k == "deparam":
            tr.sampled = None
            if not fired:
                if tr.e.is_parameterized:
                    raise Violation("deparam", what)
                refusals(tr, what)
        elif k == "reverse":
            tr.rev = not tr.rev
        elif k == "copy":
            if not fired:
                tracks.append(tr.twin(res)); log.probe("copies")
                cur = len(tracks) - 1 if step % 2 else cur
                compare(tracks[-1], qt, log, what + " (copy)")
        else:
            new = []
            for mm in tr.models:
                z = mm.copy(); z.apply(op); new.append(z)
            if fired:
                tr.models = tr.models + new
                tr.sampled = None
            else:
                tr.models = new
            if k == "verts" and not fired:
                tr.sampled = None      # endpoints were changed; the sample is of the old curve until re-parameterized
            log.probe("transformations")
        if fired:
            # recovery: the caller repeats or abandons the sampling; only then is anything promised again
            with sut("recovery after " + what):
                tr.e.deparameterize()
                if k != "deparam" and step % 3:
                    tr.e.parameterize(quads(5, 3))
                    tr.sampled, tr.rev = (5, 3), False
        for t in tracks:
            compare(t, qt, log, what)
        cap = 8
        if len(tr.models) > cap:
            tr.models = tr.models[-cap:]
    # every surviving edge, parameterized afresh, still follows its own history
    for t in tracks:
        if t.sampled is None:
            with sut("final parameterize"):
                t.e.parameterize(quads(6, 3))
            t.sampled, t.rev = (6, 3), False
            compare(t, qt, log, "final")
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("transformations", 0) >= 1 and res["probes"].get("comparisons", 0) >= 2


def shrink(case):
    for c in core.shrink_lists(case, ["ops"]):
        if c["ops"]:
            yield c
    for i, o in enumerate(case["ops"]):
        if o[0]:
            yield dict(case, ops=case["ops"][:i] + [[None] + o[1:]] + case["ops"][i + 1:])
    if case["tb"]:
        yield dict(case, tb=None)
