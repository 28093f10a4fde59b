"""C04: an interrupted geometry operation can simply be repeated."""
import numpy as np
from .. import core, faults, seams, world
from ..core import Violation, sut
from ..model_cell import edge_models, ref_cell
from ..model_curve import quad_nodes

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 12000}
NEED_JIT = False
CASE_TIMEOUT = 240
RULE = ("one simulated run: a random mesh and a seeded history of building meshes and cells, sampling and un-sampling edges, contours and cells and generating interior points, in which calls are cut short "
        "(exception at a seeded library statement, or failing evaluation of a curve), then repeated, at once or after other work; each repeated call and all other cells sampled at the time "
        "are compared with fresh copies in a pristine process, edges with an independent curve model; counted if a fault hit and a repeated call was compared; distinct event logs")
REAL = ["PlanarMesh", "MeshCell", "ClosedContour", "Edge", "Quad", "edgelib"]
STUB = ["default interior grid 7x7 instead of 33x33", "a curve evaluation raises when told to"]
ASSUMPTIONS = ["interrupts and allocation failures arrive at library statements outside except/finally bodies", "a cell is read while its edges carry its quadrature and none of its contours was sampled separately with another one"]


def gen_fault(rng):
    if rng.random() < .18:
        return ["curve", rng.random()]
    return [rng.choice(["interrupt", "nomem"]), rng.random(), rng.random()]


def gen(rng, i, tier):
    spec = world.gen_spec(rng, splines=rng.choice([0, 0, .3]), max_holes=rng.choice([1, 2, 2, 3]) if rng.random() < .6 else 1)
    nc, ne = len(world.cells_of(spec)), len(spec["edges"])
    qs = [[rng.choice([4, 5, 6]), rng.choice([2, 3, 5])]]
    if rng.random() < .5:
        qs.append([rng.choice([4, 7, 8]), rng.choice([3, 7])])
    ops = []
    F = lambda p=.6: [gen_fault(rng) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < p else []
    for _ in range(rng.choice([2, 3, 5, 8])):
        r, c, q = rng.random(), rng.randrange(nc + 2), rng.randrange(len(qs))
        later = int(rng.random() < .25)
        if r < .48: op = ["param", c, q, int(rng.random() < .35), F(), later]
        elif r < .56: op = ["deparam", c, F(), later]
        elif r < .62: op = ["get", c, F(), later]
        elif r < .72: op = ["eparam", rng.randrange(ne), q, F(), later]
        elif r < .77: op = ["edeparam", rng.randrange(ne), F(), later]
        elif r < .86: op = ["contour", c, rng.randrange(3), q, F(), later]
        elif r < .94: op = ["interior", c, F(.8), later]
        else: op = ["mesh", F(.8), later]
        ops.append(op)
    return dict(spec=spec, qs=qs, ops=ops, build=F(.3))


def disturbed(fn, f, log):
    """Run fn once under the fault: ("ok"|"swallowed", result) or ("fault", where)."""
    if f[0] == "curve":
        fs = seams.curve_functions()

        def with_failure(at):
            tot = []

            def failing(g):
                def call(*a, **k):
                    tot.append(1)
                    if len(tot) == at:
                        raise FloatingPointError("injected failure of a curve evaluation")
                    return g(*a, **k)
                return call
            with seams.replaced([(g, failing(g)) for g in fs]):
                try:
                    return len(tot), ("ok", fn())
                except FloatingPointError as e:
                    if "injected" not in str(e):
                        raise
                    return len(tot), ("fault", "curve evaluation")
                finally:
                    with_failure.n = len(tot)

        def count():
            with_failure(None)
            return with_failure.n
        n = core.isolated(count)
        if not n:
            return "ok", fn()
        _, r = with_failure(min(int(f[1] * n), n - 1) + 1)
        if r[0] == "fault":
            log.fault("failed-curve-evaluation"); log.ev("fault", "curve", n)
        return r
    at = core.isolated(lambda: faults.choose(faults.dry(fn, hot=True)[1], f[1], f[2]))
    if at is None:
        return "ok", fn()
    return faults.interrupted(fn, at, f[0], log, hot=True)


class Cell:
    """A MeshCell with what it should look like (q = None: not sampled)."""

    def __init__(self, K):
        self.K, self.q, self.interior = K, None, False


def topo(m):
    return [list(m.cell_idx_list), list(m.vert_idx_list), m.num_edges, m.num_cells, m.num_verts, [e.idx for e in m.edges], [[e.pos_cell_idx, e.neg_cell_idx] for e in m.edges]]


def cell_topo(K):
    return [K.idx, K.num_edges, K.num_holes, sorted(sorted(e.idx for e in c.edges) for c in K.components)]


def obs_contour(c):
    x, y = c.get_sampled_points()
    one, z = np.ones((c.num_pts,)), np.zeros((c.num_pts,))
    return dict(n=c.num_pts, x=x, y=y, t=[c.dot_with_tangent(one, z), c.dot_with_tangent(z, one)], nrm=[c.dot_with_normal(one, z), c.dot_with_normal(z, one)], dx=c.multiply_by_dx_norm(one),
                v=list(map(int, c.vert_idx)), near=np.array(c.closest_vert_idx), p=[c.interior_point.x, c.interior_point.y])


def ref_contour(spec, c, edges, q):
    def go():
        K = world.build(spec).get_cell(c)
        comp = next(k for k in K.components if sorted(e.idx for e in k.edges) == edges)
        comp.parameterize(world.pf.get_quad_dict(n=q[0], p=q[1]))
        return obs_contour(comp)
    return core.isolated(go)


def flipped(o):
    return dict(x=o["x"][:, ::-1], t=-o["t"][:, ::-1], nrm=-o["nrm"][:, ::-1], dx=o["dx"][::-1], curv=-o["curv"][::-1])


def run(case):
    log = core.Log()
    pf, spec = world.pf, case["spec"]
    quads = [pf.get_quad_dict(n=n, p=p) for n, p in case["qs"]]
    want_mesh, want_cells = core.isolated(lambda: (lambda m: (topo(m), {c: cell_topo(m.get_cell(c)) for c in m.cell_idx_list}))(world.build(spec)))
    es = world.build(spec, mesh=False)
    models = edge_models(spec)
    refs = {}
    edge_q = {}
    pool = []
    hits = 0

    def once(key, make):
        k = repr(key)
        if k not in refs: refs[k] = make()
        return refs[k]

    def with_faults(what, fn, fs, touch, later=False):
        """Returns ("done", result), or None when the operation was cut short and is left for later."""
        nonlocal hits
        for f in fs:
            with sut(what), world.mute():
                tag, r = disturbed(fn, f, log)
            if tag != "fault":
                return ("done", r)
            hits += 1
            touch()
            if later:
                return None
        with sut(what + (" (repeated)" if fs else "")), world.mute():
            return ("done", fn())

    def check_cells(what):
        for n, c in enumerate(pool):
            if c.q is None or any(edge_q.get(e.idx) != c.q for comp in c.K.components for e in comp.edges):
                continue
            with sut(f"{what}: reading cell {c.K.idx}"):
                o = world.obs_cell(c.K, c.interior)
            w = once(("cell", c.K.idx, c.q, c.interior), lambda: ref_cell(spec, c.K.idx, case["qs"][c.q], c.interior))
            core.must_equal("cell", o, w, 1e-9, f"{what}: cell {c.K.idx} (object {n}):")
            log.probe("cells-compared")

    r = with_faults("PlanarMesh()", lambda: pf.PlanarMesh(es, verbose=False), case["build"], lambda: None)
    mesh = r[1]
    core.must_equal("mesh", topo(mesh), want_mesh, 0, "PlanarMesh():")
    ids = list(mesh.cell_idx_list)
    with sut("get_cell"):
        pool = [Cell(mesh.get_cell(c)) for c in ids]

    def edges_of(c):
        return [e for comp in c.K.components for e in comp.edges]

    def lose(es, c=None):
        def go():
            for e in es: edge_q[e.idx] = None
            if c is not None: c.q = None
        return go

    for j, op in enumerate(case["ops"] + [["param", k, 0, k % 2, [], 0] for k in range(len(ids))]):
        what = f"op {j} {op}"
        fs, later = op[-2], op[-1]
        if op[0] == "param":
            c, q = pool[op[1] % len(pool)], op[2] % len(quads)
            r = with_faults(what, lambda: c.K.parameterize(quads[q], compute_interior_points=bool(op[3])), fs, lose(edges_of(c), c), later)
            if r:
                for e in edges_of(c): edge_q[e.idx] = q
                c.q, c.interior = q, bool(op[3])
        elif op[0] == "deparam":
            c = pool[op[1] % len(pool)]
            r = with_faults(what, lambda: c.K.deparameterize(), fs, lose(edges_of(c), c), later)
            lose(edges_of(c), c)()
            if r and any(e.is_parameterized for e in edges_of(c)):
                raise Violation("deparameterize", f"{what}: edges are still sampled")
        elif op[0] == "get":
            k = ids[op[1] % len(ids)]
            r = with_faults(what, lambda: mesh.get_cell(k), fs, lambda: None, later)
            if r:
                core.must_equal("cell-topology", cell_topo(r[1]), want_cells[k], 0, what)
                pool.append(Cell(r[1]))
        elif op[0] in ("eparam", "edeparam"):
            e = mesh.edges[op[1] % len(mesh.edges)]
            if op[0] == "eparam":
                q = op[2] % len(quads)
                r = with_faults(what, lambda: e.parameterize(quads[q]), fs, lose([e]), later)
                if r:
                    edge_q[e.idx] = q
                    kind = spec["edges"][e.idx]["quad"]
                    t, w = quad_nodes(kind, *case["qs"][q])
                    o = world.obs_edge(e); o = {a: o[b] for a, b in (("x", "x"), ("t", "t"), ("nrm", "nrm"), ("dx", "dx"), ("curv", "curv"))}
                    m = models[e.idx].sample(t, w)
                    m = {a: m[a] for a in o}
                    d = core.diff(o, m, 1e-8)
                    if d and core.diff(flipped(o), m, 1e-8):
                        raise Violation("edge", f"{what}: {d}")
            else:
                r = with_faults(what, lambda: e.deparameterize(), fs, lose([e]), later)
                lose([e])()
                if r and e.is_parameterized:
                    raise Violation("deparameterize", f"{what}: the edge is still sampled")
        elif op[0] == "contour":
            c, q = pool[op[1] % len(pool)], op[3] % len(quads)
            comp = sorted(c.K.components, key=lambda k: sorted(e.idx for e in k.edges))[op[2] % len(c.K.components)]
            r = with_faults(what, lambda: comp.parameterize(quads[q]), fs, lose(comp.edges, c), later)
            if r:
                for e in comp.edges: edge_q[e.idx] = q
                if c.q != q: c.q = None          # its contours now disagree until the cell is sampled again
                idx = sorted(e.idx for e in comp.edges)
                with sut(what):
                    o = obs_contour(comp)
                core.must_equal("contour", o, once(("contour", c.K.idx, idx, q), lambda: ref_contour(spec, c.K.idx, idx, case["qs"][q])), 1e-9, what)
        elif op[0] == "interior":
            c = pool[op[1] % len(pool)]
            if c.q is None or any(edge_q.get(e.idx) != c.q for e in edges_of(c)):
                continue

            def lost(c=c):
                c.interior = False
            r = with_faults(what, lambda: c.K.generate_interior_points(), fs, lost, later)
            c.interior = bool(r)
        elif op[0] == "mesh":
            r = with_faults(what, lambda: pf.PlanarMesh(es, verbose=False), fs, lambda: None, later)
            if r:
                mesh = r[1]
                core.must_equal("mesh", topo(mesh), want_mesh, 0, what)
        check_cells(what)
        if r and fs:
            log.probe("compared-after-fault")
        log.ev(j, op[0], bool(r))
    log.probe("faults-hit", hits)
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("faults-hit", 0) >= 1 and res["probes"].get("cells-compared", 0) >= 1


def shrink(case):
    yield from core.shrink_lists(case, ["ops", "build"])
    for k, op in enumerate(case["ops"]):
        for q in range(len(op[-2])):
            yield dict(case, ops=case["ops"][:k] + [op[:-2] + [op[-2][:q] + op[-2][q + 1:], op[-1]]] + case["ops"][k + 1:])
        if op[-1]:
            yield dict(case, ops=case["ops"][:k] + [op[:-1] + [0]] + case["ops"][k + 1:])
    E = case["spec"]["edges"]
    for k, e in enumerate(E):
        if e["a"] == e["b"] and min(e["pos"], e["neg"]) < 0:
            yield dict(case, spec=dict(case["spec"], edges=E[:k] + E[k + 1:]))
