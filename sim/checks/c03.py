"""C03: what is observable about a sampled cell depends only on the mesh and the quadrature, not on the history."""
import warnings
import copy
import numpy as np
from .. import core, world
from ..core import Violation, sut
from ..model_cell import check_cell, ref_cell, set_grid

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 12000}
NEED_JIT = False
RULE = ("one simulated run: a random (or library) mesh with edges listed in random order and direction, a random history of sampling, un-sampling, edge spaces, "
        "function spaces, queries, copies and rejected calls over cells and edges shared between cells; after every sampling the cell is compared with the "
        "geometry model and with a fresh copy in a pristine process; counted if a cell was compared after at least one earlier operation on the mesh; distinct event logs")
REAL = ["PlanarMesh", "MeshCell", "ClosedContour", "Edge", "Quad", "EdgeSpace", "GlobalFunctionSpace"]
STUB = ["default interior grid 7x7 instead of 33x33"]
ASSUMPTIONS = ["a sampled cell is read before another operation re-samples its edges (later use is C17)", "deviations below 1e-8 relative are not reported"]

LIB = [dict(lib="square_circular_hole"), dict(lib="pegboard", kw=dict(size=[2, 1], radius=.2)), dict(lib="pegboard", kw=dict(size=[2, 2])), dict(lib="pacman"), dict(lib="pacman_subdiv")]


def gen_q(rng):
    return [rng.choice([4, 4, 5, 6, 8]), rng.choice([2, 3, 5, 7])]


def gen(rng, i, tier):
    if rng.random() < .12:
        spec = dict(rng.choice(LIB)); ncell, nedge = 4, 8
    elif rng.random() < .04:
        spec = world.thin_spec(rng); ncell, nedge = 1, 4
    else:
        spec = world.gen_spec(rng, splines=rng.choice([0, 0, .3]), max_holes=rng.choice([1, 2, 3, 4]) if rng.random() < .5 else 1); ncell, nedge = len(world.cells_of(spec)), len(spec["edges"])
    qs = [gen_q(rng) for _ in range(rng.choice([1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 9])):
        r = rng.random()
        c, q = rng.randrange(ncell + 3), rng.randrange(len(qs))
        if r < .45: ops.append(["param", c, q, int(rng.random() < .35)])
        elif r < .55: ops.append(["deparam", c])
        elif r < .62: ops.append(["get", c])
        elif r < .70: ops.append(["eparam", rng.randrange(nedge), q, int(rng.random() < .4)])
        elif r < .75: ops.append(["edeparam", rng.randrange(nedge)])
        elif r < .80: ops.append(["espace", rng.randrange(nedge), q, rng.choice([1, 2])])
        elif r < .83: ops.append(["gspace", q, rng.choice([1, 2])])
        elif r < .87: ops.append(["copy"])
        elif r < .885: ops.append(["grid", c, rng.choice([[4, 7], [9, 5], [6, 6], [8, 8, .05, .01], [5, 6, .001, .08], [3, 11]])])
        elif r < .945: ops.append(["query", c, rng.choice(["all", "all", "points", "inside", "dist", "fun", "integrate", "bbox"])])
        else: ops.append(["bad", c, rng.choice(["quad", "cell", "size"])])
    ops.append(["param", rng.randrange(ncell), rng.randrange(len(qs)), int(rng.random() < .3)])
    return dict(spec=spec, qs=qs, ops=ops)


def quad_state(q):
    return {k: [np.array(q[k].t), np.array(q[k].wgt), q[k].n, float(q[k].h)] for k in ("trap", "kress")}


def piecewise(K, what):
    """A piecewise polynomial along the boundary: on every edge the values of its piece at the sampled points."""
    E = K.get_edges()
    terms = [[(1.0 + k, 1, 0), (-2.0, 0, k % 3), (.5 * k, 1, 1)] for k in range(len(E))]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")      # (deprecated, but still offered)
        got = world.pf.PiecewisePolynomial(num_polys=len(E), polys=[world.pf.Polynomial(t) for t in terms]).eval_on_mesh_boundary(K)
    want = []
    for e, t in zip(E, terms):
        x, y = e.get_sampled_points(ignore_endpoint=False)
        want.append(sum(c * x ** a * y ** b for c, a, b in t))
    core.must_equal("piecewise", got, np.concatenate(want), 1e-11, what + ": piecewise polynomial along the boundary")


def run(case):
    log = core.Log()
    pf, spec = world.pf, case["spec"]
    model = "lib" not in spec
    with sut("building the mesh"):
        mesh = world.build(spec)
    quads = [pf.get_quad_dict(n=n, p=p) for n, p in case["qs"]]
    q0 = [quad_state(q) for q in quads]
    # every third history makes its quadratures for one sampling only, so that their places in memory are used again
    brief = len(case["ops"]) % 3 == 0
    places = set()

    def Q(q):
        if not brief:
            return quads[q]
        others = []
        for _ in range(40):
            d = pf.get_quad_dict(n=case["qs"][q][0], p=case["qs"][q][1])
            if not places or id(d["kress"]) in places:
                break
            others.append(d)        # keep that place taken, try the next
        else:
            places.clear()
        log.probe("places-used-again", int(bool(places)))
        places.clear(); places.add(id(d["kress"]))
        return d
    ids = list(mesh.cell_idx_list)
    topo = lambda m: [list(m.cell_idx_list), list(m.vert_idx_list), m.num_edges, [e.idx for e in m.edges], [[e.pos_cell_idx, e.neg_cell_idx] for e in m.edges]]
    t0, keep = topo(mesh), []
    if model and ids != world.cells_of(spec):
        raise Violation("cells", f"cells {ids}, should be {world.cells_of(spec)}")
    with sut("get_cell"):
        pool = [mesh.get_cell(c) for c in ids]
    refs, n, touched, meshes, grids = {}, 0, False, [mesh], {}

    def pristine(c, q, interior):
        grid = grids.get(id(c))
        key = (c.idx, tuple(q), interior, repr(grid))
        if key not in refs:
            refs[key] = ref_cell(spec, c.idx, q, interior, grid, True)
        return refs[key]

    for j, op in enumerate(case["ops"]):
        what = f"op {j} {op}"
        if op[0] == "param":
            K, q = pool[op[1] % len(pool)], op[2] % len(quads)
            with sut(what):
                K.parameterize(Q(q), compute_interior_points=bool(op[3]))
            o = check_cell(K, spec, K.idx, case["qs"][q], what, bool(op[3])) if model else world.obs_cell(K, bool(op[3]))
            with sut(what):     # whatever a caller does with the answers
                asked = [world.queries(K, True), world.queries(K)]
                piecewise(K, what)
                str(mesh), str(quads[q]["kress"]), [(str(e), str(e.anchor)) for e in mesh.edges]
            want = pristine(K, case["qs"][q], bool(op[3]))
            core.must_equal("history", o, want[0], 1e-9, f"{what} (cell {K.idx}) against a fresh copy:")
            for a in asked:
                core.must_equal("query", a, want[1], 1e-9, f"{what} (cell {K.idx}), asked, against a fresh copy:")
            log.ev(j, core.digest(o))
            log.probe("cells-compared")
            if touched: log.probe("cells-compared-after-history")
        elif op[0] == "deparam":
            K = pool[op[1] % len(pool)]
            before = [e.is_parameterized for e in mesh.edges]
            with sut(what):
                K.deparameterize()
            mine = {id(e) for e in K.get_edges()}
            after = [e.is_parameterized for e in mesh.edges]
            want = [b and id(e) not in mine for b, e in zip(before, mesh.edges)]
            if after != want:
                raise Violation("unsampled", f"{what}: edges {[k for k in range(len(want)) if want[k] != after[k]]} are wrongly {'sampled' if any(after[k] for k in range(len(want)) if want[k] != after[k]) else 'un-sampled'}")
            log.probe("unsampled-edges", len(mine))
        elif op[0] == "get":
            with sut(what):
                pool.append(mesh.get_cell(ids[op[1] % len(ids)]))
        elif op[0] == "eparam":
            e = mesh.edges[op[1] % len(mesh.edges)]
            with sut(what):
                e.parameterize(Q(op[2] % len(quads)))
                if op[3]: e.reverse_orientation()
        elif op[0] == "edeparam":
            with sut(what):
                mesh.edges[op[1] % len(mesh.edges)].deparameterize()
        elif op[0] == "espace":
            e = mesh.edges[op[1] % len(mesh.edges)]
            with sut(what):
                e.parameterize(Q(op[2] % len(quads)))
                pf.EdgeSpace(e, op[3])
        elif op[0] == "gspace":
            with sut(what):
                pf.GlobalFunctionSpace(mesh, op[2], Q(op[1] % len(quads)), verbose=False)
        elif op[0] == "copy":
            with sut(what):
                old = pool
                mesh, pool = copy.deepcopy((mesh, pool))
                grids.update({id(k): grids[id(o)] for k, o in zip(pool, old) if id(o) in grids}); keep.append(old)
            meshes.append(mesh)
        elif op[0] == "grid":
            K = pool[op[1] % len(pool)]
            with sut(what):
                set_grid(K, op[2])
            grids[id(K)] = op[2] if len(op[2]) > 2 else op[2] + (grids.get(id(K)) or [])[2:]
        elif op[0] == "query":
            K = pool[op[1] % len(pool)]
            try:
                if op[2] == "all": world.queries(K, True)
                elif op[2] == "points": K.get_boundary_points(); K.get_unit_normal(); K.get_unit_tangent()
                elif op[2] == "inside": K.is_in_interior(np.array([.2, .5]), np.array([.1, .4]))
                elif op[2] == "dist": K.get_distance_to_boundary(.2, .1)
                elif op[2] == "fun": K.evaluate_function_on_boundary(lambda x, y: x * y)
                elif op[2] == "integrate": K.integrate_over_boundary(np.ones((K.num_pts,)))
                else: K.get_bounding_box()
            except Exception as e:  # a query of a cell that is not (consistently) sampled may be refused
                log.ev(j, "refused", type(e).__name__)
        elif op[0] == "bad":
            K = pool[op[1] % len(pool)]
            try:
                if op[2] == "quad": K.parameterize({})
                elif op[2] == "cell": mesh.get_cell(99)
                else: K.integrate_over_boundary(np.ones((3,)))
            except Exception:
                log.fault("rejected-request")
        touched = True
    for m in meshes:
        core.must_equal("topology", topo(m), t0, 0, "mesh tables changed:")
    core.must_equal("quadrature", [quad_state(q) for q in quads], q0, 0, "a quadrature object changed:")
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("cells-compared-after-history", 0) >= 1


def shrink(case):
    for c in core.shrink_lists(case, ["ops"]):
        if c["ops"]:
            yield c
    if "lib" not in case["spec"]:
        # drop whole holes / cells is not structure-preserving; try single-cell meshes by erasing holes of loops only
        E = case["spec"]["edges"]
        for k, e in enumerate(E):
            if e["a"] == e["b"] and e["pos"] < 0 or e["a"] == e["b"] and e["neg"] < 0:
                yield dict(case, spec=dict(case["spec"], edges=E[:k] + E[k + 1:]))
        for k, e in enumerate(E):
            if e["curve"] == "sine_wave":
                yield dict(case, spec=dict(case["spec"], edges=E[:k] + [dict(e, curve="line", opts={})] + E[k + 1:]))
    for k, op in enumerate(case["ops"]):
        if op[0] == "param" and op[3]:
            yield dict(case, ops=case["ops"][:k] + [op[:3] + [0]] + case["ops"][k + 1:])
