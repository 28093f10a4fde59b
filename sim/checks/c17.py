"""C17: what was built on one cell stays valid while other cells are worked on."""
import numpy as np
from .. import core, local_ops as lo, plots, problem as pr, world
from ..core import Violation, must_equal, sut

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 180, "thorough": 6000}
NEED_JIT = True
CASE_TIMEOUT = 300
RULE = ("one simulated run: a random mesh of 2-6 cells sharing edges in both directions (neighbours, filled holes) and a seeded interleaving of sampling cells, creating integral-equation solvers, traces, local "
        "functions and local spaces on them, using what was created earlier (inner products, sums, interior values, conjugates, new functions for old traces), building global spaces, assembling, using the "
        "local spaces kept by the solver, and plotting, each step on any cell, all with one quadrature, some steps interrupted at a seeded statement; every result is compared with the same steps of that cell "
        "alone in a pristine process; counted if a cell's objects were used at least twice after work on a neighbour sharing an edge; distinct event logs")
REAL = ["mesh layer", "NystromSolver", "local functions and spaces", "GlobalFunctionSpace", "Solver", "plots (Agg)"]
STUB = ["plt.show only records", "default interior grid 7x7", "dpi 50"]
ASSUMPTIONS = ["building a global space leaves all edges unsampled: using objects of a cell may then raise until that cell is sampled again (never give other values)", "values agree to 1e-9 relative", "an interrupted step on one cell is followed by sampling that cell again"]


ACC = ["points", "tangent", "normal", "dx", "dot_t", "dot_n", "mul_dx", "int", "int_dx", "eval", "dist", "inside", "bbox", "area", "edges"]


def access(K, name, m):
    """One single accessor of a sampled cell, with values that depend on the position along the boundary."""
    v = np.cos(m * np.arange(K.num_pts))
    if name == "edges" and not K.is_parameterized():
        raise RuntimeError("the edges are not sampled")     # nothing to compare; what an accessor of the cell does in this state
    f = lambda x, y: np.sin(m * x) + y * y
    return {"points": lambda: K.get_boundary_points(), "tangent": lambda: K.get_unit_tangent(), "normal": lambda: K.get_unit_normal(), "dx": lambda: K.get_dx_norm(), "dot_t": lambda: K.dot_with_tangent(v, v[::-1]),
            "dot_n": lambda: K.dot_with_normal(v, v[::-1]), "mul_dx": lambda: K.multiply_by_dx_norm(v), "int": lambda: K.integrate_over_boundary(v), "int_dx": lambda: K.integrate_over_boundary_preweighted(v),
            "eval": lambda: K.evaluate_function_on_boundary(f), "dist": lambda: K.get_distance_to_boundary(.3 + .1 * m, .4), "inside": lambda: K.is_in_interior(np.linspace(0, 1, 7 + m), np.linspace(.1, .9, 7 + m)),
            "bbox": lambda: [float(x) for x in K.get_bounding_box()], "area": lambda: float(K.integrate_over_boundary_preweighted(K.multiply_by_dx_norm(K.dot_with_normal(*K.get_boundary_points())))),
            "edges": lambda: [[e.idx, np.array(e.x), np.array(e.unit_tangent), np.array(e.curvature)] for e in K.get_edges()]}[name]()


def gen_spec(rng):
    for _ in range(80):
        s = world.gen_spec(rng, cells=rng.choice([(2, 1), (1, 2), (1, 1), (2, 1), (2, 2)]), max_holes=rng.choice([0, 1, 1]), curved=.4, splines=.3)
        n = len(world.cells_of(s))
        if 2 <= n <= 6 and len(s["edges"]) <= 17:
            return s
    return s


def gen(rng, i, tier):
    spec = gen_spec(rng)
    cells = world.cells_of(spec)
    ops = []
    active = rng.sample(cells, min(len(cells), rng.choice([2, 2, 2, 3])))
    for c in active:
        ops += [["on", c, ["nyst", rng.choice(["fft", "fft", "direct"])]], ["on", c, ["trace", lo.gen_trace(rng)]], ["on", c, ["fun", 0, pr.poly_terms(rng, 2) if rng.random() < .7 else None, 0, int(rng.random() < .4), 0]]]
    tail = []
    for _ in range(rng.choice([5, 7, 9, 12])):
        r, c = rng.random(), rng.choice(active)
        if r < .5: tail.append(["on", c, lo.gen_op(rng)])
        elif r < .60: tail.append(["on", c, ["tset", rng.randrange(4), rng.choice(["poly", "fun"]), rng.choice(["sin", "exp", "prod"]), pr.poly_terms(rng, 2)]])
        elif r < .74:
            tail.append(["param", rng.choice(cells), int(rng.random() < .3)])
            if rng.random() < .6: tail.append(["acc", c, rng.choice(ACC), rng.randint(1, 4)])
        elif r < .80: tail.append(["look", c] if rng.random() < .3 else ["acc", c, rng.choice(ACC), rng.randint(1, 4)])
        elif r < .83: tail.append(["meshplot", int(rng.random() < .4)])
        elif r < .88: tail.append(["space"])
        elif r < .94: tail.append(["assemble"])
        elif r < .97: tail.append(["combo", rng.choice(cells)])
        else: tail.append(["gplot"])
    if any(o[0] == "assemble" for o in tail):
        for _ in range(rng.choice([1, 2, 3])):
            c = rng.choice(active)
            tail += [["sfun", c, rng.randrange(12)], ["on", c, ["ip", rng.choice(["h1", "l2"]), 5 - rng.randrange(3), rng.randrange(6), "full"]]]
        if rng.random() < .6: tail += [["combo", c] for c in rng.sample(cells, min(2, len(cells)))]
    # the set-up steps of different cells interleave too
    per = {c: [o for o in ops if o[1] == c] for c in active}
    mixed = []
    while any(per.values()):
        c = rng.choice([c for c in active if per[c]])
        mixed.append(per[c].pop(0))
        if rng.random() < .25: mixed.append(["param", rng.choice(cells), 0])
    hit = {str(rng.randrange(len(mixed) + len(tail))): [rng.choice(["interrupt", "nomem"]), rng.random(), rng.random()] for _ in range(rng.choice([0, 0, 1, 2]))}
    return dict(spec=spec, q=[rng.choice([4, 5, 6]), rng.choice([3, 5])], form=pr.form(rng), ops=mixed + tail, hit=hit, iv=int(rng.random() < .8))


def step(W, o):
    """Callable for a local operation (including setting new functions on an old trace), or None."""
    if o[0] == "tset":
        t = W.pick(W.T, o[1])
        if t is None: return None

        def go():
            t.set_funcs(pr.poly(o[4]) if o[2] == "poly" else lo.FUN[o[3]])
            return "V", world.obs_trace(t)
        return go
    return W.prepare(o)


def alone(case, c):
    """All steps on cell c and nothing else: [(step number, observation)], observation of every object at the end."""
    with world.mute():
        mesh = world.build(case["spec"])
        K, q = mesh.get_cell(c), pr.quad(case["q"])
        K.parameterize(q)
        W, out, basis = lo.World(K), {}, None
        for j, op in enumerate(case["ops"]):
            if op[0] not in ("on", "look", "sfun", "acc") or op[1] != c:
                continue
            if op[0] == "look":
                out[j] = look(K); continue
            if op[0] == "acc":
                out[j] = access(K, op[2], op[3]); continue
            if op[0] == "sfun":
                if basis is None:
                    V = pr.space(mesh, 1, case["q"])
                    K.parameterize(q)
                    basis = V.build_local_function_space(c, verbose=False, compute_interior_values=True, compute_interior_gradient=False).get_basis()
                f = basis[op[2] % len(basis)]
                out[j] = lo.obs_fun(f)
                W.keep("F", f)
                continue
            fn = step(W, op[2])
            if fn is None:
                continue
            kind, r = fn()
            if kind != "V": W.keep(kind, r)
            out[j] = W.obs(kind, r)
        st = W.state()
        st["cell"] = look(K)
        return out, st


def look(K):
    d = world.obs_cell(K)
    d.pop("curv", None)       # read from the edge itself, whose direction is that of the cell used last
    return d


def combos(case):
    with world.mute():
        mesh = world.build(case["spec"])
        V = pr.space(mesh, 1, case["q"])
        S = world.pf.Solver(V, pr.bilinear(case["form"]), verbose=False)
        S.assemble(verbose=False, compute_interior_values=True)
        u = np.cos(np.arange(S.num_funs))
        out = {}
        for c in mesh.cell_idx_list[::-1]:
            mesh.get_cell(c).parameterize(pr.quad(case["q"]))
            out[c] = combo(S, c, u)
        return pr.obs_system(S), out


def combo(S, c, u):
    w = S.compute_linear_combo_on_mesh_cell(c, u)
    return dict(t=np.array(w.get_trace_values()), i=None if w.int_vals is None else np.array(w.int_vals), n=np.array(w.harm.trace.w_norm_deriv))


def neighbours(spec):
    n = {}
    for e in spec["edges"]:
        a, b = e["pos"], e["neg"]
        if a >= 0 and b >= 0 and a != b:
            n.setdefault(a, set()).add(b); n.setdefault(b, set()).add(a)
    return n


def run(case):
    log, pf = core.Log(), world.pf
    ops, near = case["ops"], neighbours(case["spec"])
    active = sorted({o[1] for o in ops if o[0] in ("on", "look", "sfun", "acc")})
    try:
        want = {c: core.isolated(alone, case, c) for c in active}
        sysref = core.isolated(combos, case) if any(o[0] in ("assemble", "combo") for o in ops) else None
    except core.HarnessError as e:
        raise Violation("unexpected-exception", f"alone: {str(e)[:1500]}")
    with world.mute():
        mesh = world.build(case["spec"])
        q = pr.quad(case["q"])
        Ws, V, S, Ks = {}, None, None, {}
        fresh, dirty, used, was = set(), set(), 0, set()
        # fresh: cells whose edges are sampled; dirty: cells whose neighbour was worked on since their objects were made

        def touched(c):
            for d in near.get(c, ()):
                if d in Ws: dirty.add(d)

        def sample(c, interior=True):
            with sut(f"sampling cell {c}"):
                Ks.setdefault(c, mesh.get_cell(c)).parameterize(q, compute_interior_points=interior)
            fresh.add(c); touched(c)

        def world_of(c):
            if c not in Ws:
                sample(c)
                Ws[c] = lo.World(Ks[c])
            return Ws[c]

        def guarded(what, c, fn, j):
            """Run fn; after a global space was built it may demand that the cell be sampled again."""
            h = case["hit"].get(str(j))
            if h:
                n, sites = core.isolated(lambda: _dry(fn))
                from .. import faults
                at = faults.choose(sites, h[1], h[2])
                if at is not None:
                    try:
                        tag, r = faults.interrupted(fn, at, h[0], log, hot=True)
                    except Exception:  # noqa: BLE001
                        if c in fresh: raise
                        tag = "unsampled"
                    log.ev(j, "hit", tag)
                    if tag == "ok":
                        return r
                    sample(c)
                    with sut(what + " (after an interrupted attempt)"):
                        return fn()
            if c in fresh:
                with sut(what):
                    return fn()
            try:
                with sut(what, allow=(Exception,)):
                    return fn()
            except (Violation, core.HarnessError):
                raise
            except Exception as e:  # noqa: BLE001
                log.ev(j, "unsampled", type(e).__name__)
            log.probe("sampled-again")
            sample(c)
            with sut(what + " (cell sampled again)"):
                return fn()

        for j, op in enumerate(ops):
            what = f"step {j} {op}"
            if op[0] == "param":
                sample(op[1], bool(op[2]) or op[1] in Ws)
            elif op[0] == "meshplot":
                with sut(what):
                    pf.plot.MeshPlot(mesh.edges, reparameterize=bool(op[1])).draw(show_plot=False)
                if not op[1] and not fresh:
                    for e in mesh.edges:        # drawn unsampled edges get sampled for the picture only: no contract, sample again
                        if e.is_parameterized: e.deparameterize()
                    for c in list(Ws): sample(c)
            elif op[0] == "space":
                with sut(what):
                    V = pr.space(mesh, 1, case["q"])
                fresh.clear(); dirty |= set(Ws)
            elif op[0] == "assemble":
                with sut(what):
                    if V is None:
                        V = pr.space(mesh, 1, case["q"]); fresh.clear()
                    S = pf.Solver(V, pr.bilinear(case["form"]), verbose=False)
                    S.assemble(verbose=False, compute_interior_values=True)
                fresh |= set(mesh.cell_idx_list); dirty |= set(Ws)
                must_equal("system", pr.obs_system(S), sysref[0], 1e-8, what)
            elif op[0] in ("combo", "gplot"):
                if S is None: continue
                u = np.cos(np.arange(S.num_funs))
                if op[0] == "gplot":
                    if len(fresh) == len(mesh.cell_idx_list):
                        with sut(what):
                            pf.plot.GlobalFunctionPlot(S, u).draw(show_plot=False)
                        dirty |= set(Ws)
                    continue
                got = guarded(what, op[1], lambda: combo(S, op[1], u), j)
                must_equal("combination", got, sysref[1][op[1]], 1e-8, what)
                touched(op[1]); used += 1
            elif op[0] == "acc":
                if op[1] not in Ws: world_of(op[1])
                got = guarded(what, op[1], lambda: access(Ks[op[1]], op[2], op[3]), j)
                must_equal("cell", got, want[op[1]][0][j], 1e-9, what)
                used += op[1] in dirty; touched(op[1])
            elif op[0] == "look":
                if op[1] not in Ws: world_of(op[1])
                got = guarded(what, op[1], lambda: look(Ks[op[1]]), j)
                must_equal("cell", got, want[op[1]][0][j], 1e-9, what)
                used += op[1] in dirty
            elif op[0] == "sfun":
                c = op[1]
                W = world_of(c)
                if j not in want[c][0]: continue
                if S is None or not case["iv"]:
                    if V is None: V = pr.space(mesh, 1, case["q"]); fresh.clear(); dirty |= set(Ws)
                    with sut(what):
                        L = V.build_local_function_space(c, verbose=False, compute_interior_values=True, compute_interior_gradient=False)
                    fresh.add(c)
                else:
                    L = S.local_function_spaces[mesh.get_abs_cell_idx(c)]
                f = L.get_basis()[op[2] % len(L.get_basis())]
                must_equal("basis", lo.obs_fun(f), want[c][0][j], 1e-8, what)
                W.keep("F", f)
                touched(c)
            else:
                c = op[1]
                W = world_of(c)
                fn = step(W, op[2])
                if (fn is None) != (j not in want[c][0]):
                    raise core.HarnessError(f"{what}: operands differ from the reference")
                if fn is None:
                    continue
                if op[2][0] in ("tset", "trace") and c not in fresh:
                    sample(c)         # new functions are not evaluated while the edges are unsampled
                kind, r = guarded(what, c, fn, j)
                if kind != "V": W.keep(kind, r)
                must_equal("result", W.obs(kind, r), want[c][0][j], 1e-8, f"{what} (cells worked on so far: {sorted(map(str, was))})")
                used += c in dirty
                touched(c)
                log.probe("compared")
            was.add(op[1] if op[0] in ("on", "param", "sfun", "combo") else op[0])
            log.ev(j, op[0], op[1] if len(op) > 1 and isinstance(op[1], int) else None)
        for c, W in sorted(Ws.items()):
            if c not in want: continue
            if c not in fresh: sample(c)
            st = W.state(); st["cell"] = look(W.K)
            must_equal("kept", st, want[c][1], 1e-8, f"everything kept on cell {c} at the end:")
    log.probe("used-after-neighbour", used)
    return log.result()


def _dry(fn):
    from .. import faults
    try:
        n, sites = faults.dry(fn, hot=True)
    except Exception:  # noqa: BLE001
        return 0, []
    return n, [s if s and not s[0].startswith(core.VERIF) else None for s in sites]


def nontrivial(case, res):
    return res["probes"].get("used-after-neighbour", 0) >= 2


def shrink(case):
    ops = case["ops"]
    for k in range(len(ops) - 1, -1, -1):
        hit = {str(int(a) - (int(a) > k)): v for a, v in case["hit"].items() if int(a) != k}
        yield dict(case, ops=ops[:k] + ops[k + 1:], hit=hit)
    for a in case["hit"]:
        yield dict(case, hit={b: v for b, v in case["hit"].items() if b != a})
