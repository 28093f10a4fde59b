"""C16: results depend only on the arguments, never on the surroundings; process-wide settings stay untouched."""
import gc, os, shutil, tempfile
import numpy as np
from . import c11
from .. import ambient, core, plots, problem as pr, world
from ..core import Violation

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 140, "thorough": 5000}
NEED_JIT = True
CASE_TIMEOUT = 300
RULE = ("one simulated run: a seeded sequence of building meshes (random and from the mesh library), edges, quadratures, polynomials, sampled cells, local functions, function spaces, linear systems and plots, "
        "executed once in a pristine process and once in another interpreter with its own hash seed and heap contents under seeded surroundings: states of the random generators, a simulated clock that "
        "jumps, identities of objects, working directory (also deleted), garbage collection (always, never, frozen), contents of uninitialised memory, floating-point and warning settings, environment "
        "variables, processors and arguments of the process, files of the user named like curves of the library, optimised interpreters, earlier work in the same process, and all of these changed again between operations; every result must agree, and no process-wide setting may be changed by any operation; "
        "counted if at least three aspects of the surroundings differed and ten results were compared; distinct event logs")
REAL = ["all layers of the library", "scipy, numba kernels, matplotlib (Agg)"]
STUB = ["time.* is a simulated clock when so drawn", "id() in library modules and default hashes of library classes are a seeded bijection of the addresses; or identities are reused as soon as an object has died", "np.empty/np.empty_like called by the library are filled with seeded values; the C heap with a seeded byte pattern",
        "default interior grid 7x7", "dpi 50"]
ASSUMPTIONS = ["values agree to 1e-9 relative, orders, numbers and indices exactly", "pictures agree up to antialiasing noise", "one BLAS thread"]
TIME_NOTE = "the clock is simulated but nothing waits for it"
INTERP = []
LIB = ["pacman", "pacman_subdiv", "pegboard", "square_circular_hole"]


def prepare():
    plots.prepare()
    if not NESTED and not INTERP:  # noqa: F821
        for k in range(len(ambient.TABLE)):
            INTERP.append(ambient.Interpreter(k, ID))


def gen_prog(rng, tier):
    p = c11.gen_problem(rng, tier)
    p["mesh"] = rng.choice([None, None, "random"] + LIB)
    p["big"] = world.gen_spec(rng)
    if rng.random() < .3:
        p["steps"].append(["local", ["space", 3, 0, 0]])
    if rng.random() < .3:
        c = plots.gen_scene(rng, .3)
        p["scene"] = dict(c, reqs=[plots.gen_request(rng, c["glob"], bad=0) for _ in range(rng.choice([1, 2]))])
    return p


def gen(rng, i, tier):
    p = gen_prog(rng, tier)
    pre = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        q = c11.vary(rng, p) if rng.random() < .7 else gen_prog(rng, tier)
        q.pop("scene", None)
        if rng.random() < .4:       # on another cell
            q["spec"]["verts"] = [[round(1.25 * x + .4, 6), round(1.25 * y - .3, 6)] for x, y in q["spec"]["verts"]]
        pre.append(q)
    return dict(prog=p, pre=pre, amb=ambient.gen(rng))


def obs_mesh(m):
    return dict(cells=list(m.cell_idx_list), nv=int(m.num_verts), ne=int(m.num_edges), edges=[[e.idx, e.pos_cell_idx, e.neg_cell_idx, e.anchor.idx, e.endpnt.idx] for e in m.edges],
                on=[[int(k.idx) for k in m.get_cell(c).get_edges()] + [int(k.num_holes) for k in [m.get_cell(c)]] for c in m.cell_idx_list],
                vert=[[float(v.x), float(v.y)] for e in m.edges for v in (e.anchor, e.endpnt)])


def program(p):
    """Yields (step, observation)."""
    if p.get("mesh"):
        with world.mute():
            m = world.build(p["big"]) if p["mesh"] == "random" else (world.pf.meshlib.pegboard(size=(2, 2), verbose=False) if p["mesh"] == "pegboard" else getattr(world.pf.meshlib, p["mesh"])(verbose=False))
        yield ["mesh", p["mesh"]], obs_mesh(m)
    yield from c11.problem(p, c11.Shared(False))
    if p.get("scene"):
        yield from pictures(p["scene"])


def pictures(c):
    sc = plots.Scene(c, c["glob"])
    yield ["scene"], sc.state()
    for req in c["reqs"]:
        shown = []
        with plots.Calls(on_show=lambda: shown.append(plots.pixels())).installed():
            try:
                _, draw = sc.make(req)
                draw(True, "")
            except Exception as e:  # noqa: BLE001
                if not plots.may_fail(req, c):
                    raise
                shown = [type(e).__name__]
            if req[0] == "mesh" and req[3].get("keep_open"):
                import matplotlib.pyplot as plt
                plt.close("all")
        yield ["plot", req], ("picture", shown)


def collect(prog, watch=False, between=None):
    out, it, k = [], program(prog), 0
    s0 = ambient.settings() if watch else None
    while True:
        if between:
            between(k)
            if watch: s0 = ambient.settings()
        o = next(it, None)
        if watch:
            s1 = ambient.settings()
            d = plots.settings_diff(s0, s1) if s0.keys() == s1.keys() else "different keys"
            if d:
                raise Violation("settings", f"step {k} {o and o[0]} changed process-wide settings: {d}")
        if o is None:
            return out
        out.append(o); k += 1


def away(case):
    """In the other interpreter."""
    root = os.path.realpath(tempfile.mkdtemp(prefix="c16-", dir=os.environ.get("VERIF_SCRATCH")))
    os.chdir(root)
    try:
        with world.mute():
            with ambient.Surroundings(case["amb"], root) as s:
                for q in case["pre"]:
                    collect(q)
                    if (case["amb"]["ident"] or 0) % 2: gc.collect()    # nothing of it stays alive
                out = collect(case["prog"], True, s.between)
                return out, s.n, s.active()
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def at_home(prog):
    root = os.path.realpath(tempfile.mkdtemp(prefix="c16-", dir=os.environ.get("VERIF_SCRATCH")))
    os.chdir(root)
    try:
        with world.mute():
            return collect(prog)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def run(case):
    log = core.Log()
    try:
        want = core.isolated(at_home, case["prog"])
    except core.HarnessError as e:
        raise Violation("unexpected-exception", f"in calm surroundings: {str(e)[:1500]}")
    try:
        if case["amb"]["zyg"] is None:
            got, n, act = core.isolated(away, case)
        else:
            got, n, act = INTERP[case["amb"]["zyg"]].call("away", case)
    except core.HarnessError as e:
        raise Violation("unexpected-exception", f"only under other surroundings: {str(e)[:1800]}")
    if len(got) != len(want):
        raise Violation("progress", f"{len(got)} results instead of {len(want)}")
    for k, (g, w) in enumerate(zip(got, want)):
        if isinstance(w[1], tuple) and w[1][:1] == ("picture",):
            a, b = g[1][1], w[1][1]
            d = len(a) != len(b) or (len(a) and (a[0] != b[0] if isinstance(a[0], str) or isinstance(b[0], str) else plots.same_picture(a[0], b[0])))
            if d: raise Violation("influence", f"step {k} {g[0]}: pictures differ: {d}")
        else:
            core.must_equal("influence", g[1], w[1], 1e-9, f"step {k} {g[0]}:")
        log.ev(k, g[0][0])
        log.probe("compared")
    for a in act:
        log.fault("surroundings-" + a)
    if n: log.fault("changed-between", n)
    log.ev(act, n, case["amb"])
    log.probe("aspects", len(act))
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("aspects", 0) >= 3 and res["probes"].get("compared", 0) >= 3


def shrink(case):
    for k in range(len(case["pre"])):
        yield dict(case, pre=case["pre"][:k] + case["pre"][k + 1:])
    a = case["amb"]
    for k, v in a.items():
        if v is not None and v != []:
            yield dict(case, amb=dict(a, **{k: [] if k == "acts" else None}))
    for k in range(len(a["acts"])):
        yield dict(case, amb=dict(a, acts=a["acts"][:k] + a["acts"][k + 1:]))
    p = case["prog"]
    for k in ("scene", "mesh"):
        if p.get(k):
            yield dict(case, prog={**p, k: None})
    for k in range(len(p["steps"])):
        yield dict(case, prog=dict(p, steps=p["steps"][:k] + p["steps"][k + 1:]))
    if p.get("scene"):
        c = p["scene"]
        for k in range(len(c["reqs"])):
            yield dict(case, prog=dict(p, scene=dict(c, reqs=c["reqs"][:k] + c["reqs"][k + 1:])))
