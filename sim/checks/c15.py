"""C15: plotting never changes what is plotted, and does not depend on earlier plots."""
import os, shutil, tempfile
import numpy as np
from . import c14
from .. import core, local_ops as lo, plots, world
from ..core import Violation, must_equal, sut

ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 220, "thorough": 4000}
CASE_TIMEOUT = 240
RULE = ("one simulated run: a small problem and a seeded history of constructing plots of meshes, traces, local functions and solutions with any options, drawing and redrawing the kept plot objects (shown or saved), "
        "draws that fail (a call into the plotting library, an interrupt at a seeded statement, a disk fault, an invalid option) and computations in between; after every step everything that was plotted is "
        "compared with before, every computation with the same history without plots, and every picture with the picture of the same request drawn first in a process that never plotted; "
        "counted if at least two draws took place and one object was plotted twice or a draw failed; distinct event logs")
REAL = c14.REAL
STUB = c14.STUB
ASSUMPTIONS = ["pictures are compared pixel by pixel up to antialiasing noise (at most 0.01% of the pixels)", "vector files are only checked for completeness", "arrows of a mesh plot are drawn on freshly sampled edges"]
prepare = c14.prepare


def gen(rng, i, tier):
    c = plots.gen_scene(rng, .3)
    ops, made = [], 0
    pool = [plots.gen_request(rng, c["glob"]) for _ in range(rng.choice([1, 2, 3]))]
    if c["glob"] and rng.random() < .7:
        while pool[0][0] != "global":
            pool[0] = plots.gen_request(rng, 1)
        if rng.random() < .6: pool[0][1] = 1
    for _ in range(rng.choice([4, 5, 6, 7, 8])):
        r = rng.random()
        if made and rng.random() < .1:       # the caller changes arrays and plots them again
            ops += [["new", pool[0]], ["scale", rng.randrange(3), rng.choice([.01, .1, -1.0, 30.0])], ["new", pool[0]]]; made += 2
            continue
        if r < .38 or not made:
            ops.append(["new", rng.choice(pool) if rng.random() < .6 else plots.gen_request(rng, c["glob"])]); made += 1
        elif r < .86:
            f = c14.gen_fault(rng) if rng.random() < .3 else None
            ops.append(["draw", rng.randrange(made), [1, None, "png"] if rng.random() < .75 else plots.gen_target(rng, .8), f])
        else:
            ops.append(rng.choice([["ip", rng.choice(["h1", "l2"]), rng.randrange(4), rng.randrange(4)], ["interior", rng.randrange(3), int(rng.random() < .6)], ["sum", rng.randrange(4), rng.randrange(4)],
                                   ["conj", rng.randrange(4)], ["combo"], ["trace"], ["scale", rng.randrange(3), rng.choice([.01, -1.0, 30.0])], ["scale", rng.randrange(3), .1]]))
    for k in range(made):
        if not any(o[0] == "draw" and o[1] == k for o in ops):
            ops.append(["draw", k, [1, None, "png"], None])
    return dict(c, ops=ops)


def compute(scene, op):
    """Computations between plots: (observed value, may it change what the functions hold)."""
    F, k = scene.F, op[0]
    if k == "ip":
        return (F[op[2]].get_h1_semi_inner_prod if op[1] == "h1" else F[op[2]].get_l2_inner_prod)(F[op[3]]), False
    if k == "interior":
        F[op[1]].compute_interior_values(bool(op[2]))
        return lo.obs_fun(F[op[1]]), True
    if k == "sum":
        a, b = F[op[1]], F[op[2]]
        return lo.obs_fun(a * .5 + b * -2.0), False
    if k == "conj":
        return [np.array(v) for v in scene.N.get_harmonic_conjugate(np.array(F[op[1]].harm.trace.values))], False
    if k == "scale":        # the caller changes arrays that were or will be plotted
        for a in [scene.A[op[1]]] + ([scene.u] if scene.S is not None else []):
            a *= op[2]
        return [np.array(scene.A[op[1]])], True
    if k == "combo":
        return (scene.state().get("combo") or 0), False
    t = world.pf.DirichletTrace(edges=scene.K.get_edges(), funcs=lambda x, y: x * y)
    return world.obs_trace(t), False


def quiet_line(scene, case, root, log):
    """The history without plots; wherever it draws, a child draws that one request first thing."""
    def go():
        out, reqs = [], []
        for op in case["ops"]:
            if op[0] == "new":
                reqs.append(op[1]); out.append(None)
            elif op[0] == "draw":
                out.append(c14.reference(scene, [reqs[op[1]], op[2]], root, log, raw=len(out) % 2 == 0))
            else:
                try:
                    v, _ = compute(scene, op)
                except Exception as e:  # noqa: BLE001
                    out.append(("raised", type(e).__name__)); continue
                out.append(("value", v, scene.state()))
        return out
    return core.isolated(go, timeout=200)


def run(case):
    log = core.Log()
    root = os.path.realpath(tempfile.mkdtemp(prefix="c15-", dir=os.environ.get("VERIF_SCRATCH")))
    try:
        with world.mute():
            _run(case, log, root)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)
    return log.result()


def _run(case, log, root):
    import matplotlib.pyplot as plt
    scene = plots.Scene(case, case["glob"])
    os.chdir(root)
    refs = quiet_line(scene, case, root, log)
    state = scene.state()
    objs, version, drawn, failed, again = [], 0, 0, 0, 0
    for j, op in enumerate(case["ops"]):
        what = f"step {j} {op}"
        if op[0] == "new":
            try:
                objs.append([op[1], scene.make(op[1]), version, 0])
            except Exception as e:  # noqa: BLE001
                log.ev(j, "new", type(e).__name__)
                objs.append([op[1], None, version, 0])
            must_equal("changed", scene.state(), state, 1e-13, what + f": after constructing {op[1]}")
            continue
        if op[0] != "draw":
            try:
                got, changes = compute(scene, op)
            except Exception as e:  # noqa: BLE001
                if refs[j] != ("raised", type(e).__name__):
                    raise Violation("unexpected-exception", f"{what}: {type(e).__name__}: {e} (after {drawn} draws)")
                continue
            if refs[j][0] == "raised":
                raise Violation("no-error", f"{what}: succeeded, but raises {refs[j][1]} without the plots before")
            must_equal("computation", got, refs[j][1], 1e-10, f"{what}: after {drawn} draws")
            state = scene.state()
            must_equal("computation-state", state, refs[j][2], 1e-10, f"{what}: after {drawn} draws")
            version += changes
            log.ev(j, op[0])
            continue
        req, made, ver, times = objs[op[1]]
        ref = refs[j]
        if made is None:
            if ref[0] != "make":
                raise Violation("unexpected-exception", f"{what}: {req} could not be constructed, though it can without the plots before")
            continue
        if ref[0] == "make":
            continue
        what += f" of {req}"
        with c14.Site(root, op[2], f"op{j}") as site:
            fault, sizes = op[3], None
            if fault and not (fault[0] == "disk" and fault[1] != "write"):
                sizes = c14.measure(lambda: made, (req, op[2]), root, fault, log)
                if fault[0] == "stmt" and sizes["at"] is None or fault[0] == "call" and not sizes["calls"]:
                    fault = None
            figs0 = plt.get_fignums()
            tag, shown, exc, fired, _ = c14.attempt(scene, made[0], made[1], site, fault, log, sizes)
            log.ev(j, "draw", req[0], tag, fired, times)
            for n in plt.get_fignums():
                if n not in figs0: plt.close(n)
            must_equal("changed", scene.state(), state, 1e-13, f"{what}: after a draw that {'raised ' + repr(exc) if tag == 'raised' else 'returned'}")
            if tag == "raised":
                failed += 1
                if not fired and not plots.may_fail(req, case):
                    raise Violation("unexpected-exception", f"{what} (drawn {times} times before): {type(exc).__name__}: {exc}")
                if not fired and ver == version and not (ref[0] == "raised" and ref[1] == type(exc).__name__):
                    raise Violation("unexpected-exception", f"{what} (drawn {times} times before): {type(exc).__name__}: {exc}" + ("" if ref[0] == "ok" else f" instead of {ref[1]}"))
                continue
            drawn += 1
            if times: again += 1
            objs[op[1]][3] += 1
            if ver != version:        # the function gained interior values after this plot object was made
                continue
            if not fired:
                with sut(what): d = scene.shows(req, site.data, site.made)
                if d: raise Violation("shown-values", f"{what}: {d}")
                with sut(what): d = scene.options(req, site.figs, site.data, site.made)
                if d: raise Violation("options", f"{what}: {d}")
            if ref[0] == "raised":
                raise Violation("no-error", f"{what}: returned, though it raises {ref[1]} when drawn first")
            if op[2][0]:
                d = "nothing was shown" if (shown is None) != (ref[2] is None) else shown is not None and plots.same_picture(shown, ref[2])
                if d: raise Violation("picture", f"{what} (drawn {times} times before, {drawn - 1} draws in all, {failed} failed): differs from the same request drawn first: {d}")
            kind, got = c14.result_of(site)
            if site.path is not None and kind == "picture" and ref[1][0] == "picture":
                d = plots.same_picture(got, ref[1][1])
                if d: raise Violation("picture", f"{what}: the saved file differs from the same request drawn first: {d}")
            log.ev(j, core.digest(shown) if shown is not None else None)
    log.probe("drawn", drawn); log.probe("failed", failed); log.probe("redrawn", again)


def nontrivial(case, res):
    p = res["probes"]
    return p.get("drawn", 0) >= 2 and p.get("redrawn", 0) + p.get("failed", 0) >= 1


def shrink(case):
    ops = case["ops"]
    for k in range(len(ops)):
        if ops[k][0] == "new":
            n = sum(o[0] == "new" for o in ops[:k])
            rest = [o for i, o in enumerate(ops) if i != k and not (o[0] == "draw" and o[1] == n)]
            yield dict(case, ops=[["draw", o[1] - 1] + o[2:] if o[0] == "draw" and o[1] > n else o for o in rest])
        else:
            yield dict(case, ops=ops[:k] + ops[k + 1:])
    for k, o in enumerate(ops):
        if o[0] == "draw" and o[3]:
            yield dict(case, ops=ops[:k] + [o[:3] + [None]] + ops[k + 1:])
    if case["glob"] and not any(o[0] == "new" and o[1][0] == "global" for o in ops):
        yield dict(case, glob=0, ops=[o for o in ops if o[0] != "combo"])
    E = case["spec"]["edges"]
    for k, e in enumerate(E):
        if e["a"] == e["b"] and min(e["pos"], e["neg"]) < 0:
            yield dict(case, spec=dict(case["spec"], edges=E[:k] + E[k + 1:]))
