"""C05: an interrupted local computation leaves its inputs intact and can be repeated."""
import numpy as np
from .. import core, faults, local_ops as lo, problem as pr, world
from ..core import Violation, sut
from .c07 import disturbed

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 300, "thorough": 6000}
NEED_JIT = True
CASE_TIMEOUT = 240
RULE = ("one simulated run: a random cell, sampled once, and a seeded history of building boundary-integral solvers, traces, local functions, edge spaces and local spaces, arithmetic, inner "
        "products, conjugates and interior values, in which calls are interrupted at seeded library statements or lose a linear solve; after each fault all live objects must read as before, "
        "then the call is repeated and compared with the same history run without faults in a pristine process; counted if a fault hit and a repetition was compared; distinct event logs")
REAL = ["NystromSolver", "LocalPoissonFunction/LocalHarmonic/LocalPolynomial", "DirichletTrace", "EdgeSpace", "LocalPoissonSpace", "antilap", "MeshCell", "scipy gmres"]
STUB = ["default interior grid 7x7 instead of 33x33", "a linear solver called by the library raises when told to"]
ASSUMPTIONS = ["interrupts and allocation failures arrive at library statements outside except/finally bodies"]


def gen_fault(rng):
    if rng.random() < .12:
        return ["solver", rng.random(), rng.choice(["RuntimeError", "MemoryError"])]
    return [rng.choice(["interrupt", "nomem"]), rng.random(), rng.random()]


def gen(rng, i, tier):
    spec = lo.cell_spec(rng)
    base = [["nyst", rng.choice(["fft", "fft", "direct"])], ["trace", lo.gen_trace(rng)], ["fun", 0, pr.poly_terms(rng, 2), 0, int(rng.random() < .5), 0]]
    ops = [[o, ([gen_fault(rng)] if rng.random() < .35 else [])] for o in base]
    for _ in range(rng.choice([3, 5, 8] if tier == "quick" else [4, 8, 14])):
        ops.append([lo.gen_op(rng), [gen_fault(rng) for _ in range(rng.choice([0, 1, 1, 2]))]])
    return dict(spec=spec, cell=rng.randrange(8), q=[rng.choice([5, 6, 8]), rng.choice([3, 5])], ops=ops)


def make(case):
    with sut("sampling the cell"):
        m = world.build(case["spec"])
        ids = list(m.cell_idx_list)
        K = m.get_cell(ids[case["cell"] % len(ids)])
        K.parameterize(pr.quad(case["q"]))
    return lo.World(K), m


def undisturbed(case):
    with world.mute():
        W, _ = make(case)
        out = []
        for op, _ in case["ops"]:
            fn = W.prepare(op)
            if fn is None:
                out.append(None); continue
            kind, r = fn()
            W.keep(kind, r)
            out.append(W.obs(kind, r))
        return out, W.state()


def run(case):
    log = core.Log()
    try:
        want, end = core.isolated(undisturbed, case)
    except core.HarnessError as e:
        raise Violation("unexpected-exception", f"undisturbed history: {str(e)[:1500]}")
    W, _m = make(case)
    hits = 0
    for j, (op, fs) in enumerate(case["ops"]):
        what = f"op {j} {op}"
        fn = W.prepare(op)
        if fn is None:
            continue
        out = None
        for f in fs:
            before = W.state()
            with sut(what), world.mute():
                tag, r = disturbed(fn, f, log)
            if tag != "fault":
                out = r; break
            hits += 1
            after = W.state()
            if op[0] == "interior":     # the target may already carry the new interior values (and only those)
                k = op[1] % len(W.F)
                a, b, w = after["F"][k], before["F"][k], want[j]
                for q, nm in enumerate(("int_vals", "int_grad1", "int_grad2")):
                    if core.diff(a[nm], b[nm], 1e-12) is not None and q < len(w) and core.diff(a[nm], w[q], 1e-8) is None:
                        b[nm] = a[nm]
            d = core.diff(after, before, 1e-12)
            if d:
                raise Violation("inputs-changed", f"{what}: after {f[0]} at {r}: {d}")
        if out is None:
            with sut(what + " (repeated)"), world.mute():
                out = fn()
        kind, r = out
        W.keep(kind, r)
        core.must_equal("repeated", W.obs(kind, r), want[j], 1e-8, f"{what}:")
        log.probe("compared")
        log.ev(j, op[0], core.digest(W.obs(kind, r)) if kind in "TF" else "")
    core.must_equal("final-state", W.state(), end, 1e-8, "at the end:")
    log.probe("faults-hit", hits)
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("faults-hit", 0) >= 1 and res["probes"].get("compared", 0) >= 1


def shrink(case):
    yield from core.shrink_lists(case, ["ops"])
    for k, (op, fs) in enumerate(case["ops"]):
        for q in range(len(fs)):
            yield dict(case, ops=case["ops"][:k] + [[op, fs[:q] + fs[q + 1:]]] + case["ops"][k + 1:])
    E = case["spec"]["edges"]
    for k, e in enumerate(E):
        if e["a"] == e["b"] and min(e["pos"], e["neg"]) < 0:
            yield dict(case, spec=dict(case["spec"], edges=E[:k] + E[k + 1:]))
