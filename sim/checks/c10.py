"""C10: threads share a sampled cell, solver, local functions and polynomials under seeded preemptive interleavings."""
import numpy as np
from .. import core, faults, local_ops as lo, problem as pr, sched, world
from ..core import Violation, sut
from . import c08

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 450, "thorough": 9000}
NEED_JIT = True
CASE_TIMEOUT = 240
RULE = ("one simulated run: a sampled cell with solvers, traces, local functions and polynomials (some with repeated or cancelling terms) shared by 2-4 real threads, each with a seeded list of "
        "local computations, run one at a time under a scheduler that preempts them at seeded library statements (rare statements as likely as hot ones, or densely); each result is compared "
        "with the same thread running alone in a pristine process and the shared objects with their state before; counted if at least two preemptions took place; distinct event logs "
        "(these include the digest of the whole schedule)")
REAL = ["NystromSolver", "LocalPoissonFunction/LocalHarmonic/LocalPolynomial", "DirichletTrace", "Polynomial", "EdgeSpace", "LocalPoissonSpace", "antilap", "MeshCell/ClosedContour/Edge queries", "scipy gmres"]
STUB = ["thread switching (one runs at a time, switches only at library statements)", "locks created by library code", "default interior grid 7x7 instead of 33x33"]
ASSUMPTIONS = ["switches happen between library statements (compiled numpy/numba/scipy code runs atomically)"]

POLY = ["add", "sub", "mul", "smul", "eq", "str", "zero", "eval", "grad", "lap", "alap", "compose", "pow", "copy", "neg", "iadd-own", "str", "eq", "zero"]


def gen_poly(rng):
    """Terms of a shared polynomial, added one by one without normalizing when messy."""
    t = [[float(rng.choice([1, -1, 2, .5, -3])), rng.randint(0, 2), rng.randint(0, 2)] for _ in range(rng.randint(1, 4))]
    if rng.random() < .7:
        t.append([float(rng.choice([-t[0][0], 1.0, 2.0])), t[0][1], t[0][2]])
    rng.shuffle(t)
    return [t, int(rng.random() < .75)]


def gen_op(rng, light):
    if light or rng.random() < .4:
        return ["poly", rng.choice(POLY), rng.randrange(4), rng.randrange(4), rng.choice([2.0, -.5])]
    while True:
        op = lo.gen_op(rng, arith=.2)
        if op[0] == "space" and (op[1] > 1 or rng.random() < .6):
            continue
        if op[0] == "values":
            return ["trace", lo.gen_trace(rng)] if rng.random() < .5 else op
        return op


def gen(rng, i, tier):
    light = rng.random() < .3
    base = [["nyst", rng.choice(["fft", "fft", "direct"])], ["trace", lo.gen_trace(rng)], ["trace", lo.gen_trace(rng)]]
    fresh = rng.random() < .3       # nothing computed with this solver yet
    if not light and fresh:
        cold = False
    elif not light:
        g = int(rng.random() < .6)      # with all interior data there from the start, sums always carry it too
        cold = rng.random() < .35       # no interior values computed on this cell yet
        base += [["fun", 0, pr.poly_terms(rng, 2), 0, int(not cold and rng.random() < .5), int(g and not cold)], ["fun", 0, None, 1, int(not cold), int(g and not cold)]]
    n = rng.choice([2, 2, 2, 3, 4])
    threads = [[gen_op(rng, light) for _ in range(rng.choice([1, 2, 3] if not light else [2, 4, 6]))] for _ in range(n)]
    if fresh:
        for t in threads:
            t.insert(0, ["fun", rng.randrange(2), None, rng.randrange(3), int(rng.random() < .2), 0])
    if rng.random() < .5:       # the same call at the same time
        o = threads[0][0]
        for t in threads[1:]:
            t[0] = [x for x in o]
        if rng.random() < .5:
            o = ["conj", rng.randrange(2), 0] if rng.random() < .4 else ["fun", rng.randrange(2), pr.poly_terms(rng, 2), rng.randrange(3), int(rng.random() < .3), 0]
            for t in threads:
                t[0] = [x for x in o]
    if not light and cold and rng.random() < .7:      # the same first call on two functions
        g = rng.random()
        for k, t in enumerate(threads):
            t.insert(0, ["interior", k, int(g < .3 or rng.random() < .2)])
    pre = []
    seed, frac, k = rng.randrange(1 << 30), rng.choice([.1, .25, .25, .6]), rng.choice([1, 1, 2, 3])
    if rng.random() < .4:       # all threads inside the same functions that change something, in lockstep
        pre = [["focus", seed, frac, k, [rng.randrange(8) for _ in range(16)]] for _ in range(n)]
    while len(pre) < n:
        pre.append(["every", rng.choice([1, 2, 3, 5, 8, 13]), [rng.randrange(8) for _ in range(16)]] if rng.random() < .25 else
                   [[rng.random(), rng.random(), rng.randrange(8)] for _ in range(rng.choice([1, 2, 3, 5]))])
    return dict(spec=lo.cell_spec(rng), cell=rng.randrange(8), q=[rng.choice([4, 5, 6]), rng.choice([3, 5])], base=base, polys=[gen_poly(rng) for _ in range(rng.choice([2, 3, 4]))],
                threads=threads, pre=pre, first=rng.randrange(n))


def mk_poly(p):
    pf = world.pf
    if not p[1]:
        return pr.poly(p[0])
    q = pf.Polynomial()
    M = type(pf.Polynomial([(1.0, 0, 0)]).monos[0])
    A = type(pf.Polynomial([(1.0, 0, 0)]).monos[0].alpha)
    for c, a, b in p[0]:
        q.add_monomial(M(A([a, b]), c))
    return q


class View(lo.World):
    """What one thread sees: the shared objects followed by its own."""

    def __init__(self, W, polys):
        super().__init__(W.K)
        for k in "NTFELG":
            setattr(self, k, list(getattr(W, k)))
        self.polys = polys

    def prepare(self, op):
        if op[0] != "poly":
            return super().prepare(op)
        P, k, c = self.polys, op[1], op[4]
        p, q = P[op[2] % len(P)], P[op[3] % len(P)]
        o = world.obs_poly
        x = np.array([.5, -1.0, 2.0]); y = np.array([1.5, .25, -1.0])

        def own():
            r = p.copy()
            r += q
            return o(r)
        return {"add": lambda: ("V", o(p + q)), "sub": lambda: ("V", o(p - q)), "mul": lambda: ("V", o(p * q)), "smul": lambda: ("V", o(c * p)), "eq": lambda: ("V", [bool(p == q), bool(q == p), bool(p == p)]),
                "str": lambda: ("V", text(str(p))), "zero": lambda: ("V", bool(p.is_zero())), "eval": lambda: ("V", np.array(p(x, y) + 0 * x)), "grad": lambda: ("V", [o(g) for g in p.grad()]),
                "lap": lambda: ("V", o(p.laplacian())), "alap": lambda: ("V", o(p.anti_laplacian())), "compose": lambda: ("V", o(p.compose(q, q))), "pow": lambda: ("V", o(p.pow(2))),
                "copy": lambda: ("V", o(p.copy())), "neg": lambda: ("V", o(-p)), "iadd-own": lambda: ("V", own())}[k]


def text(s):
    """The value a printed polynomial stands for; printing nothing at all is not a polynomial."""
    return {k: v for k, v in c08.parse(s).items() if abs(v) > 1e-12} if s.strip() else "nothing"


def setup(case):
    with sut("setting up the shared objects"), world.mute():
        m = world.build(case["spec"])
        ids = list(m.cell_idx_list)
        K = m.get_cell(ids[case["cell"] % len(ids)])
        K.parameterize(pr.quad(case["q"]))
        W = lo.World(K)
        for op in case["base"]:
            fn = W.prepare(op)
            if fn:
                W.keep(*fn())
        return W, [mk_poly(p) for p in case["polys"]], m


def body(V, ops):
    out = []
    for op in ops:
        fn = V.prepare(op)
        if fn is None:
            out.append(None); continue
        kind, r = fn()
        if kind != "V":
            V.keep(kind, r)
        out.append((kind, r))
    return out


def observe(V, out):
    return [None if o is None else V.obs(*o) for o in out]


def alone(case, t):
    """Thread t alone; also where its seeded preemptions fall."""
    W, polys, _m = setup(case)
    V = View(W, polys)
    with world.mute():
        with faults.Tracer(record=True) as tr:
            out = body(V, case["threads"][t])
        pre = case["pre"][t]
        if pre and pre[0] == "every":
            plan = list(pre)
        elif pre and pre[0] == "focus":
            plan = ["lines", faults.focus(tr.sites, pre[1], pre[2]), pre[3], pre[4]]
        else:
            plan = {}
            for um, up, c in pre:
                at = faults.choose(tr.sites, um, up)
                if at is not None:
                    plan[at] = c
        return observe(V, out), plan, tr.n, [pr.obs_nyst(x) for x in W.N]


def fill(g, w):
    """Whether a sum carries interior values depends on whether a thread has meanwhile evaluated its operands; if it does they are compared."""
    if isinstance(g, dict) and isinstance(w, dict):
        for nm in ("int_vals", "int_grad1", "int_grad2"):
            if nm in g and nm in w and (g[nm] is None) != (w[nm] is None):
                g[nm] = w[nm] = None


def shared(W, polys):
    return dict(W.state(), polys=[world.obs_poly(p) for p in polys])


def run(case):
    log = core.Log()
    want, plans, steps = [], [], 0
    for t in range(len(case["threads"])):
        try:
            w, p, n, nyst = core.isolated(alone, case, t)
        except core.HarnessError as e:
            raise Violation("unexpected-exception", f"thread {t} alone: {str(e)[:1500]}")
        want.append(w); plans.append(tuple(p) if isinstance(p, list) else p); steps += n
    W, polys, _m = setup(case)
    before = shared(W, polys)
    views = [View(W, polys) for _ in case["threads"]]
    fns = [lambda v=v, o=o: body(v, o) for v, o in zip(views, case["threads"])]
    with world.mute():
        S = sched.Scheduler(fns, plans, log, budget=20 * steps + 200_000)
        res = S.run(first=case["first"] % len(fns))
    for t, r in enumerate(res):
        what = f"thread {t} {case['threads'][t]}"
        if r is None:
            raise Violation("no-result", f"{what} never finished")
        if r[0] == "viol":
            raise Violation(r[1], f"{what}: {r[2]}")
        if r[0] == "exc":
            raise Violation("unexpected-exception", f"{what}: {r[1]}: {r[2]}")
        with sut(what):
            got = observe(views[t], r[1])
        for k, (g, w) in enumerate(zip(got, want[t])):
            fill(g, w)
            core.must_equal("thread-result", g, w, 1e-9, f"{what}: operation {k} {case['threads'][t][k]}:")
    after = shared(W, polys)
    for f in range(len(after["F"])):        # interior values may have been filled in; results above cover their values
        for nm in ("int_vals", "int_grad1", "int_grad2"):
            if before["F"][f][nm] is None:
                after["F"][f][nm] = None
    core.must_equal("shared-state", after["N"], nyst, 1e-9, "solvers, compared with a single thread:")
    core.must_equal("shared-state", after, before, 1e-9, "shared objects:")
    log.probe("preemptions", log.threads_switches)
    log.probe("threads", len(fns))
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("preemptions", 0) >= 2


def shrink(case):
    n = len(case["threads"])
    if n > 2:
        for t in range(n):
            yield dict(case, threads=case["threads"][:t] + case["threads"][t + 1:], pre=case["pre"][:t] + case["pre"][t + 1:])
    for t in range(n):
        for k in range(len(case["threads"][t])):
            if len(case["threads"][t]) > 1:
                yield dict(case, threads=case["threads"][:t] + [case["threads"][t][:k] + case["threads"][t][k + 1:]] + case["threads"][t + 1:])
        if case["pre"][t] and case["pre"][t][0] not in ("every", "focus"):
            for k in range(len(case["pre"][t])):
                yield dict(case, pre=case["pre"][:t] + [case["pre"][t][:k] + case["pre"][t][k + 1:]] + case["pre"][t + 1:])
    yield from core.shrink_lists(case, ["base"])
