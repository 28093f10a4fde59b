"""C11: separate problems worked on in any interleaving, on one thread or several, some aborted midway, do not influence each other."""
import copy
import numpy as np
from .. import core, faults, local_ops as lo, problem as pr, sched, world
from ..core import Violation, sut
from . import c01, c08, c10

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 130, "thorough": 4000}
NEED_JIT = True
CASE_TIMEOUT = 300
RULE = ("one simulated run: 2-4 problems, mostly variants of one another that differ in a single parameter, each a seeded sequence of working on edges, quadratures, polynomials, a sampled cell, local "
        "functions and a linear system; their steps are interleaved by a seeded schedule on one thread, or they run in real threads preempted at seeded library statements; some are aborted "
        "midway by an injected interrupt or allocation failure; every result of every problem is compared with that problem alone in a pristine process; counted if at least "
        "two problems alternated; distinct event logs")
REAL = ["mesh and curve layer", "Quad", "Polynomial", "local functions", "EdgeSpace/LocalPoissonSpace", "GlobalFunctionSpace", "Solver", "scipy solvers"]
STUB = ["thread switching (one runs at a time, switches only at library statements)", "locks created by library code", "default interior grid 7x7 instead of 33x33"]
ASSUMPTIONS = ["switches happen between library statements", "problems share no object except, when so drawn, quadratures, vertices and bilinear forms, which none of the named objects own"]


# ------------------------------------------------------------------ generation

def gen_espace(rng):
    """Polynomial traces on an edge in a special position."""
    if rng.random() < .4:
        return ["espace", "circle", dict(radius=rng.choice([1.0, 1.0, .5, 2.0])), [rng.choice([0.0, 0.0, 1.0])] * 2, None, rng.choice([1, 2, 3])]
    a, b = rng.choice([([-1.0, -1.0], [1.0, 1.0]), ([1.0, -1.0], [-1.0, 1.0]), ([0.0, 0.0], [1.0, 1.0]), ([-1.0, 0.0], [1.0, 0.0]), ([0.0, -1.0], [0.0, 1.0]), ([0.0, 0.0], [0.0, 3.0])])
    return ["espace"] + rng.choice([["line", {}], ["line", {}], ["sine_wave", dict(amp=.1, freq=2)]]) + [a, b, rng.choice([1, 2, 3])]


def gen_steps(rng, tier):
    steps = []
    for k in range(rng.choice([2, 3, 5])):
        r = rng.random()
        if r < .18: steps.append(["edge", k])
        elif r < .25: steps.append(gen_espace(rng))
        elif r < .32: steps.append(["quad", rng.choice(["trap", "kress", "mart"]), rng.choice([4, 5, 6, 8]), rng.choice([2, 3, 5, 7])])
        elif r < .45: steps.append(["poly", rng.choice(["alap", "alap", "pow", "compose", "str", "integrate", "mul"]), rng.randrange(3), rng.randrange(3)])
        elif r < .62: steps.append(["cell", rng.randrange(4), rng.randrange(2)])
        elif r < .86: steps.append(["local", lo.gen_op(rng)])
        else: steps.append(["system", rng.randrange(2), int(rng.random() < .3)])
    if any(s[0] == "local" for s in steps):
        k = next(i for i, s in enumerate(steps) if s[0] == "local")
        steps[k:k] = [["local", ["nyst", rng.choice(["fft", "fft", "direct"])]], ["local", ["trace", lo.gen_trace(rng)]], ["local", ["fun", 0, pr.poly_terms(rng, 2), 0, int(rng.random() < .5), 0]]]
    if rng.random() < .35 and not any(s[0] == "system" for s in steps):
        steps.append(["system", 0, 0])
    return steps


def gen_problem(rng, tier):
    e = c01.gen(rng, 0, "quick")
    e["ops"] = [[None] + o[1:] for o in e["ops"] if o[1] not in ("bad", "copy")]
    return dict(spec=lo.cell_spec(rng), q=[rng.choice([4, 5, 6]), rng.choice([3, 5])], deg=1 if rng.random() < .85 else 2, form=pr.form(rng), polys=[c08.gen_terms(rng) for _ in range(3)],
                edge=e, steps=gen_steps(rng, tier))


def vary(rng, p):
    """The same problem with one parameter changed (or none)."""
    p = copy.deepcopy(p)
    k = rng.choice(["same", "q.p", "q.p", "q.n", "vert", "shift", "amp", "form.D", "form.f", "poly", "edge", "edge", "edge-op", "steps", "strat", "order", "quadkind", "terms", "deg"])
    if k == "q.p": p["q"][1] = 3 if p["q"][1] == 5 else 5
    elif k == "q.n": p["q"][0] += rng.choice([1, 2])
    elif k == "vert": v = rng.randrange(len(p["spec"]["verts"])); p["spec"]["verts"][v] = [p["spec"]["verts"][v][0] + .015, p["spec"]["verts"][v][1] - .01]
    elif k == "shift": p["spec"]["verts"] = [[x + 2, y - 1] for x, y in p["spec"]["verts"]]
    elif k == "amp":
        for e in p["spec"]["edges"]:
            for nm in e["opts"]:
                if nm in ("amp", "radius", "a"): e["opts"][nm] = round(e["opts"][nm] * .9, 5)
                elif nm == "pts": e["opts"][nm] = [e["opts"][nm][0], [round(.5 * y, 5) for y in e["opts"][nm][1]]]
    elif k == "form.D": p["form"]["D"] += 1
    elif k == "form.f": p["form"]["f"] = pr.poly_terms(rng, 1)
    elif k == "poly": p["polys"] = [[[c * 2, a, b] for c, a, b in t] for t in p["polys"]]
    elif k == "terms": p["polys"] = [t + [[1.5, 1, 2]] for t in p["polys"]]
    elif k == "edge":
        o = p["edge"]["opts"]
        for nm in o:
            if isinstance(o[nm], float): o[nm] = round(o[nm] * .8, 5)
            elif nm == "pts": o[nm] = [[x if i in (0, len(r) - 1) else round(x + .05, 5) for i, x in enumerate(r)] for r in o[nm]]
        p["edge"]["b"] = [p["edge"]["b"][0] + (.25 if p["edge"]["a"] != p["edge"]["b"] else 0), p["edge"]["b"][1]]
    elif k == "edge-op": p["edge"]["ops"] = p["edge"]["ops"][1:] or p["edge"]["ops"]
    elif k == "steps": p["steps"] = gen_steps(rng, "quick")
    elif k == "strat":
        for s in p["steps"]:
            if s[0] == "local" and s[1][0] == "nyst": s[1][1] = "direct" if s[1][1] == "fft" else "fft"
    elif k == "order": p["spec"]["edges"] = p["spec"]["edges"][::-1]
    elif k == "quadkind": p["edge"]["quad"] = "trap" if p["edge"]["quad"] == "kress" else "kress"
    elif k == "deg":
        p["deg"] = 3 - p["deg"]
    return p


def gen(rng, i, tier):
    n = rng.choice([2, 2, 3, 3, 4])
    ps = [gen_problem(rng, tier)]
    for _ in range(n - 1):
        ps.append(vary(rng, rng.choice(ps)) if rng.random() < .85 else gen_problem(rng, tier))
    if rng.random() < .3:       # move together: the steps of one problem against the same steps of its twin
        order = [k % n for k in range(n * 12)]
    else:
        order = [rng.randrange(n) for _ in range(n * 12)]
    ab = [None] * n
    if rng.random() < .4:
        ab[rng.randrange(n)] = [rng.choice(["interrupt", "nomem"]), rng.random(), rng.random()]
    pre = []
    for _ in range(n):
        pre.append(["every", rng.choice([3, 8, 13, 40]), [rng.randrange(8) for _ in range(16)]] if rng.random() < .3 else [[rng.random(), rng.random(), rng.randrange(8)] for _ in range(rng.choice([1, 2, 4, 8]))])
    return dict(problems=ps, order=order, abort=ab, pre=pre, mode="threads" if rng.random() < .4 else "steps", share=int(rng.random() < .35), first=rng.randrange(n))


# ------------------------------------------------------------------ one problem

class Shared:
    """Objects the problems may legitimately have in common."""

    def __init__(self, on):
        self.on, self.d = on, {}

    def get(self, key, make):
        if not self.on:
            return make()
        k = repr(key)
        if k not in self.d:
            self.d[k] = make()
        return self.d[k]


def build(spec, sh):
    pf = world.pf
    V = [sh.get(("vert", world.vert_label(spec, i), v), lambda i=i, v=v: pf.Vert(x=float(v[0]), y=float(v[1]), idx=world.vert_label(spec, i))) for i, v in enumerate(spec["verts"])]
    es = [pf.Edge(V[e["a"]], V[e["b"]], pos_cell_idx=e["pos"], neg_cell_idx=e["neg"], curve_type=e["curve"], quad_type=e["quad"], **world.options(e)) for e in spec["edges"]]
    return pf.PlanarMesh(es, verbose=False)


def problem(p, sh):
    """Generator: performs one step after the other, yielding (step, observation)."""
    pf = world.pf
    quad = lambda n, q: sh.get(("q", n, q), lambda: pf.get_quad_dict(n=n, p=q))
    polys = [pr.poly(t) for t in p["polys"]]
    mesh = W = None
    for s in p["steps"]:
        k = s[0]
        if k == "edge":
            c = p["edge"]
            a = pf.Vert(x=c["a"][0], y=c["a"][1])
            b = a if c["a"] == c["b"] else pf.Vert(x=c["b"][0], y=c["b"][1])
            kw = dict(c["opts"])
            if c["curve"] == "spline": kw["pts"] = [np.array(x) for x in kw["pts"]]
            if c["tb"]: kw["t_bounds"] = tuple(c["tb"])
            e = pf.Edge(a, b, curve_type=c["curve"], quad_type=c["quad"], **kw)
            rejected = 0
            for o in c["ops"]:
                try:
                    c01.call(e, o[1:], quad)
                except Exception as x:      # a transformation the library rejects: it does so alone too
                    if isinstance(x, (MemoryError, Violation, core.StepBudget, core.HarnessError)):
                        raise
                    rejected += 1
            yield s, [world.obs_edge(e), rejected]
        elif k == "espace":
            a = pf.Vert(x=s[3][0], y=s[3][1], idx=0)
            b = a if s[4] is None else pf.Vert(x=s[4][0], y=s[4][1], idx=1)
            e = pf.Edge(a, b, pos_cell_idx=0, curve_type=s[1], quad_type="trap" if s[4] is None else "kress", **s[2])
            e.set_idx(0); e.set_curve_type(s[1])
            e.parameterize(quad(*p["q"]))
            yield s, lo.World(None).obs("E", pf.EdgeSpace(e, s[5]))
        elif k == "quad":
            q = pf.Quad(qtype=s[1], n=s[2], p=s[3])
            yield s, [np.array(q.t), np.array(q.wgt), q.h, q.n]
        elif k == "poly":
            a, b = polys[s[2]], polys[s[3]]
            if s[1] == "str": yield s, c10.text(str(a))
            elif s[1] == "integrate":
                if W is None:
                    continue
                from importlib import import_module
                yield s, float(import_module("puncturedfem.locfun.poly.integrate_poly").integrate_poly_over_mesh_cell(a, W.K))
            else:
                yield s, world.obs_poly({"alap": lambda: a.anti_laplacian(), "pow": lambda: a.pow(2), "compose": lambda: a.compose(b, b), "mul": lambda: a * b}[s[1]]())
        elif k in ("cell", "local"):
            if W is None or k == "cell":
                if mesh is None:
                    mesh = build(p["spec"], sh)
                K = mesh.get_cell(mesh.cell_idx_list[(s[1] if k == "cell" else 0) % len(mesh.cell_idx_list)])
                K.parameterize(quad(*p["q"]))
                W = lo.World(K)
                yield s, world.obs_cell(K)
            if k == "local":
                fn = W.prepare(s[1])
                if fn is None:
                    continue
                kind, r = fn()
                if kind != "V":
                    W.keep(kind, r)
                yield s, W.obs(kind, r)
        else:
            if mesh is None:
                mesh = build(p["spec"], sh)
            W = None        # building a function space samples the cells anew
            V = pf.GlobalFunctionSpace(mesh=mesh, deg=p["deg"], quad_dict=quad(*p["q"]), verbose=False)
            yield s, [pr.obs_space(V), pr.obs_dofs(V)]
            B = sh.get(("form", p["form"]), lambda: pr.bilinear(p["form"]))
            S = pf.Solver(V, B, verbose=False, compute_interior_values=bool(s[2]))
            if s[1]:
                S.assemble()
                yield s, pr.obs_system(S)
            S.solve()
            x = np.array(S.get_solution())
            yield s, [pr.obs_system(S), pr.obs_dofs(V), x, [np.array(S.get_coef_on_mesh_cell(c, x)) for c in mesh.cell_idx_list]]


def alone(p, pre, ab):
    """All results of a problem on its own, and where its seeded preemptions and abort fall."""
    with world.mute():
        if pre is None and ab is None:
            return list(problem(p, Shared(False))), None, None, 0
        with faults.Monitor(record=True) as tr:
            out = list(problem(p, Shared(False)))
    if pre and pre[0] == "every":
        plan = tuple(pre)
    else:
        plan = {}
        for um, up, c in pre or []:
            at = faults.choose(tr.sites, um, up)
            if at is not None:
                plan[at] = c
    return out, plan, None if ab is None else faults.choose(tr.sites, ab[1], ab[2]), tr.n


def run(case):
    log = core.Log()
    ps, n = case["problems"], len(case["problems"])
    want, plans, ats, steps = [], [], [], 0
    for t, p in enumerate(ps):
        try:
            w, plan, at, k = core.isolated(alone, p, case["pre"][t] if case["mode"] == "threads" else None, case["abort"][t])
        except core.HarnessError as e:
            raise Violation("unexpected-exception", f"problem {t} alone: {str(e)[:1500]}")
        want.append(w); plans.append(plan or {}); ats.append(at); steps += k
    sh = Shared(case["share"])
    got = [[] for _ in ps]
    dead = set()
    if case["mode"] == "steps":
        gens = [problem(p, sh) for p in ps]
        done, last, alt = set(), None, 0
        hits = [0] * n

        def advance(t):
            with sut(f"problem {t}"), world.mute():
                try:
                    if ats[t] is not None:
                        with faults.Tracer(at=max(1, ats[t] - hits[t]), exc=faults.KINDS[case["abort"][t][0]]) as tr:
                            try:
                                got[t].append(next(gens[t]))
                            finally:
                                hits[t] += tr.n
                    else:
                        got[t].append(next(gens[t]))
                except StopIteration:
                    done.add(t)
                except (KeyboardInterrupt, MemoryError) as e:
                    if "injected" not in str(e):
                        raise
                    log.fault(case["abort"][t][0])
                    done.add(t); dead.add(t)
        for t in case["order"] + [t for t in range(n) for _ in range(60)]:
            t %= n
            if t in done:
                continue
            alt += last is not None and last != t
            last = t
            advance(t)
            log.ev(t, len(got[t]))
        log.probe("alternations", alt)
    else:
        def body(t):
            for o in problem(ps[t], sh):
                got[t].append(o)
            return True
        with world.mute():
            S = sched.Scheduler([lambda t=t: body(t) for t in range(n)], plans, log, budget=400 * steps + 3_000_000,
                                aborts={t: (a, faults.KINDS[case["abort"][t][0]]) for t, a in enumerate(ats) if a is not None}, watchdog=240, hot=True)
            res = S.run(first=case["first"] % n)
        for t, r in enumerate(res):
            if r is None:
                raise Violation("no-result", f"problem {t} never finished")
            if r[0] == "viol":
                raise Violation(r[1], f"problem {t}: {r[2]}")
            if r[0] == "exc":
                if case["abort"][t] and "injected" in r[2]:
                    log.fault(case["abort"][t][0]); dead.add(t)
                    continue
                raise Violation("unexpected-exception", f"problem {t}: {r[1]}: {r[2]}")
        log.probe("alternations", log.threads_switches)
    for t in range(n):
        if t not in dead and len(got[t]) != len(want[t]):
            raise Violation("progress", f"problem {t} gave {len(got[t])} results, alone {len(want[t])}")
        for k, (g, w) in enumerate(zip(got[t], want[t])):
            core.must_equal("influence", g[1], w[1], 1e-9, f"problem {t} step {k} {g[0]}:")
            log.probe("compared")
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("alternations", 0) >= 2


def shrink(case):
    n = len(case["problems"])
    if n > 2:
        for t in range(n):
            yield dict(case, problems=case["problems"][:t] + case["problems"][t + 1:], abort=case["abort"][:t] + case["abort"][t + 1:], pre=case["pre"][:t] + case["pre"][t + 1:])
    for t, p in enumerate(case["problems"]):
        for k in range(len(p["steps"])):
            if len(p["steps"]) > 1:
                yield dict(case, problems=case["problems"][:t] + [dict(p, steps=p["steps"][:k] + p["steps"][k + 1:])] + case["problems"][t + 1:])
        if case["abort"][t]:
            yield dict(case, abort=case["abort"][:t] + [None] + case["abort"][t + 1:])
    yield from core.shrink_lists(case, ["order"])
