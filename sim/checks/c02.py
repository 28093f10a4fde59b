"""C02: pieces of a split edge retrace the parent; the parent and the caller's list are left alone."""
import copy
import numpy as np
from .. import core, faults, world
from ..core import Violation, sut
from ..model_curve import EdgeModel, LOOPS, OPEN, quad_nodes
from . import c01

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 30000}
NEED_JIT = False
RULE = ("one simulated run: an edge with a random transformation history (sampled or not), split by parameter, list, array or number of parts, possibly with "
        "a fault at a random library statement or a rejected argument first; pieces optionally transformed and split again; counted if at least two "
        "pieces were compared with the parent's curve; distinct event logs")
REAL = ["split_edge", "transform", "Edge", "edgelib curves", "Quad"]
STUB = []
ASSUMPTIONS = ["own closed-form curves and affine algebra are the reference", "split parameters strictly inside the parent's interval unless the call is meant to be rejected"]
TOL = 1e-8


def gen(rng, i, tier):
    loop = rng.random() < .45
    curve, opts = rng.choice(LOOPS if loop else OPEN)
    f = lambda a, b: round(rng.uniform(a, b), 6)
    a = [f(-1, 1), f(-1, 1)]
    b = list(a) if loop else [f(1.2, 3), f(-1, 1)]
    tb = [f(0, 2), f(3, 6.2)] if curve in ("line", "sine_wave", "circular_arc") and rng.random() < .25 else None
    hist = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        op = c01.gen_op(rng, loop)
        if op[0] not in ("bad", "copy", "reverse"):
            hist.append(op)
    splits = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        mode = rng.choice(["one", "list", "array", "num"])
        us = sorted({round(rng.uniform(.08, .92), 3) for _ in range(rng.randint(1, 4))})
        rng.shuffle(us)
        s = dict(mode=mode, u=us, num=rng.randint(2, 5), which=rng.randrange(6))
        if rng.random() < .35:
            s["fault"] = [rng.choice(["interrupt", "nomem"]), rng.random(), rng.random()]
        if rng.random() < .2:
            s["bad"] = rng.choice(["range", "str", "num1", "none", "mixed"])
        s["post"] = [op for op in (c01.gen_op(rng, False) for _ in range(rng.choice([0, 0, 1, 2]))) if op[0] in ("rotate", "translate", "dilate", "reflect_x", "reflect_y", "ortho")]
        splits.append(s)
    return dict(curve=curve, opts=opts, a=a, b=b, tb=tb, quad=rng.choice(["kress", "trap"]), hist=hist, splits=splits,
                cells=[rng.randint(-1, 3), rng.randint(0, 3)], sampled=rng.random() < .5, rev=int(rng.random() < .4), q=[rng.choice([4, 6, 9]), rng.choice([2, 5])])


def snapshot(e):
    return dict(obs=world.obs_edge(e), tb=[float(v) for v in e.t_bounds], ct=e.curve_type, qt=e.quad_type, cells=[e.pos_cell_idx, e.neg_cell_idx],
                a=[e.anchor.x, e.anchor.y], b=[e.endpnt.x, e.endpnt.y], loop=bool(e.is_loop), idx=getattr(e, "idx", None),
                opts={k: (np.array(v, float) if k == "pts" else v) for k, v in e.curve_opts.items()})


def run(case):
    log = core.Log()
    pf = world.pf
    V = pf.Vert
    a = V(x=case["a"][0], y=case["a"][1])
    b = a if case["a"] == case["b"] else V(x=case["b"][0], y=case["b"][1])
    kw = dict(case["opts"])
    if case["curve"] == "spline":
        kw["pts"] = [np.array(p) for p in kw["pts"]]
    if case["tb"]:
        kw["t_bounds"] = tuple(case["tb"])
    quads = lambda n, p: pf.get_quad_dict(n=n, p=p)
    with sut("Edge()"):
        e = pf.Edge(a, b, pos_cell_idx=case["cells"][0], neg_cell_idx=case["cells"][1], curve_type=case["curve"], quad_type=case["quad"], **kw)
    m = EdgeModel(case["curve"], case["opts"], case["a"], case["b"], tuple(case["tb"]) if case["tb"] else (0.0, 2 * np.pi))
    for op in case["hist"]:
        if op[0] == "join" and m.closed_base(): continue
        if op[0] == "verts" and (len(op) == 3) != m.closed_base(): continue
        with sut(f"history {op}"):
            c01.call(e, op, quads)
        if op[0] not in ("param", "deparam"):
            m.apply(op)
    q = quads(*case["q"])
    t, w = quad_nodes("kress", *case["q"])
    with sut("parameterize/deparameterize"):
        if case["sampled"]: e.parameterize(q)
        else: e.deparameterize()
        if case["sampled"] and case.get("rev"): e.reverse_orientation()
    pieces = [(e, m, case["quad"])]
    for n, s in enumerate(case["splits"]):
        k = s["which"] % len(pieces)
        par, pm, pq = pieces[k]
        before = snapshot(par)
        lo, hi = pm.tb
        ts = [lo + u * (hi - lo) for u in s["u"]]
        if s["mode"] == "num":
            ts = [lo + (hi - lo) * j / s["num"] for j in range(1, s["num"])]
        arg = ts[0] if s["mode"] == "one" else list(ts) if s["mode"] == "list" else np.array(ts)
        if s["mode"] == "one": ts = ts[:1]
        keep = copy.deepcopy(arg)
        fn = (lambda: pf.split_edge(par, num_edges=s["num"])) if s["mode"] == "num" else (lambda: pf.split_edge(par, t_split=arg))
        what = f"split {n} of piece {k} ({s['mode']})"

        def unharmed(when):
            d = core.diff(snapshot(par), before, 1e-12)
            if d: raise Violation("parent", f"{what}: parent changed {when}: {d}")
            if s["mode"] in ("list", "array") and (len(arg) != len(keep) or any(x != y for x, y in zip(arg, keep))):
                raise Violation("caller-list", f"{what}: caller's split parameters changed {when}: {list(keep)} -> {list(arg)}")
        if s.get("bad"):
            bad = {"range": lambda: pf.split_edge(par, t_split=[lo + .5 * (hi - lo), hi + 1.0]), "str": lambda: pf.split_edge(par, t_split="x"),
                   "num1": lambda: pf.split_edge(par, num_edges=1), "none": lambda: pf.split_edge(par), "mixed": lambda: pf.split_edge(par, t_split=[1.0, "x"])}[s["bad"]]
            try:
                bad()
            except Exception:
                log.fault("rejected-request")
            unharmed("by a rejected call")
        if s.get("fault"):
            def dry():
                with sut("dry run of " + what):
                    return faults.choose(faults.dry(fn)[1], s["fault"][1], s["fault"][2])
            at = core.isolated(dry)
            if at:
                with sut(what):
                    faults.interrupted(fn, at, s["fault"][0], log)
                unharmed("by an interrupted call")
        with sut(what):
            out = list(fn())
        unharmed("by the call")
        cuts = [lo] + sorted(ts) + [hi]
        if len(out) != len(cuts) - 1:
            raise Violation("pieces", f"{what}: {len(out)} pieces for {len(cuts) - 2} split parameters")
        new = []
        for j, pc in enumerate(out):
            mm = pm.copy(); mm.tb = (cuts[j], cuts[j + 1])
            if [pc.pos_cell_idx, pc.neg_cell_idx] != [par.pos_cell_idx, par.neg_cell_idx]:
                raise Violation("cells", f"{what}: piece {j} has cells {[pc.pos_cell_idx, pc.neg_cell_idx]}")
            ends = pm.at([cuts[j], cuts[j + 1]])
            got = np.array([[pc.anchor.x, pc.endpnt.x], [pc.anchor.y, pc.endpnt.y]])
            core.must_equal("endpoints", got, ends, TOL, f"{what} piece {j}")
            new.append((pc, mm, "kress"))
        for j, (pc, mm, _) in enumerate(new):
            with sut(f"parameterize piece {j} of {what}"):
                pc.parameterize(q)
            if pc.quad_type != "kress":
                raise Violation("quad", f"{what}: piece {j} sampled with {pc.quad_type}")
            core.must_equal("retrace", world.obs_edge(pc), mm.sample(t, w), TOL, f"{what} piece {j}")
            log.probe("pieces")
        unharmed("by sampling the pieces")
        log.ev(what, core.digest([np.round(p.x, 9) for p in out]))
        if s["post"]:
            j = s["which"] % len(new)
            pc, mm, _ = new[j]
            with sut(f"{s['post']} on piece {j}"):
                for op in s["post"]:
                    c01.call(pc, op, quads); mm.apply(op)
                if n % 2: pc.parameterize(q)
            core.must_equal("piece-history", world.obs_edge(pc), mm.sample(t, w), TOL, f"piece {j} after {s['post']}")
        unharmed("by transforming a piece")
        pieces = pieces + new
    with sut("parameterize parent"):
        e.parameterize(q)
    tt, ww = quad_nodes(case["quad"], *case["q"])
    core.must_equal("parent", world.obs_edge(e), m.sample(tt, ww), TOL, "parent re-parameterized after splitting")
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("pieces", 0) >= 2


def shrink(case):
    for c in core.shrink_lists(case, ["splits", "hist"]):
        if c["splits"]:
            yield c
    for i, s in enumerate(case["splits"]):
        for key in ("fault", "bad"):
            if s.get(key):
                yield dict(case, splits=case["splits"][:i] + [{k: v for k, v in s.items() if k != key}] + case["splits"][i + 1:])
        if s["post"]:
            yield dict(case, splits=case["splits"][:i] + [dict(s, post=[])] + case["splits"][i + 1:])
        if len(s["u"]) > 1:
            yield dict(case, splits=case["splits"][:i] + [dict(s, u=s["u"][1:])] + case["splits"][i + 1:])
