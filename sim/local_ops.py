"""Histories of local computations on one sampled cell: generation, execution, observation (used by C05, C09, C10, C11)."""
from __future__ import annotations
import numpy as np
from . import problem as pr, world


def cell_spec(rng, holes=True):
    for _ in range(60):
        s = world.gen_spec(rng, cells=rng.choice([(1, 1), (1, 1), (2, 1)]), max_holes=(1 if holes and rng.random() < .6 else 0), curved=.4, splines=rng.choice([0, 0, 0, .4]))
        if len(s["edges"]) <= 11:
            return s
    return s


def gen_trace(rng):
    k = rng.choice(["poly", "poly", "values", "fun", "const"])
    if k == "poly": return ["poly", pr.poly_terms(rng, 2)]
    if k == "values": return ["values", rng.randint(1, 5), round(rng.uniform(-2, 2), 3)]
    if k == "fun": return ["fun", rng.choice(["sin", "exp", "prod"])]
    return ["const", round(rng.uniform(-2, 2), 3)]


FUN = {"sin": lambda x, y: np.sin(2 * x) * np.cosh(y), "exp": lambda x, y: np.exp(.5 * x) * np.cos(y), "prod": lambda x, y: x * y + .25}


def make_trace(K, t):
    pf = world.pf
    if t[0] == "poly":
        return pf.DirichletTrace(edges=K.get_edges(), funcs=pr.poly(t[1]))
    if t[0] == "values":
        x1, x2 = K.get_boundary_points()
        return pf.DirichletTrace(edges=K.get_edges(), values=np.cos(t[1] * x1) * t[2] + x2)
    if t[0] == "fun":
        return pf.DirichletTrace(edges=K.get_edges(), funcs=FUN[t[1]])
    return pf.DirichletTrace(edges=K.get_edges(), values=t[1])


def gen_op(rng, arith=.3):
    """One operation; operands are numbers taken modulo what exists."""
    i, j, c = rng.randrange(6), rng.randrange(6), rng.choice([2.0, -1.5, .25, 3, 1.0, -1])
    r = rng.random()
    if r < arith:
        return ["arith", rng.choice(["add", "sub", "mul", "rmul", "div"]), i, j, c]
    r = (r - arith) / (1 - arith)
    if rng.random() < .07:
        return ["tpart", gen_trace(rng), [[rng.choice(["wnd", "wnd", "wtd", "wtd", "values", "fun"]), rng.randrange(8), round(rng.uniform(-2, 2), 3)] for _ in range(rng.choice([1, 2, 3]))]]
    if rng.random() < .1:      # the older class of local functions
        return ["leg", i, pr.poly_terms(rng, 2), j, int(rng.random() < .9)] if rng.random() < .5 else ["lip", rng.choice(["h1", "l2"]), i, j]
    if r < .08: return ["nyst", rng.choice(["fft", "fft", "direct"])]
    if r < .22: return ["trace", gen_trace(rng)]
    if r < .40: return ["fun", i, (pr.poly_terms(rng, 2) if rng.random() < .6 else None), (j if rng.random() < .8 else None), int(rng.random() < .4), int(rng.random() < .25)]
    if r < .50: return ["tarith", rng.choice(["add", "sub", "mul", "div"]), i, j, c]
    if r < .64: return ["ip", rng.choice(["h1", "l2"]), i, j, rng.choice(["full", "full", "harm", "poly"])]
    if r < .74: return ["interior", i, int(rng.random() < .5)]
    if r < .80: return ["space", rng.choice([1, 1, 2, 1, 1, 2, 3]), int(rng.random() < .4), 0]
    if r < .86: return ["esp", i, rng.choice([1, 2, 3])]
    if r < .92: return ["conj", i, j]
    if r < .97: return ["values", i]
    return ["part", rng.choice(["harm", "poly"]), rng.choice(["add", "sub", "mul", "div"]), i, j, c]


class World:
    """Objects alive in one history."""

    def __init__(self, K):
        self.K, self.N, self.T, self.F, self.E, self.L, self.G = K, [], [], [], [], [], []

    def pick(self, xs, i):
        return xs[i % len(xs)] if xs else None

    def prepare(self, op):
        """Callable performing `op` and returning (kind, object), or None if its operands do not exist."""
        pf, K, p = world.pf, self.K, self.pick
        k = op[0]
        if k == "nyst":
            return lambda: ("N", pf.NystromSolver(K, antilap_strategy=op[1]))
        if k == "trace":
            return lambda: ("T", make_trace(K, op[1]))
        if k == "tpart":        # a trace put together edge by edge
            def edgewise():
                t = make_trace(K, op[1])
                for what, e, v in op[2]:
                    e %= t.num_edges
                    if what == "fun" and op[1][0] not in ("poly", "fun"): what = "values"
                    if what == "fun": t.set_func_on_edge(e, lambda x, y: v * x)
                    else: {"wnd": t.set_weighted_normal_derivative_on_edge, "wtd": t.set_weighted_tangential_derivative_on_edge, "values": t.set_trace_values_on_edge}[what](e, v)
                return "T", t
            return edgewise
        if k == "fun":
            n = p(self.N, op[1])
            if n is None: return None
            kw = {}
            if op[2] is not None: kw["laplacian"] = pr.poly(op[2])
            if op[3] is not None and self.T: kw["trace"] = p(self.T, op[3])
            return lambda: ("F", pf.LocalPoissonFunction(nyst=n, evaluate_interior=bool(op[4]), evaluate_gradient=bool(op[5]), **kw))
        if k == "arith":
            a, b, c = p(self.F, op[2]), p(self.F, op[3]), op[4]
            if a is None: return None
            return {"add": lambda: ("F", a + b), "sub": lambda: ("F", a - b), "mul": lambda: ("F", a * c), "rmul": lambda: ("F", c * a), "div": lambda: ("F", a / c)}[op[1]]
        if k == "tarith":
            a, b, c = p(self.T, op[2]), p(self.T, op[3]), op[4]
            if a is None: return None
            return {"add": lambda: ("T", a + b), "sub": lambda: ("T", a - b), "mul": lambda: ("T", c * a), "div": lambda: ("T", a / c)}[op[1]]
        if k == "part":
            a, b, c = p(self.F, op[3]), p(self.F, op[4]), op[5]
            if a is None: return None
            a, b = (a.harm, b.harm) if op[1] == "harm" else (a.poly, b.poly)
            return {"add": lambda: ("V", obs_part(a + b)), "sub": lambda: ("V", obs_part(a - b)), "mul": lambda: ("V", obs_part(a * c)), "div": lambda: ("V", obs_part(a / c))}[op[2]]
        if k == "leg":
            n, t = p(self.N, op[1]), p(self.T, op[3])
            if n is None or t is None: return None
            return lambda: ("G", pf.LocalFunction(n, laplacian=pr.poly(op[2]), trace=t, compute_for_l2=bool(op[4])))
        if k == "lip":
            a, b = p(self.G, op[2]), p(self.G, op[3])
            if a is None: return None
            if op[1] == "l2": a, b = ([g for g in (a, b) if hasattr(g, "biharmonic_trace")] * 2 + [None, None])[:2]
            if a is None: return None
            return (lambda: ("V", float(a.get_h1_semi_inner_prod(b)))) if op[1] == "h1" else (lambda: ("V", float(a.get_l2_inner_prod(b))))
        if k == "ip":
            a, b = p(self.F, op[2]), p(self.F, op[3])
            if a is None: return None
            o = {"full": b, "harm": b.harm, "poly": b.poly}[op[4]]
            return (lambda: ("V", float(a.get_h1_semi_inner_prod(o)))) if op[1] == "h1" else (lambda: ("V", float(a.get_l2_inner_prod(o))))
        if k == "interior":
            a = p(self.F, op[1])
            if a is None: return None

            def go():
                a.compute_interior_values(bool(op[2]))
                return "V", [np.array(a.int_vals)] + ([np.array(a.int_grad1), np.array(a.int_grad2)] if op[2] else [])
            return go
        if k == "space":
            return lambda: ("L", pf.LocalPoissonSpace(K, deg=op[1], compute_interior_values=bool(op[2]), verbose=False))
        if k == "esp":
            es = K.get_edges(); e = es[op[1] % len(es)]
            return lambda: ("E", pf.EdgeSpace(e, op[2]))
        if k == "conj":
            n, a = p(self.N, op[1]), p(self.F, op[2])
            if n is None or a is None: return None
            phi = np.array(a.harm.trace.values)
            return lambda: ("V", [np.array(x) for x in n.get_harmonic_conjugate(phi)])
        if k == "values":
            a = p(self.F, op[1])
            return None if a is None else (lambda: ("V", np.array(a.get_trace_values())))
        raise AssertionError(op)

    def keep(self, kind, obj):
        if kind in "NTFELG":
            getattr(self, kind).append(obj)

    def obs(self, kind, obj):
        if kind == "N": return pr.obs_nyst(obj)
        if kind == "T": return world.obs_trace(obj)
        if kind == "F": return obs_fun(obj)
        if kind == "E": return dict(v=[world.obs_poly(q) for q in obj.vert_fun_traces], e=[world.obs_poly(q) for q in obj.edge_fun_traces], k=[[q.vert_idx, q.edge_idx, q.edge_space_idx] for q in obj.vert_fun_global_keys + obj.edge_fun_global_keys])
        if kind == "L": return obs_space(obj)
        if kind == "G": return obs_legacy(obj)
        return obj

    def state(self):
        """Everything readable in this world."""
        return dict(cell=world.obs_cell(self.K), N=[pr.obs_nyst(n) for n in self.N], T=[world.obs_trace(t) for t in self.T], F=[obs_fun(f) for f in self.F],
                    E=[self.obs("E", e) for e in self.E], L=[obs_space(x) for x in self.L], G=[obs_legacy(g) for g in self.G])


def obs_fun(f):
    return pr.obs_fun(f)


def obs_legacy(g):
    b = getattr(g, "biharmonic_trace", None)
    return dict(p=world.obs_poly(g.poly_part), pt=world.obs_trace(g.poly_part_trace), t=world.obs_trace(g.harm_part_trace), c=np.array(g.harm_conj_trace.values),
                log=[float(a) for a in g.log_coef], b=None if b is None else world.obs_trace(b))


def obs_space(L):
    return dict(pr.obs_local_space(L))


def obs_part(h):
    if hasattr(h, "exact_form"):
        return dict(p=world.obs_poly(h.exact_form), t=world.obs_trace(h.trace), g=[world.obs_poly(h.grad1), world.obs_poly(h.grad2)], a=world.obs_poly(h.antilap), at=world.obs_trace(h.antilap_trace))
    return dict(t=world.obs_trace(h.trace), psi=np.array(h.psi.values), c=np.array(h.conj_trace.values), log=[float(a) for a in h.log_coef], b=world.obs_trace(h.biharmonic_trace))
