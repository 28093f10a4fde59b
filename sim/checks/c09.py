"""C09: local function and trace arithmetic is linear and never disturbs its operands."""
import numpy as np
from .. import core, local_ops as lo, problem as pr, world
from ..core import Violation, sut

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 8000}
NEED_JIT = True
CASE_TIMEOUT = 240
RULE = ("one simulated run: a random cell and a seeded history of building traces and local functions, their sums, differences, scalings and divisions, arithmetic on their harmonic and polynomial parts, "
        "interior values, inner products, local spaces, edits of traces, of caller-owned polynomials, arrays and lists the objects were built from, scribbling over discarded functions, and rejected "
        "calls; after every step every live object must equal its linear combination of the originals, which a pristine process built one by one; counted if at least "
        "four objects were compared; distinct event logs")
REAL = ["DirichletTrace", "LocalPoissonFunction", "LocalHarmonic", "LocalPolynomial", "inner_prod", "Polynomial", "LocalPoissonSpace", "NystromSolver", "MeshCell"]
STUB = ["default interior grid 7x7 instead of 33x33"]
ASSUMPTIONS = ["values agree to 1e-8 of the sum of the magnitudes combined"]
TOL = 1e-8


# ------------------------------------------------------------------ generation

def gen_op(rng):
    i, j, k, c = rng.randrange(8), rng.randrange(8), rng.randrange(12), rng.choice([2.0, -1.5, .25, 3, 1.0, -1, 1, 0, .001, -7])
    r = rng.random()
    if r < .10: return ["trace", lo.gen_trace(rng) if rng.random() > .08 else ["none", 0], rng.choice(["new", "new", "edges", "list"])]
    if r < .20: return ["fun", i, (pr.poly_terms(rng, 2) if rng.random() < .6 else None), (j if rng.random() < .85 else None), int(rng.random() < .45), int(rng.random() < .4)]
    if r < .42: return ["F", rng.choice(["add", "sub", "mul", "rmul", "div", "add", "sub"]), i, j, c]
    if r < .50: return ["T", rng.choice(["add", "sub", "mul", "rmul", "div"]), i, j, c]
    if r < .60: return ["part", rng.choice(["H", "P"]), rng.choice(["take", "add", "sub", "mul", "rmul", "div"]), i, j, c]
    if r < .69: return ["ip", rng.choice(["h1", "l2"]), rng.choice(["FF", "FF", "FH", "FP", "HH", "HP", "PH", "PP"]), i, j]
    if r < .74: return ["interior", i, int(rng.random() < .5)]
    if r < .77: return ["space", rng.choice([1, 1, 2]), int(rng.random() < .3), int(rng.random() < .3)]
    if r < .80: return ["lpoly", i, None if rng.random() < .5 else pr.poly_terms(rng, 2)]
    if r < .82: return ["lharm", i, j]
    if r < .88: return ["tedit", rng.choice(["edge", "edge", "vals", "fun", "wnd", "wtd", "funcs", "wndedge"]), i, k, c, pr.poly_terms(rng, 2)]
    if r < .92: return ["mutate", rng.choice(["poly", "array", "list"]), i, c]
    if r < .95: return ["scribble", rng.choice(["F", "F", "T", "H", "P"]), i]
    if r < .97: return ["query", i]
    return ["reject", rng.choice(["F+1", "F*s", "F/0", "T+1", "T*T", "T/0", "H+P", "P+F", "H/0", "P/0", "T.edge", "T.len", "F-T", "fun", "T.list", "T.list", "T.wnd", "T.wtd", "T.short", "T.funcs", "T.funcs"]), i]


def gen(rng, i, tier):
    spec = lo.cell_spec(rng)
    ops = [["nyst", rng.choice(["fft", "fft", "direct"])], ["trace", lo.gen_trace(rng), "new"], ["fun", 0, pr.poly_terms(rng, 2), 0, int(rng.random() < .5), int(rng.random() < .5)],
           ["fun", 0, (pr.poly_terms(rng, 2) if rng.random() < .6 else None), rng.choice([0, None]), int(rng.random() < .7), int(rng.random() < .3)]]
    if rng.random() < .2:
        ops.insert(1, ["nyst", "direct"])
    ops += [gen_op(rng) for _ in range(rng.choice([6, 12, 20] if tier == "quick" else [10, 20, 40]))]
    if rng.random() < .3:       # data a trace was built from changes between building and editing it
        k = rng.randrange(4, len(ops) + 1)
        ops[k:k] = [["trace", rng.choice([["poly", pr.poly_terms(rng, 2)], ["fun", "sin"]]), rng.choice(["list", "edges"])], ["mutate", "list", -1, 1.0],
                    ["tedit", "fun", -1, rng.randrange(12), 1.0, pr.poly_terms(rng, 2)]]
    return dict(spec=spec, cell=rng.randrange(8), q=[rng.choice([4, 5, 6]), rng.choice([3, 5])], ops=ops)


# ------------------------------------------------------------------ model

class MT:       # trace: known arrays; funcs = list of vectors (values of the function of each edge on the whole boundary) or None
    def __init__(self, v, n=None, t=None, funcs=None):
        self.v, self.n, self.t, self.funcs = v, n, t, funcs


class MF:       # function or part: combination of atoms; iv/gv: must interior values / gradients be there
    def __init__(self, c, iv=False, gv=False):
        self.c, self.iv, self.gv = c, iv, gv


def lin(a, ca, b=None, cb=0.0):
    out = {k: ca * v for k, v in a.items()}
    for k, v in (b or {}).items():
        out[k] = out.get(k, 0.0) + cb * v
    return out


class Model:
    """Executes a history on numbers.  `atoms` collects what has to be built by the reference."""

    def __init__(self, x1, x2, slices):
        self.x1, self.x2, self.sl = x1, x2, slices
        self.atoms, self.nyst = [], []
        self.T, self.F, self.H, self.P = [], [], [], []
        self.polys, self.arrays, self.lists = [], [], []     # caller-owned data (terms, -, -)

    def pv(self, terms):
        return sum((c * self.x1 ** a * self.x2 ** b for c, a, b in terms), np.zeros(len(self.x1)))

    def tv(self, t):
        if t[0] == "poly": return self.pv(t[1])
        if t[0] == "values": return np.cos(t[1] * self.x1) * t[2] + self.x2
        if t[0] == "fun": return lo.FUN[t[1]](self.x1, self.x2) + 0 * self.x1
        return np.full(len(self.x1), float(t[1]))

    def atom(self, a):
        self.atoms.append(a)
        return {len(self.atoms) - 1: 1.0}

    def step(self, op):
        """Returns what the operation must yield: ('T'|'F'|'H'|'P'|'L'|'ip'|..., ...) or None when it is to be skipped."""
        k = op[0]
        pick = lambda xs, i: (i % len(xs)) if xs else None
        if k == "nyst":
            self.nyst.append(op[1]); return ("nyst",)
        if k == "trace":
            v = self.tv(op[1])
            self.T.append(MT(v.copy(), funcs=[v] * len(self.sl) if op[1][0] in ("poly", "fun", "none") else None))
            return ("T", len(self.T) - 1)
        if k == "fun":
            n = pick(self.nyst, op[1])
            if n is None: return None
            lap = op[2]
            if lap is not None:
                self.polys.append(lap)
            t = None if op[3] is None else pick(self.T, op[3])
            v = np.zeros(len(self.x1)) if t is None else self.T[t].v.copy()
            self.F.append(MF(self.atom(("fun", self.nyst[n], lap, v)), bool(op[4] or op[5]), bool(op[5])))
            return ("F", n, t)
        if k in ("F", "T"):
            xs = getattr(self, k)
            a, b, c = pick(xs, op[2]), pick(xs, op[3]), op[4]
            if a is None or (op[1] == "div" and c == 0): return None
            A, B = xs[a], xs[b]
            s, u, w = {"add": (1, 1, B), "sub": (1, -1, B), "mul": (c, 0, None), "rmul": (c, 0, None), "div": (1 / c if c else 0, 0, None)}[op[1]]
            if k == "F":
                xs.append(MF(lin(A.c, s, w.c if w else None, u), A.iv and (w is None or w.iv), A.gv and (w is None or w.gv)))
            else:
                f = lambda p, q: None if p is None or (w is not None and q is None) else s * p + (u * q if w is not None else 0)
                xs.append(MT(f(A.v, w and w.v), f(A.n, w and w.n), f(A.t, w and w.t)))
            return (k, a, b)
        if k == "part":
            xs = getattr(self, op[1])
            if op[2] == "take" or not xs:
                a = pick(self.F, op[3])
                if a is None: return None
                xs.append(MF(dict(self.F[a].c)))
                return ("take", a)
            a, b, c = pick(xs, op[3]), pick(xs, op[4]), op[5]
            if op[2] == "div" and c == 0: return None
            s, u, w = {"add": (1, 1, xs[b]), "sub": (1, -1, xs[b]), "mul": (c, 0, None), "rmul": (c, 0, None), "div": (1 / c if c else 0, 0, None)}[op[2]]
            xs.append(MF(lin(xs[a].c, s, w.c if w else None, u)))
            return ("part", a, b)
        if k == "ip":
            X, Y = getattr(self, op[2][0]), getattr(self, op[2][1])
            a, b = pick(X, op[3]), pick(Y, op[4])
            return None if a is None or b is None else ("ip", a, b)
        if k == "interior":
            a = pick(self.F, op[1])
            if a is None: return None
            self.F[a].iv = True; self.F[a].gv = self.F[a].gv or bool(op[2])
            return ("interior", a)
        if k == "space":
            return ("space",)
        if k == "lpoly":
            if op[2] is None:
                if not self.polys: return None
                terms = self.polys[op[1] % len(self.polys)]; src = op[1] % len(self.polys)
            else:
                terms, src = op[2], len(self.polys)
                self.polys.append(terms)
            self.P.append(MF(self.atom(("lpoly", terms))))
            return ("lpoly", src)
        if k == "lharm":
            n, t = pick(self.nyst, op[1]), pick(self.T, op[2])
            if n is None or t is None: return None
            self.H.append(MF(self.atom(("lharm", self.nyst[n], self.T[t].v.copy()))))
            return ("lharm", n, t)
        if k == "tedit":
            t = pick(self.T, op[2])
            if t is None: return None
            T, e, c, terms = self.T[t], op[3] % len(self.sl), op[4], op[5]
            a, b = self.sl[e]
            if op[1] == "edge": T.v = T.v.copy(); T.v[a:b] = c
            elif op[1] == "vals": T.v = self.pv(terms)
            elif op[1] == "fun":
                if T.funcs is None: return None
                T.funcs = list(T.funcs); T.funcs[e] = self.pv(terms)
                T.v = np.concatenate([T.funcs[q][a:b] for q, (a, b) in enumerate(self.sl)])
            elif op[1] == "funcs":
                T.v = self.pv(terms); T.funcs = [T.v.copy()] * len(self.sl)
            elif op[1] == "wnd": T.n = self.pv(terms)
            elif op[1] == "wtd": T.t = self.pv(terms)
            elif op[1] == "wndedge":
                T.n = np.zeros(len(self.x1)) if T.n is None else T.n.copy()
                T.n[a:b] = c
            return ("tedit", t, e)
        if k == "mutate":
            return ("mutate",)
        if k == "scribble":
            xs = getattr(self, op[1])
            if len(xs) < 2: return None
            a = op[2] % len(xs)
            xs.pop(a)
            return ("scribble", a)
        if k == "query":
            a = pick(self.F, op[1])
            return None if a is None else ("query", a)
        if k == "reject":
            return ("reject",)
        raise AssertionError(op)


def slices(K):
    out, s = [], 0
    for e in K.get_edges():
        out.append((s, s + e.num_pts - 1)); s += e.num_pts - 1
    return out


def cell(case):
    m = world.build(case["spec"])
    ids = list(m.cell_idx_list)
    K = m.get_cell(ids[case["cell"] % len(ids)])
    K.parameterize(pr.quad(case["q"]))
    return K, m


def obs_h(h):
    d = dict(t=h.trace.values, n=h.trace.w_norm_deriv, w=h.trace.w_tang_deriv, psi=h.psi.values, conj=h.conj_trace.values, log=np.array(h.log_coef, float), b=h.biharmonic_trace.values, bn=h.biharmonic_trace.w_norm_deriv)
    return {k: np.array(v, float) for k, v in d.items()}


def obs_p(p):
    d = {}
    for nm, q in (("exact_form", p.exact_form), ("grad1", p.grad1), ("grad2", p.grad2), ("antilap", p.antilap)):
        d[nm] = world.obs_poly(q)
    for nm, v in (("t", p.trace.values), ("n", p.trace.w_norm_deriv), ("w", p.trace.w_tang_deriv), ("at", p.antilap_trace.values), ("an", p.antilap_trace.w_norm_deriv)):
        d[nm] = np.array(v, float)
    return d


def part_class(module, name):
    from importlib import import_module
    return getattr(world.pf, name, None) or getattr(import_module("puncturedfem.locfun." + module), name)


def reference(case):
    """Atoms one by one, each from fresh data; and their tables of inner products."""
    pf = world.pf
    from importlib import import_module
    ipm = import_module("puncturedfem.locfun.inner_prod")
    with world.mute():
        K, _m = cell(case)
        x1, x2 = K.get_boundary_points()
        M = Model(np.array(x1), np.array(x2), slices(K))
        spaces = []
        for op in case["ops"]:
            r = M.step(op)
            if r and r[0] == "space":
                L = pf.LocalPoissonSpace(K, deg=op[1], compute_interior_values=bool(op[2]), compute_interior_gradient=bool(op[3]), verbose=False)
                spaces.append(L.num_funs)
                for q in range(L.num_funs):
                    M.F.append(MF(M.atom(("basis", op[1], q)), bool(op[2] or op[3]), bool(op[3])))
        nyst, L = {}, {}
        objs = []
        for a in M.atoms:
            if a[0] in ("fun", "lharm"):
                n = nyst.get(a[1]) or nyst.setdefault(a[1], pf.NystromSolver(K, antilap_strategy=a[1]))
            if a[0] == "fun":
                kw = {} if a[2] is None else dict(laplacian=pr.poly(a[2]))
                objs.append(pf.LocalPoissonFunction(nyst=n, trace=pf.DirichletTrace(edges=K.get_edges(), values=a[3].copy()), evaluate_gradient=True, **kw))
            elif a[0] == "basis":
                if a[1] not in L:
                    L[a[1]] = pf.LocalPoissonSpace(K, deg=a[1], compute_interior_gradient=True, verbose=False)
                f = L[a[1]].get_basis()[a[2]]
                f.compute_interior_values(True)
                objs.append(f)
            elif a[0] == "lpoly":
                objs.append(part_class('local_polynomial', 'LocalPolynomial')(pr.poly(a[1]), K))
            else:
                objs.append(part_class('local_harmonic', 'LocalHarmonic')(pf.DirichletTrace(edges=K.get_edges(), values=a[2].copy()), n))
        H = [o.harm if hasattr(o, "harm") else (o if hasattr(o, "psi") else None) for o in objs]
        P = [o.poly if hasattr(o, "poly") else (o if hasattr(o, "exact_form") else None) for o in objs]
        F = [o if hasattr(o, "harm") else None for o in objs]
        tab = {}
        for nm, part, full in (("h1", ipm.h1_semi_inner_prod, "get_h1_semi_inner_prod"), ("l2", ipm.l2_inner_prod, "get_l2_inner_prod")):
            for a, A in (("F", F), ("H", H), ("P", P)):
                for b, B in (("F", F), ("H", H), ("P", P)):
                    if b == "F" and a != "F":
                        continue
                    used = {(op[1], op[2]) for op in case["ops"] if op[0] == "ip"}
                    if (nm, a + b) not in used:
                        continue
                    tab[nm, a + b] = {(i, j): float(getattr(u, full)(v) if a == "F" else part(u, v, K)) for i, u in enumerate(A) if u is not None for j, v in enumerate(B) if v is not None}
        return dict(x1=np.array(x1), x2=np.array(x2), sl=slices(K), spaces=spaces,
                    H=[None if h is None else obs_h(h) for h in H], P=[None if p is None else obs_p(p) for p in P],
                    I=[None if f is None else [np.array(f.int_vals), np.array(f.int_grad1), np.array(f.int_grad2)] for f in F], tab=tab)


# ------------------------------------------------------------------ comparison

def combine(c, arrs):
    """(combination, magnitude) of arrays or term dictionaries."""
    c = {k: v for k, v in c.items()}
    if not c:
        return 0.0, 0.0
    first = arrs[next(iter(c))]
    if isinstance(first, dict):
        out, mag = {}, 0.0
        for k, v in c.items():
            for m, q in arrs[k].items():
                out[m] = out.get(m, 0.0) + v * q
                mag = max(mag, abs(v * q))
        return out, mag
    out, mag = np.zeros_like(first), 0.0
    for k, v in c.items():
        out = out + v * arrs[k]
        mag = max(mag, abs(v) * float(np.max(np.abs(arrs[k]), initial=0.0)))
    return out, mag


def same(kind, got, want, mag, what):
    if isinstance(want, dict):
        for m in set(got) | set(want):
            if abs(got.get(m, 0.0) - want.get(m, 0.0)) > TOL * max(mag, 1e-3) + 1e-11:
                raise Violation(kind, f"{what}: coefficient of x^{m[0]} y^{m[1]}: {got.get(m, 0.0)!r} instead of {want.get(m, 0.0)!r}")
        return
    g = np.asarray(got, float)
    if g.shape != np.shape(want):
        raise Violation(kind, f"{what}: shape {g.shape} instead of {np.shape(want)}")
    if g.size:
        d = np.abs(g - want)
        if not np.all(d <= TOL * max(mag, 1e-3) + 1e-12):
            k = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            raise Violation(kind, f"{what}: entry {k}: {g.flat[k]!r} instead of {np.asarray(want).flat[k]!r} (scale {mag:.3g})")


def check_all(W, M, ref, what, log):
    H, P, I = ref["H"], ref["P"], ref["I"]
    for q, t in enumerate(W.T):
        m = M.T[q]
        for nm, got, want in (("values", t.values, m.v), ("w_norm_deriv", t.w_norm_deriv, m.n), ("w_tang_deriv", t.w_tang_deriv, m.t)):
            if (got is None) != (want is None):
                if want is None:
                    raise Violation("trace", f"{what}: trace {q}: {nm} appeared")
                raise Violation("trace", f"{what}: trace {q}: {nm} missing")
            if want is not None:
                same("trace", got, want, float(np.max(np.abs(want), initial=0.0)), f"{what}: trace {q} {nm}")
    for nm, objs, ms in (("function", W.F, M.F), ("harmonic part", W.H, M.H), ("polynomial part", W.P, M.P)):
        for q, (f, m) in enumerate(zip(objs, ms)):
            w = f"{what}: {nm} {q}"
            if nm != "polynomial part":
                o = obs_h(f.harm if nm == "function" else f)
                for k in o:
                    same("value", o[k], *combine(m.c, [h and h[k] for h in H]), f"{w}: {k}")
            if nm != "harmonic part":
                o = obs_p(f.poly if nm == "function" else f)
                for k in o:
                    same("value", o[k], *combine(m.c, [p and p[k] for p in P]), f"{w}: polynomial {k}")
            if nm == "function":
                a, ma = combine(m.c, [h and h["t"] for h in H]); b, mb = combine(m.c, [p and p["t"] for p in P])
                same("value", f.get_trace_values(), a + b, max(ma, mb), f"{w}: trace values")
                for k, (got, need) in enumerate(((f.int_vals, m.iv), (f.int_grad1, m.gv), (f.int_grad2, m.gv))):
                    lab = ("interior values", "gradient 1", "gradient 2")[k]
                    if got is None:
                        if need:
                            raise Violation("value", f"{w}: {lab} missing")
                        continue
                    same("value", got, *combine(m.c, [i and i[k] for i in I]), f"{w}: {lab}")
    log.probe("compared", len(W.T) + len(W.F) + len(W.H) + len(W.P))


class World:
    def __init__(self, K):
        self.K, self.N, self.T, self.F, self.H, self.P = K, [], [], [], [], []
        self.polys, self.arrays, self.lists = [], [], []


def rejected(W, op, M):
    pf = world.pf
    f, t, h, p = (xs[op[2] % len(xs)] if xs else None for xs in (W.F, W.T, W.H, W.P))
    n = W.N[0] if W.N else None
    bad = np.zeros(3)
    calls = []

    def fails(x, y):        # a function of the caller that fails after a while
        calls.append(1)
        if len(calls) > 5: raise ZeroDivisionError("function of the caller")
        return 0.5

    def items(short=False):    # values for every edge, the last of them of the wrong size (or missing)
        vs = [np.ones(b - a) for a, b in t.edge_sampled_indices]
        return vs[:-1] if short else vs[:-1] + [np.ones(3)]
    c = {"F+1": (f, lambda: f + 1), "F*s": (f, lambda: f * "a"), "F/0": (f, lambda: f / 0), "T+1": (t, lambda: t + 1.0), "T*T": (t, lambda: t * t), "T/0": (t, lambda: t / 0),
         "H+P": (h if p is not None else None, lambda: h + p), "P+F": (p if f is not None else None, lambda: p + f), "H/0": (h, lambda: h / 0), "P/0": (p, lambda: p / 0),
         "T.edge": (t, lambda: t.set_trace_values_on_edge(99, 1.0)), "T.len": (t, lambda: t.set_trace_values(bad)), "T.list": (t, lambda: t.set_trace_values(items())), "T.short": (t, lambda: t.set_trace_values(items(True))),
         "T.wnd": (t, lambda: t.set_weighted_normal_derivative(items())), "T.wtd": (t, lambda: t.set_weighted_tangential_derivative(items())),
         "T.funcs": (t, lambda: t.set_funcs([(lambda x, y: 0.25)] * (len(t.edges) - 1) + [fails])), "F-T": (f if t is not None else None, lambda: f - t),
         "fun": (n if t is not None else None, lambda: pf.LocalPoissonFunction(nyst=n, trace=bad))}[op[1]]
    if c[0] is None:
        return False
    try:
        c[1]()
    except Exception:
        return True
    raise Violation("not-rejected", f"{op[1]} was accepted")


ARITH = {"add": lambda a, b, c: a + b, "sub": lambda a, b, c: a - b, "mul": lambda a, b, c: a * c, "rmul": lambda a, b, c: c * a, "div": lambda a, b, c: a / c}


def scribble(o):
    """Overwrite everything in a discarded object in place."""
    def arr(x):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f":
            x[...] = 77.0

    def tr(t):
        if t is not None:
            for k in ("values", "w_norm_deriv", "w_tang_deriv"):
                arr(getattr(t, k, None))

    def po(p):
        p += world.pf.Polynomial([(5.0, 1, 1)])
    if hasattr(o, "harm"):
        scribble(o.harm); scribble(o.poly)
        for k in ("int_vals", "int_grad1", "int_grad2"):
            arr(getattr(o, k, None))
    elif hasattr(o, "psi"):
        for t in (o.trace, o.psi, o.conj_trace, o.biharmonic_trace):
            tr(t)
        o.log_coef[:] = [9.0] * len(o.log_coef)
    elif hasattr(o, "exact_form"):
        for p in (o.exact_form, o.grad1, o.grad2, o.antilap):
            po(p)
        tr(o.trace); tr(o.antilap_trace)
    else:
        tr(o)
        if hasattr(o, "funcs"):
            o.funcs[:] = [lambda x, y: 3.0 * x] * len(o.funcs)


def perform(W, M, op, r, ref, log):
    pf, K, k = world.pf, W.K, op[0]
    if k == "nyst":
        W.N.append(pf.NystromSolver(K, antilap_strategy=op[1]))
    elif k == "trace":
        t = op[1]
        edges = K.get_edges() if op[2] != "new" else K
        if t[0] == "poly":
            p = pr.poly(t[1]); W.polys.append(p)
            fs = p
            if op[2] == "list":
                fs = [pr.poly(t[1]) for _ in K.get_edges()]; W.lists.append(fs)
            W.T.append(pf.DirichletTrace(edges=edges, funcs=fs))
        elif t[0] == "fun":
            fs = lo.FUN[t[1]]
            if op[2] == "list":
                fs = [lo.FUN[t[1]] for _ in K.get_edges()]; W.lists.append(fs)
            W.T.append(pf.DirichletTrace(edges=edges, funcs=fs))
        elif t[0] == "values":
            v = M.tv(t)
            W.arrays.append(v)
            if op[2] == "list":
                vs = [v[a:b] for a, b in M.sl]; W.lists.append(vs)
                W.T.append(pf.DirichletTrace(edges=edges, values=vs))
            else:
                W.T.append(pf.DirichletTrace(edges=edges, values=v))
        elif t[0] == "none":
            W.T.append(pf.DirichletTrace(edges=edges))
        else:
            W.T.append(pf.DirichletTrace(edges=edges, values=t[1]))
        if op[2] == "edges":
            W.lists.append(edges)
    elif k == "fun":
        kw = {}
        if op[2] is not None:
            p = pr.poly(op[2]); kw["laplacian"] = p; W.polys.append(p)
        if r[2] is not None:
            kw["trace"] = W.T[r[2]]
        W.F.append(pf.LocalPoissonFunction(nyst=W.N[r[1]], evaluate_interior=bool(op[4]), evaluate_gradient=bool(op[5]), **kw))
    elif k in ("F", "T"):
        xs = getattr(W, k)
        xs.append(ARITH[op[1]](xs[r[1]], xs[r[2]], op[4]))
    elif k == "part":
        xs = getattr(W, op[1])
        if r[0] == "take":
            f = W.F[r[1]]
            xs.append((f.harm if op[1] == "H" else f.poly) * 1.0)
        else:
            xs.append(ARITH[op[2]](xs[r[1]], xs[r[2]], op[5]))
    elif k == "ip":
        from importlib import import_module
        ipm = import_module("puncturedfem.locfun.inner_prod")
        X, Y = getattr(W, op[2][0]), getattr(W, op[2][1])
        a, b = X[r[1]], Y[r[2]]
        if op[2][0] == "F":
            v = (a.get_h1_semi_inner_prod if op[1] == "h1" else a.get_l2_inner_prod)(b)
        else:
            v = (ipm.h1_semi_inner_prod if op[1] == "h1" else ipm.l2_inner_prod)(a, b, K)
        tab = ref["tab"][op[1], op[2]]
        ca, cb = getattr(M, op[2][0])[r[1]].c, getattr(M, op[2][1])[r[2]].c
        want = sum(x * y * tab[i, j] for i, x in ca.items() for j, y in cb.items())
        mag = max([abs(x * y * tab[i, j]) for i, x in ca.items() for j, y in cb.items()] + [1e-3])
        if not abs(float(v) - want) <= 1e-7 * mag:
            raise Violation("inner-product", f"{op}: {float(v)!r}, the combination of the originals gives {want!r}")
        log.probe("inner-products")
    elif k == "interior":
        W.F[r[1]].compute_interior_values(bool(op[2]))
    elif k == "space":
        L = pf.LocalPoissonSpace(K, deg=op[1], compute_interior_values=bool(op[2]), compute_interior_gradient=bool(op[3]), verbose=False)
        B = L.get_basis()
        for q, f in enumerate(B):
            W.F.append(f)
            M.F.append(MF(M.atom(("basis", op[1], q)), bool(op[2] or op[3]), bool(op[3])))
        B[:] = B[:1]
    elif k == "lpoly":
        p = pr.poly(op[2] if op[2] is not None else M.polys[r[1]])     # the (internal) class keeps the polynomial it is given
        W.P.append(part_class('local_polynomial', 'LocalPolynomial')(p, K))
    elif k == "lharm":
        T = W.T[r[2]]
        W.H.append(part_class('local_harmonic', 'LocalHarmonic')(pf.DirichletTrace(edges=K.get_edges(), values=T.values), W.N[r[1]]))
    elif k == "tedit":
        T, c, terms = W.T[r[1]], op[4], op[5]
        v = M.pv(terms)
        if op[1] == "edge": T.set_trace_values_on_edge(r[2], c)
        elif op[1] == "vals": T.set_trace_values(v); W.arrays.append(v)
        elif op[1] == "fun": T.set_func_from_poly_on_edge(r[2], pr.poly(terms))
        elif op[1] == "funcs":
            fs = [pr.poly(terms) for _ in M.sl]
            if r[2] % 3 == 2:
                fs = fs[0]; W.polys.append(fs)
            else:
                W.lists.append(fs)
            (T.set_funcs if r[2] % 3 == 0 else T.set_funcs_from_polys)(fs)
        elif op[1] == "wnd": T.set_weighted_normal_derivative(v); W.arrays.append(v)
        elif op[1] == "wtd": T.set_weighted_tangential_derivative(v); W.arrays.append(v)
        elif op[1] == "wndedge": T.set_weighted_normal_derivative_on_edge(r[2], c)
    elif k == "mutate":
        if op[1] == "poly" and W.polys:
            p = W.polys[op[2] % len(W.polys)]
            # a trace defined by this very polynomial keeps its values, but what a later re-evaluation gives is the caller's business
            for q, t in enumerate(W.T):
                if any(x is p for x in getattr(t, "funcs", [])):
                    M.T[q].funcs = None
            p += pr.poly([[2.0 + op[3], 1, 0], [1.0, 0, 0]])
        elif op[1] == "array" and W.arrays:
            W.arrays[op[2] % len(W.arrays)][...] = 55.0
        elif op[1] == "list" and W.lists:
            x = W.lists[op[2] % len(W.lists)]
            x[:] = [lambda a, b: 7.0 + 0 * a] * len(x) if x and not isinstance(x[0], np.ndarray) and callable(x[0]) else x[::-1]
    elif k == "scribble":
        scribble(getattr(W, op[1]).pop(r[1]))
    elif k == "query":
        f = W.F[r[1]]
        for x in [f.get_trace_values(), K.get_dx_norm(), *K.get_boundary_points(), *K.get_unit_tangent(), *K.get_unit_normal()]:
            x[...] = 11.0
        f.get_h1_semi_inner_prod(f); f.get_l2_inner_prod(f.harm); str(f.poly.exact_form)
    elif k == "reject":
        rejected(W, op, M)


def run(case):
    log = core.Log()
    try:
        ref = core.isolated(reference, case)
    except core.HarnessError as e:
        raise Violation("unexpected-exception", f"building the functions one by one: {str(e)[:1500]}")
    with sut("sampling the cell"), world.mute():
        K, _m = cell(case)
    M, W = Model(ref["x1"], ref["x2"], ref["sl"]), World(K)
    for j, op in enumerate(case["ops"]):
        what = f"op {j} {op}"
        r = M.step(op)
        if r is None:
            continue
        with sut(what), world.mute():
            perform(W, M, op, r, ref, log)
            check_all(W, M, ref, what, log)
        log.ev(j, op[0], len(W.F), len(W.T))
    log.probe("objects", len(W.T) + len(W.F) + len(W.H) + len(W.P))
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("objects", 0) >= 4


def shrink(case):
    yield from core.shrink_lists(case, ["ops"])
    E = case["spec"]["edges"]
    for k, e in enumerate(E):
        if e["a"] == e["b"] and min(e["pos"], e["neg"]) < 0:
            yield dict(case, spec=dict(case["spec"], edges=E[:k] + E[k + 1:]))
