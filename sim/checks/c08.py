"""C08: polynomial arithmetic against exact rational bookkeeping, over seeded operation sequences with interrupts."""
import copy
import math
import re
from fractions import Fraction as F
import numpy as np
from .. import core, faults, world
from ..core import Violation, sut

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 30000}
NEED_JIT = False
RULE = ("one simulated history over a pool of up to 7 polynomials: 6-30 operations (construct, + - * / ** scalar ops, +=, compose, derivatives, "
        "anti-Laplacian, copies, adding terms, ==, is_zero, str, evaluation, rejected calls), operands often the same object, each possibly interrupted "
        "at a random library statement and then repeated; after every step every polynomial is compared with exact rational arithmetic; "
        "counted if >= 3 operations produced results; distinct event logs")
REAL = ["Polynomial", "Monomial", "MultiIndex"]
STUB = []
ASSUMPTIONS = ["dyadic coefficients, total degree capped so that float arithmetic is exact up to rounding of anti-Laplacian factors",
               "after an interrupted or rejected explicitly in-place update nothing is promised about its target"]
BUDGET = 1_500_000
MAXDEG, MAXTERMS = 9, 40


def coef(rng):
    return rng.choice([1, -1, 2, -3, .5, -.25, 1.5, 4, .125, 0])


def scalar(rng):
    c = coef(rng)
    return int(c) if c == int(c) and rng.random() < .5 else c


def gen_terms(rng):
    return [[float(coef(rng)), rng.randint(0, 3), rng.randint(0, 3)] for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]


OPS = [("new", 3), ("add", 5), ("sum", 1), ("sub", 4), ("mul", 4), ("smul", 3), ("rsmul", 2), ("sdiv", 2), ("sadd", 2), ("rsadd", 1), ("ssub", 1), ("rssub", 1),
       ("neg", 2), ("pow", 2), ("compose", 1), ("dx", 2), ("dy", 2), ("grad", 1), ("lap", 1), ("alap", 2), ("copy", 4), ("iadd", 7), ("isadd", 2),
       ("isub", 2), ("imul", 2), ("addmono", 4), ("addmonos", 2), ("addidx", 2), ("set", 1), ("zero", 1), ("eq", 4), ("iszero", 3), ("str", 3), ("eval", 2),
       ("adddup", 5), ("eqt", 5), ("mneg", 1), ("bad", 2), ("remzero", 1), ("cons", 1), ("sort", 1)]
NAMES = [n for n, w in OPS for _ in range(w)]


def gen(rng, i, tier):
    k = rng.randint(6, 30 if tier == "thorough" else 18)
    ops = []
    for _ in range(k):
        o = dict(op=rng.choice(NAMES), i=rng.randrange(7), j=rng.choice([rng.randrange(7), None]), l=rng.randrange(7), s=scalar(rng), t=gen_terms(rng), e=rng.randint(0, 4),
                 pt=[rng.randint(-4, 4) / 2, rng.randint(-4, 4) / 2])
        if rng.random() < .15:
            o["fault"] = [rng.choice(["interrupt", "nomem"]), rng.random(), rng.random()]
        ops.append(o)
    return dict(start=[gen_terms(rng) for _ in range(rng.randint(1, 3))], ops=ops)


# ------------------------------------------------------------ exact model

def norm(d): return {k: v for k, v in d.items() if v != 0}
def mk(terms):
    d = {}
    for c, a, b in terms: d[a, b] = d.get((a, b), F(0)) + F(c)
    return norm(d)
def m_add(p, q, s=1):
    d = dict(p)
    for k, v in q.items(): d[k] = d.get(k, F(0)) + s * v
    return norm(d)
def m_mul(p, q):
    d = {}
    for (a, b), v in p.items():
        for (c, e), w in q.items(): d[a + c, b + e] = d.get((a + c, b + e), F(0)) + v * w
    return norm(d)
def m_scale(p, s): return norm({k: v * F(s) for k, v in p.items()})
def m_pow(p, n):
    r = {(0, 0): F(1)}
    for _ in range(n): r = m_mul(r, p)
    return r
def m_diff(p, v):
    d = {}
    for (a, b), c in p.items():
        if v == "x" and a: d[a - 1, b] = d.get((a - 1, b), F(0)) + a * c
        if v == "y" and b: d[a, b - 1] = d.get((a, b - 1), F(0)) + b * c
    return norm(d)
def m_lap(p): return m_add(m_diff(m_diff(p, "x"), "x"), m_diff(m_diff(p, "y"), "y"))
def m_comp(p, q1, q2):
    r = {}
    for (a, b), c in p.items(): r = m_add(r, m_scale(m_mul(m_pow(q1, a), m_pow(q2, b)), c))
    return r
def deg(p): return max([a + b for a, b in p], default=0)
def m_eval(p, x, y): return sum((c * F(x) ** a * F(y) ** b for (a, b), c in p.items()), F(0))
def const(s): return norm({(0, 0): F(s)})


def pdiff(obj, model):
    got = world.obs_poly(obj)
    scale = max([1.0] + [abs(float(v)) for v in model.values()])
    for k in set(got) | set(model):
        g, w = got.get(k, 0.0), float(model.get(k, 0))
        if not math.isfinite(g) or abs(g - w) > 1e-9 * scale:
            return f"coefficient of x^{k[0]} y^{k[1]} is {g!r}, expected {w!r}"
    return None


def parse(s):
    """Value of a printed polynomial."""
    d = {}
    for c, rest in re.findall(r"\+ \(([^)]*)\)([^+(]*)", s):
        x = re.search(r"x(?:\^(\d+))?", rest); y = re.search(r"y(?:\^(\d+))?", rest)
        k = (int(x.group(1) or 1) if x else 0, int(y.group(1) or 1) if y else 0)
        d[k] = d.get(k, 0.0) + float(c)
    return {k: v for k, v in d.items() if abs(v) > 1e-12}


INPLACE = {"iadd", "isadd", "addmono", "adddup", "addmonos", "addidx", "set", "zero"}


def run(case):
    log = core.Log()
    pf = world.pf
    from puncturedfem.locfun.poly.monomial import Monomial
    from puncturedfem.locfun.poly.multi_index import MultiIndex
    P = pf.Polynomial
    pool, ghosts = [], []        # ghosts: earlier objects, must keep their values forever

    def check(what):
        for n, (o, m) in enumerate(pool + ghosts):
            d = pdiff(o, m)
            if d:
                raise Violation("value", f"after {what}: polynomial {n if n < len(pool) else 'held by the caller'}: {d}")

    def put(o, m, what):
        if not isinstance(o, P):
            raise Violation("type", f"{what} returned {type(o).__name__}")
        d = pdiff(o, m)
        if d:
            raise Violation("result", f"{what}: {d}")
        for q, mm in pool:
            if q is o and what.split()[0] not in ("iadd", "isadd", "isub", "imul"):
                raise Violation("result", f"{what} returned one of its operands")
        if len(pool) < 7:
            pool.append((o, m))
        else:
            k = len(log.events) % 7
            ghosts.append(pool[k]); pool[k] = (o, m)
            del ghosts[:-12]
        log.probe("results")

    for t in case["start"]:
        with sut("Polynomial()"):
            src = [tuple([c, a, b]) for c, a, b in t]
            o = P(src)
        if src != [tuple([c, a, b]) for c, a, b in t]:
            raise Violation("caller-list", "constructor changed the caller's list")
        put(o, mk(t), "new")
    for n, o in enumerate(case["ops"]):
        op = o["op"]
        i = o["i"] % len(pool); j = i if o["j"] is None else o["j"] % len(pool); l = o["l"] % len(pool)
        (p, mp), (q, mq), (r, mr) = pool[i], pool[j], pool[l]
        s = o["s"]
        what = f"{op} (step {n}: operands {i},{j})"
        big = lambda d: d > MAXDEG
        want, fn, target = None, None, None
        if op == "new": want, fn = mk(o["t"]), lambda p, q, r: P([tuple(t) for t in o["t"]])
        elif op == "add": want, fn = m_add(mp, mq), lambda p, q, r: p + q
        elif op == "sub": want, fn = m_add(mp, mq, -1), lambda p, q, r: p - q
        elif op == "mul":
            if big(deg(mp) + deg(mq)): continue
            want, fn = m_mul(mp, mq), lambda p, q, r: p * q
        elif op == "smul": want, fn = m_scale(mp, s), lambda p, q, r: p * s
        elif op == "rsmul": want, fn = m_scale(mp, s), lambda p, q, r: s * p
        elif op == "sdiv": 
            s = {0: 1, -3: 8, 1.5: -1}.get(s, s)
            want, fn = m_scale(mp, F(1) / F(s)), lambda p, q, r: p / s
        elif op == "sum":
            want, fn = m_add(mp, mq), lambda p, q, r: sum([p, q])
        elif op == "sadd": want, fn = m_add(mp, const(s)), lambda p, q, r: p + s
        elif op == "rsadd": want, fn = m_add(mp, const(s)), lambda p, q, r: s + p
        elif op == "ssub": want, fn = m_add(mp, const(s), -1), lambda p, q, r: p - s
        elif op == "rssub": want, fn = m_add(const(s), mp, -1), lambda p, q, r: s - p
        elif op == "neg": want, fn = m_scale(mp, -1), lambda p, q, r: -p
        elif op == "pow":
            if big(deg(mp) * o["e"]): continue
            want, fn = m_pow(mp, o["e"]), lambda p, q, r: p ** o["e"]
        elif op == "compose":
            if big(deg(mp) * max(deg(mq), deg(mr))) or len(mp) > 8: continue
            want, fn = m_comp(mp, mq, mr), lambda p, q, r: p.compose(q, r)
        elif op == "dx": want, fn = m_diff(mp, "x"), lambda p, q, r: p.partial_deriv("x")
        elif op == "dy": want, fn = m_diff(mp, "y"), lambda p, q, r: p.partial_deriv("y")
        elif op == "grad": want, fn = m_diff(mp, "y"), lambda p, q, r: p.grad()
        elif op == "lap": want, fn = m_lap(mp), lambda p, q, r: p.laplacian()
        elif op == "alap":
            if deg(mp) > 6 or len(mp) > 10: continue
            want, fn = "alap", lambda p, q, r: p.anti_laplacian()
        elif op == "copy": want, fn = dict(mp), lambda p, q, r: p.copy()
        elif op == "iadd":
            target = m_add(mp, mq)
            def fn(p, q, r):
                z = p; z += q; return z
        elif op == "isadd":
            target = m_add(mp, const(s))
            def fn(p, q, r):
                z = p; z += s; return z
        elif op == "isub":
            want = m_add(mp, mq, -1)
            def fn(p, q, r):
                z = p; z -= q; return z
        elif op == "imul":
            if big(deg(mp) + deg(mq)): continue
            want = m_mul(mp, mq)
            def fn(p, q, r):
                z = p; z *= q; return z
        elif op == "addmono":
            t = o["t"][0] if o["t"] else [1.0, 1, 0]
            target, fn = m_add(mp, mk([t])), lambda p, q, r: p.add_monomial(Monomial(MultiIndex([t[1], t[2]]), t[0]))
        elif op == "adddup":
            if not mp: continue
            ka = sorted(mp)[o["l"] % len(mp)]
            target, fn = m_add(mp, {ka: F(s)}), lambda p, q, r: p.add_monomial(Monomial(MultiIndex(list(ka)), float(s)))
        elif op == "addmonos": target, fn = m_add(mp, mq), lambda p, q, r: p.add_monomials(q.monos)
        elif op == "addidx":
            t = o["t"] or [[1.0, 1, 0]]
            idx = [b + (a + b) * (a + b + 1) // 2 for _, a, b in t]
            target, fn = m_add(mp, mk(t)), lambda p, q, r: p.add_monomials_with_idxs([c for c, _, _ in t], idx)
        elif op == "set": target, fn = mk(o["t"]), lambda p, q, r: p.set([tuple(t) for t in o["t"]])
        elif op == "zero": target, fn = {}, lambda p, q, r: p.set_to_zero()
        elif op == "eq": fn = lambda p, q, r: (p == q, p != q)
        elif op == "eqt":
            terms = [(float(v), a, b) for (a, b), v in sorted(mp.items())]
            if s == .5 and len(terms) > 1: terms = terms[1:]
            same = mk(terms) == mp
            other = P(terms)
            fn = (lambda p, q, r: (p == other, p != other)) if o["l"] % 2 else (lambda p, q, r: (other == p, other != p))
        elif op == "iszero": fn = lambda p, q, r: p.is_zero()
        elif op == "str": fn = lambda p, q, r: str(p)
        elif op == "eval": fn = lambda p, q, r: (p(*o["pt"]), p(np.array([o["pt"][0], .5]), np.array([o["pt"][1], -1.5])))
        elif op == "mneg":
            if not p.monos: continue
            m0 = p.monos[0]; a0, c0 = (m0.alpha.x, m0.alpha.y), m0.coef
            fn = lambda p, q, r: -p.monos[0]
        elif op in ("remzero", "cons", "sort"):
            meth = {"remzero": "remove_zeros", "cons": "consolidate", "sort": "sort"}[op]
            fn = lambda p, q, r: getattr(p, meth)()
        elif op == "bad":
            bads = [lambda: p + "a", lambda: p * [1], lambda: p.partial_deriv("z"), lambda: p ** -1, lambda: p / p, lambda: p == 3,
                    lambda: p.add_monomials_with_idxs([1.0, 2.0], [0]), lambda: "a" + p, lambda: P([(1.0, 0)]), lambda: P([(1.0, -1, 0)]), lambda: p.pow(1.5)]
            fn0 = bads[o["l"] % len(bads)]
            try:
                with sut(what, allow=(Exception,)):
                    faults.bounded(fn0, BUDGET, log, what)
            except Violation:
                raise
            except Exception:
                log.fault("rejected-request")
            check(what)
            continue
        if target and any(abs(v) < 2**-24 for v in target.values()):
            continue        # the library drops terms below 1e-12
        if o.get("fault") and fn:
            # count statements in a process of its own, so that the dry run touches nothing real
            def dry():
                with sut("dry run of " + what):
                    with faults.Tracer(record=True, budget=BUDGET) as tr:
                        fn(p, q, r)
                return faults.choose(tr.sites, o["fault"][1], o["fault"][2])
            at = core.isolated(dry)
            if at:
                with sut(what):
                    st, res = faults.interrupted(lambda: fn(p, q, r), at, o["fault"][0], log, BUDGET)
                if st == "fault":
                    if op in INPLACE:
                        # the target is whatever it is; start it again from a clean value
                        p.set_to_zero(); pool[i] = (p, {})
                        check(what + " interrupted")
                        with sut("rebuild"):
                            p.add_monomials(P([(float(v), a, b) for (a, b), v in sorted(mp.items())]).monos)
                        pool[i] = (p, mp)
                    check(what + " interrupted")
                elif op in INPLACE:      # it completed: put the old value back and do it once more below
                    p.set_to_zero(); p.add_monomials(P([(float(v), a, b) for (a, b), v in sorted(mp.items())]).monos)
        with sut(what, allow=(core.StepBudget,)):
            res = faults.bounded(lambda: fn(p, q, r), BUDGET, log, what)
        log.ev(op, i, j, core.digest(world.obs_poly(res)) if isinstance(res, P) else str(res)[:60])
        if target is not None:
            pool[i] = (p, target)
            if op in ("iadd", "isadd") and res is not p:
                raise Violation("in-place", f"{what} did not return its target")
        if op == "grad":
            gx, gy = res
            put(gx, m_diff(mp, "x"), what + ".x"); put(gy, want, what + ".y")
        elif want == "alap":
            got = {k: F(v) for k, v in world.obs_poly(res).items()}
            back = {k: float(v) for k, v in m_lap(got).items() if abs(v) > 1e-12}
            d = pdiff(p, {k: F(v) for k, v in back.items()})
            if d:
                raise Violation("result", f"{what}: Laplacian of the anti-Laplacian: {d}")
            # keep the pool exactly representable
            check(what)
            log.probe("results")
            continue
        elif want is not None:
            if len(want) > MAXTERMS or any(abs(v) > 2**40 or abs(v) < 2**-24 for v in want.values()):
                d = pdiff(res, want)
                if d: raise Violation("result", f"{what}: {d}")
            else:
                put(res, want, what)
        elif op in ("eq", "eqt"):
            e = mp == mq if op == "eq" else same
            if res != (e, not e):
                raise Violation("comparison", f"{what}: == gives {res[0]}, != gives {res[1]}, the polynomials are {'equal' if e else 'different'}")
        elif op == "iszero":
            if bool(res) != (not mp):
                raise Violation("comparison", f"{what}: is_zero() is {res} for {mp}")
        elif op == "str":
            got = parse(res)
            w = {k: float(v) for k, v in mp.items()}
            sc = max([1.0] + [abs(v) for v in w.values()])
            if set(k for k, v in got.items() if abs(v) > 1e-9 * sc) != set(w) or any(abs(got[k] - v) > 1e-9 * sc for k, v in w.items()):
                raise Violation("printing", f"{what}: printed {res!r} for {w}")
        elif op == "eval":
            w = [float(m_eval(mp, *o["pt"])), [float(m_eval(mp, *o["pt"])), float(m_eval(mp, .5, -1.5))]]
            core.must_equal("evaluation", [float(res[0]), np.array(res[1])], [w[0], np.array(w[1])], 1e-9, what)
        elif op == "mneg":
            if not isinstance(res, Monomial) or (res.alpha.x, res.alpha.y) != a0 or abs(res.coef + c0) > 1e-12:
                raise Violation("result", f"{what}: negated monomial is {res!r}")
        check(what)
    return log.result()


def nontrivial(case, res):
    return res["probes"].get("results", 0) >= 3


def shrink(case):
    for c in core.shrink_lists(case, ["ops", "start"]):
        if c["start"]:
            yield c
    for i, o in enumerate(case["ops"]):
        if o.get("fault"):
            yield dict(case, ops=case["ops"][:i] + [{k: v for k, v in o.items() if k != "fault"}] + case["ops"][i + 1:])
    for i, t in enumerate(case["start"]):
        if t:
            yield dict(case, start=case["start"][:i] + [t[:-1]] + case["start"][i + 1:])
