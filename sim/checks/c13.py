"""C13: progress output, its failures and the clock never affect results."""
import contextlib, errno, io, sys, time
import numpy as np
from .. import core, local_ops as lo, problem as pr, seams, world
from ..core import Violation, sut

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 150, "thorough": 6000}
CASE_TIMEOUT = 240
RULE = ("one simulated run: a random mesh and a seeded history of building meshes, function spaces, solvers, integral-equation solvers and local spaces with verbose and debugging output on or off, printed to "
        "simulated streams (slow, accepting part of the data, failing at a seeded write or flush once or from then on, unable to encode the text, closed, absent) under a simulated clock that jumps in both "
        "directions; aborted calls are repeated with a working stream; all results are compared with a quiet run in a pristine process; counted if a stream fault fired and a result was compared; distinct event logs")
REAL = ["PlanarMesh", "GlobalFunctionSpace", "Solver", "LocalPoissonSpace", "NystromSolver", "print_color", "tqdm progress bars (their monitor thread is off)"]
STUB = ["standard output and error are simulated streams", "time.time, monotonic and perf_counter are a simulated clock", "default interior grid 7x7"]
ASSUMPTIONS = ["a stream fault is an exception of write/flush, a short write or a slow write", "values agree to 1e-9 relative (matrices 1e-7)"]
TIME_NOTE = "simulated clock: absolute time that passed or jumped in front of the progress bars"
KINDS = ["epipe", "nospc", "eio", "closed", "block", "ascii", "interrupt", "partial", "slow", "flush", "none"]


def gen_stream(rng, p=.75):
    if rng.random() > p:
        return None
    return [rng.choice(KINDS), rng.random(), int(rng.random() < .5), rng.choice(["both", "out", "err"])]


def gen(rng, i, tier):
    ops = []
    S = lambda: [f for f in [gen_stream(rng) for _ in range(rng.choice([1, 1, 2]))] if f]
    for _ in range(rng.choice([2, 3, 4, 5])):
        r, v, again = rng.random(), int(rng.random() < .8), int(rng.random() < .6)
        if r < .09: op = ["mesh"]
        elif r < .30: op = ["space"]
        elif r < .48: op = ["solver", int(rng.random() < .4), int(rng.random() < .2)]
        elif r < .60: op = ["assemble", int(rng.random() < .4), int(rng.random() < .2)]
        elif r < .74: op = ["lspace", rng.randrange(4), int(rng.random() < .4)]
        elif r < .87: op = ["nyst", rng.randrange(4), rng.choice(["fft", "direct"]), int(rng.random() < .3)]
        elif r < .90: op = ["print"]
        else: op = ["thin", world.thin_spec(rng), rng.choice([8, 12, 16]), rng.choice([0.0, 2.0, 60.0, 3600.0, 1e7, -60.0])]
        ops.append(op + [v, again, S()])
    return dict(spec=pr.small_spec(rng, two=.5), deg=rng.choice([1, 1, 1, 2]), q=[rng.choice([4, 5, 6]), rng.choice([3, 5])], form=pr.form(rng), ops=ops,
                clock=[rng.choice([0.0, 1e-5, .02, .2, 3.0, 1e5, -.5, -1e4, -1e-3]) for _ in range(rng.randint(1, 7))])


class Injected:
    """Mixin marking our exceptions."""


def mk(t):
    return type("Injected" + t.__name__, (t, Injected), {})


EXC = {"epipe": mk(BrokenPipeError), "nospc": mk(OSError), "eio": mk(OSError), "closed": mk(ValueError), "block": mk(BlockingIOError), "interrupt": mk(KeyboardInterrupt), "flush": mk(OSError)}
ARGS = {"epipe": (errno.EPIPE, "Broken pipe"), "nospc": (errno.ENOSPC, "No space left on device"), "eio": (errno.EIO, "Input/output error"), "closed": ("I/O operation on closed file.",),
        "block": (errno.EAGAIN, "write could not complete without blocking", 0), "interrupt": ("injected",), "flush": (errno.EIO, "Input/output error")}


class Clock:
    def __init__(self, steps):
        self.steps, self.k, self.now, self.passed = steps, 0, 1.7e9, 0.0

    def tick(self, extra=0.0):
        d = self.steps[self.k % len(self.steps)] + extra
        self.k += 1; self.now += d; self.passed += abs(d)
        return self.now

    @contextlib.contextmanager
    def installed(self):
        old = {k: getattr(time, k) for k in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns", "process_time")}
        new = {k: ((lambda: int(self.tick() * 1e9)) if k.endswith("_ns") else self.tick) for k in old}
        sleep = time.sleep
        try:
            with seams.replaced([(old[k], new[k]) for k in old]):
                for k in old: setattr(time, k, new[k])
                time.sleep = lambda s: self.tick(s) and None
                yield
        finally:
            for k in old: setattr(time, k, old[k])
            time.sleep = sleep


class Stream(io.TextIOBase):
    """A simulated terminal or pipe."""
    encoding = "utf-8"

    def __init__(self, st, fault, clock):
        self.st, self.fault, self.clock, self.text = st, fault, clock, []

    def writable(self): return True
    def isatty(self): return False

    def write(self, s):
        st = self.st; st["n"] += 1
        f = self.fault
        if f and f[0] != "flush" and (st["n"] == st["at"] or (st["n"] > st["at"] and f[2])):
            k = f[0]
            if k == "ascii":
                if any(ord(c) > 127 for c in s):
                    st["fired"] += 1
                    s.encode("ascii")
            elif k == "partial":
                st["fired"] += 1
                self.text.append(s[:len(s) // 2])
                return len(s) // 2
            elif k == "slow":
                st["fired"] += 1
                self.clock.tick(900.0)
            else:
                st["fired"] += 1
                raise EXC[k](*ARGS[k])
        self.text.append(s)
        return len(s)

    def flush(self):
        st = self.st; st["fl"] += 1
        if self.fault and self.fault[0] == "flush" and (st["fl"] == st["at"] or (st["fl"] > st["at"] and self.fault[2])):
            st["fired"] += 1
            raise EXC["flush"](*ARGS["flush"])


def streamed(fn, fault, clock, log):
    """("ok", result, fired) | ("abort", exception, True)"""
    def go(f, at):
        st = dict(n=0, fl=0, at=at, fired=0)
        if f and f[0] == "none":
            out = None if f[3] in ("both", "out") else Stream(st, None, clock)
            err = None if f[3] in ("both", "err") else Stream(st, None, clock)
            st["fired"] = 1
        else:
            w = f[3] if f else "both"
            st2 = dict(st, at=1 << 60)
            out = Stream(st if w != "err" else st2, f if w != "err" else None, clock)
            err = Stream(st if w != "out" else st2, f if w != "out" else None, clock)
        so, se = sys.stdout, sys.stderr
        try:
            with clock.installed():
                sys.stdout, sys.stderr = out, err
                r = fn()
            return st, "ok", r
        except BaseException as e:
            ours = isinstance(e, Injected) or (f and f[0] == "ascii" and isinstance(e, UnicodeEncodeError)) or (f and f[0] == "none" and isinstance(e, (AttributeError, TypeError)))
            # an error raised while handling ours is ours too
            c = e
            while c is not None and not ours:
                c = c.__context__
                ours = isinstance(c, Injected) or isinstance(c, UnicodeEncodeError) and f and f[0] == "ascii"
            if not ours:
                raise
            return st, "abort", e
        finally:
            sys.stdout, sys.stderr = so, se
    if fault is None:
        return go(None, 1 << 60)[1:] + (False,)

    def count():
        st, _, _ = go([fault[0] if fault[0] == "flush" else "count", 0, 0, fault[3]], 1 << 60)
        return st["fl"] if fault[0] == "flush" else st["n"]
    at = 1
    if fault[0] != "none":
        n = core.isolated(count)
        at = 1 + min(int(fault[1] * n), max(n - 1, 0))
    st, tag, r = go(fault, at)
    if st["fired"]:
        log.fault("stream-" + fault[0])
    return tag, r, bool(st["fired"])


def thin(spec, n):
    K = world.build(spec).get_cell(0)
    K.parameterize(pr.quad([n, 5]))
    return world.obs_cell(K, False)


def quiet_thin(spec, n):
    with world.mute():
        return thin(spec, n)


def topo(m):
    return [list(m.cell_idx_list), list(m.vert_idx_list), m.num_edges, m.num_cells, m.num_verts, [e.idx for e in m.edges], [[e.pos_cell_idx, e.neg_cell_idx, e.anchor.idx, e.endpnt.idx] for e in m.edges]]


def local(mesh, case, op, verbose):
    pf = world.pf
    ids = list(mesh.cell_idx_list)
    K = mesh.get_cell(ids[op[1] % len(ids)])
    K.parameterize(pr.quad(case["q"]))
    if op[0] == "lspace":
        return lo.obs_space(pf.LocalPoissonSpace(K, deg=case["deg"], compute_interior_values=bool(op[2]), verbose=bool(verbose)))
    return pr.obs_nyst(pf.NystromSolver(K, antilap_strategy=op[2], verbose=bool(verbose), debug=bool(op[3] and verbose)))


def ref_local(case, op):
    def go():
        with world.mute():
            return local(world.build(case["spec"]), case, op, 0)
    return core.isolated(go)


def run(case):
    log, pf, spec = core.Log(), world.pf, case["spec"]
    sys.unraisablehook = lambda u: None     # a progress bar whose construction was aborted
    clock = Clock(case["clock"])
    with world.mute():
        mesh = world.build(spec)
    want_topo = core.isolated(lambda: topo(world.build(spec)))
    pr._refs.clear()
    V = S = None
    compared = 0

    def ref(iv, grad):
        return pr.ref_problem(spec, case["deg"], case["q"], case["form"], bool(iv), bool(grad))

    def attempt(what, make, fs, v, again):
        """Run make(verbose) under each fault; when aborted, repeat; finally with a working stream."""
        for f in fs:
            with sut(what):
                tag, r, fired = streamed(lambda: make(v), f, clock, log)
            log.ev(what, tag, fired)
            if tag == "ok":
                return r
        with sut(what + (" (repeated)" if fs else "")):
            return streamed(lambda: make(v if again else 1 - v), None, clock, log)[1]

    def check_system(S, iv, grad, what):
        w = ref(iv, grad)
        core.must_equal("system", pr.obs_system(S), w["system"], 1e-7, what)
        core.must_equal("dofs", pr.obs_dofs(S.glob_fun_sp), w["dofs"], 0, what)
        S.solve()
        core.must_equal("solution", np.array(S.soln), w["soln"], 1e-6, what)
        core.must_equal("coefficients", [np.array(S.get_coef_on_mesh_cell(c, S.soln)) for c in mesh.cell_idx_list], w["coef"], 1e-6, what)
        if iv:
            core.must_equal("values", [pr.combo(S, c, S.soln) for c in mesh.cell_idx_list], w["combo"], 1e-6, what)

    def sampling():
        """What the mesh is left with."""
        return [[[bool(e.is_parameterized), bool(e.is_parameterized and e.is_reversed), e.num_pts if e.is_parameterized else 0] for e in mesh.edges],
                [bool(mesh.get_cell(c).is_parameterized()) for c in mesh.cell_idx_list]]

    def quietly(make):
        """The state of the mesh when the same is done here without progress output (in a copy of this process)."""
        def go():
            with world.mute():
                make(0)
            return sampling()
        return core.isolated(go)

    for j, op in enumerate(case["ops"] + [["solver", 1, 0, 1, 1, []]]):
        k, (v, again, fs) = op[0], op[-3:]
        what = f"op {j} {op}"
        if k == "mesh":
            es = list(mesh.edges)
            mesh2 = attempt(what, lambda v: pf.PlanarMesh(es, verbose=bool(v)), fs, v, again)
            core.must_equal("mesh", topo(mesh2), want_topo, 0, what)
            mesh, V, S = mesh2, None, None
        elif k == "print":
            if S is None and V is None: continue
            for o in (mesh, V, S):
                if o is not None:
                    attempt(what, lambda v, o=o: print(o), fs, v, again)
            continue
        elif k == "thin":       # nothing is printed, but looking for a point inside takes a while
            steps, clock.steps = clock.steps, [op[3]]
            r = attempt(what, lambda v: thin(op[1], op[2]), [], v, 1)
            clock.steps = steps
            core.must_equal("cell", r, core.isolated(quiet_thin, op[1], op[2]), 1e-12, what)
        elif k in ("lspace", "nyst"):
            quiet = quietly(lambda v: local(mesh, case, op, v)) if op[1] % 2 else None
            r = attempt(what, lambda v: local(mesh, case, op, v), fs, v, again)
            if quiet is not None:
                core.must_equal("left-behind", sampling(), quiet, 0, what)
            core.must_equal("local", r, ref_local(case, op), 1e-8, what)
        else:
            if k == "space" or V is None:
                quiet = quietly(lambda v: pr.space(mesh, case["deg"], case["q"], bool(v)))
                V = attempt(what, lambda v: pr.space(mesh, case["deg"], case["q"], bool(v)), fs if k == "space" else [], v, again)
                core.must_equal("left-behind", sampling(), quiet, 0, what)
                core.must_equal("space", pr.obs_space(V), ref(0, 0)["space"], 1e-8, what)
                S = None if k == "space" else S
            if k in ("solver", "assemble"):
                iv, grad = op[1], op[2]
                if k == "solver" or S is None:
                    S = attempt(what, lambda v: pf.Solver(V, pr.bilinear(case["form"]), verbose=bool(v), compute_interior_values=bool(iv), compute_interior_gradient=bool(grad)), fs, v, again)
                else:
                    attempt(what, lambda v: S.assemble(verbose=bool(v), compute_interior_values=bool(iv), compute_interior_gradient=bool(grad)), fs, v, again)
                with sut(what), world.mute():
                    check_system(S, iv, grad, what)
        compared += 1
    log.probe("compared", compared)
    log.sim_time = clock.passed
    return log.result()


def nontrivial(case, res):
    return any(k.startswith("stream-") for k in res["faults"]) and res["probes"].get("compared", 0) >= 2


def shrink(case):
    yield from core.shrink_lists(case, ["ops"])
    for k, op in enumerate(case["ops"]):
        for q in range(len(op[-1])):
            yield dict(case, ops=case["ops"][:k] + [op[:-1] + [op[-1][:q] + op[-1][q + 1:]]] + case["ops"][k + 1:])
    if case["clock"] != [0.0]:
        yield dict(case, clock=[0.0])
    if case["deg"] > 1:
        yield dict(case, deg=1)
    E = case["spec"]["edges"]
    for k, e in enumerate(E):
        if e["a"] == e["b"] and min(e["pos"], e["neg"]) < 0:
            yield dict(case, spec=dict(case["spec"], edges=E[:k] + E[k + 1:]))
