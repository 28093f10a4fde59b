"""The surroundings of a computation under simulator control (C16): interpreters started with seeded hash randomisation and
heap contents, and inside a run: random generators, clock, identities, working directory, collector, uninitialised memory."""
from __future__ import annotations
import contextlib, ctypes, gc, locale, os, pickle, random, select, shutil, signal, socket, struct, subprocess, sys, tempfile, threading, time, weakref
import numpy as np
from . import core, plots, seams, world

# (PYTHONHASHSEED, byte pattern of fresh heap memory) of the interpreters; some run optimised, one allocates everything with malloc
OPT = {2: ["-O"], 6: ["-O"]}
ALLOC = {4: "malloc"}
TABLE = [(1, 0x40), (7, 0xC0), (42, 0x7F), (99, 0x41), (1234, 0x3F), (31337, 0xBF), (271828, 0x42), (4000000001, 0xFF)]


# ------------------------------------------------------------------ interpreters

def _recv(s):
    buf = b""
    while len(buf) < 8:
        b = s.recv(8 - len(buf))
        if not b: raise EOFError
        buf += b
    n, out = struct.unpack("<Q", buf)[0], bytearray()
    while len(out) < n:
        b = s.recv(min(1 << 20, n - len(out)))
        if not b: raise EOFError
        out += b
    return bytes(out)


def _send(s, data):
    s.sendall(struct.pack("<Q", len(data)) + data)


class Interpreter:
    """A separate process of the same library; every request runs in a fork of it."""

    def __init__(self, k, pid):
        self.path = os.path.join(os.environ["VERIF_SCRATCH"], f"amb{k}.sock")
        h, b = TABLE[k]
        env = dict(os.environ, PYTHONHASHSEED=str(h), MALLOC_PERTURB_=str(b ^ 0xFF))
        if k in ALLOC: env["PYTHONMALLOC"] = ALLOC[k]
        self.p = subprocess.Popen([core.PYTHON, *OPT.get(k, []), "-m", "sim.ambient", self.path, pid], cwd=core.VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL)

    def call(self, name, arg, timeout=240):
        end = core._monotonic() + timeout
        while True:
            s = socket.socket(socket.AF_UNIX)
            try:
                s.connect(self.path)
                break
            except OSError:
                s.close()
                if core._monotonic() > end:
                    raise core.HarnessError("interpreter did not start")
                select.select([], [], [], .05)
        with s:
            s.settimeout(max(1, end - core._monotonic()))
            try:
                _send(s, pickle.dumps((name, arg)))
                tag, val = pickle.loads(_recv(s))
            except (EOFError, OSError) as e:
                raise core.HarnessError(f"interpreter gave no answer: {e!r}")
        if tag == "viol":
            raise core.Violation(*val)
        if tag == "err":
            raise core.HarnessError("in another interpreter: " + val)
        return val


def serve(path, pid):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    mod = core.load(pid)
    core.prepare(mod, nested=True)
    L = socket.socket(socket.AF_UNIX); L.bind(path + ".tmp"); L.listen(64)
    os.rename(path + ".tmp", path)
    kids = {}
    while True:
        r = select.select([L, sys.stdin] + list(kids), [], [], None)[0]
        if sys.stdin in r:
            os._exit(0)
        for f in r:
            if f is L:
                c, _ = L.accept()
                rd, wr = os.pipe()
                pid_ = os.fork()
                if pid_ == 0:
                    os.close(rd); L.close()
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                    core._child_setup(6)
                    try:
                        name, arg = pickle.loads(_recv(c))
                        try:
                            res = ("ok", getattr(mod, name)(arg))
                        except core.Violation as v:
                            res = ("viol", (v.kind, v.detail))
                        except BaseException as e:  # noqa: BLE001
                            import traceback
                            res = ("err", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:])
                        _send(c, pickle.dumps(res))
                    finally:
                        os._exit(0)
                os.close(wr); c.close()
                kids[rd] = pid_
            elif f in kids:
                os.waitpid(kids.pop(f), 0); os.close(f)


# ------------------------------------------------------------------ inside a run

class Clock:
    def __init__(self, steps):
        self.steps, self.k, self.now = steps, 0, 1.7e9

    def tick(self):
        self.now += self.steps[self.k % len(self.steps)]; self.k += 1
        return self.now


def gen(rng):
    """Seeded surroundings; None entries are as usual."""
    p = lambda x, v: v() if rng.random() < x else None
    act = lambda: rng.choice([["seed", rng.randrange(1000)], ["collect"], ["chdir", rng.randrange(3)], ["jump", rng.choice([-1e6, 1e6, 3e9, -1.0])], ["draw", rng.randint(1, 9)], ["garbage", rng.randrange(1000)]])
    return dict(zyg=rng.randrange(len(TABLE)), random=p(.8, lambda: rng.randrange(10**6)), clock=p(.5, lambda: [rng.choice([0.0, 1e-3, 1.0, 86400.0, -5.0]) for _ in range(4)]), cwd=p(.6, lambda: rng.choice(["deep", "gone", "other"])),
                gc=p(.6, lambda: rng.choice(["always", "off", "frozen"])), dirty=p(.7, lambda: rng.randrange(1000)), ident=p(.7, lambda: rng.randrange(1, 1 << 30)),
                err=p(.4, lambda: rng.choice(["ignore", "warn"])), prt=p(.3, lambda: rng.choice([2, 17])), filters=p(.4, lambda: rng.choice(["ignore", "always", "default"])),
                env=p(.4, lambda: rng.choice([{"TZ": "Asia/Kolkata", "COLUMNS": "20"}, {"LANG": "de_DE.UTF-8", "LC_ALL": "C"}, {"HOME": "/nonexistent", "USER": "nobody", "PUNCTUREDFEM_DEBUG": "1"}])),
                proc=p(.5, lambda: dict(cpus=rng.choice([None, 1, 3, 128]), decoys=int(rng.random() < .5), argv=rng.choice([None, ["prog"], ["prog", "-q", "--verbose", "3"]]), limit=rng.choice([None, 3000, 100000]))),
                acts=[[rng.randrange(12), act()] for _ in range(rng.choice([0, 2, 4, 8]))])


def calm(k=0):
    return dict(zyg=None, random=None, clock=None, cwd=None, gc=None, dirty=None, ident=None, err=None, prt=None, filters=None, env=None, proc=None, acts=[])


class Dirty:
    """np.empty and np.empty_like as the library sees them: memory is never by chance zero."""
    VALS = [float("nan"), 1e300, -7.25, 3.0, float("inf"), -1e-3]

    def __init__(self, seed):
        self.r = random.Random(seed); self.n = 0

    def fill(self, a):
        self.n += 1
        if a.size and a.dtype.kind in "fc":
            a.fill(self.r.choice(self.VALS))
        elif a.size and a.dtype.kind in "iub":
            a.fill(self.r.choice([0, 1, 1, 7]))
        return a

    @contextlib.contextmanager
    def installed(self):
        old = {k: getattr(np, k) for k in ("empty", "empty_like")}

        def wrap(f):
            def g(*a, **k):
                r = f(*a, **k)
                return self.fill(r) if sys._getframe(1).f_code.co_filename.startswith(core.PKG) else r
            return g
        new = {k: wrap(f) for k, f in old.items()}
        try:
            with seams.replaced([(old[k], new[k]) for k in old]):
                for k in old: setattr(np, k, new[k])
                yield
        finally:
            for k in old: setattr(np, k, old[k])


class Reused:
    """Identities handed out as early as the language allows: that of a dead object goes to the next new one."""

    def __init__(self):
        self.live, self.free, self.n = {}, [], 0

    def __call__(self, o):
        k = id(o)
        if k in self.live:
            return self.live[k][0]
        try:
            r = weakref.ref(o, lambda _, k=k: self.free.append(self.live.pop(k)[0]))
        except TypeError:
            return k + (1 << 50)
        if not self.free:
            self.n += 1; self.free.append(4096 + 16 * self.n)
        self.live[k] = (self.free.pop(), r)
        return self.live[k][0]


def _identities(seed, undo):
    """Identities of objects, for id() in library modules and default hashes of library classes: a seeded bijection of the addresses, or (odd seeds) the earliest possible reuse."""
    mul, add = (seed * 2 + 1) | 1, seed * 7919
    scramble = lambda x: ((x >> 4) * mul + add) & ((1 << 60) - 1)
    reused = Reused()
    ident = reused if seed % 2 else (lambda o: scramble(id(o)))
    for name, mod in sorted(sys.modules.items()):
        if name.startswith("puncturedfem") and mod is not None:
            if "id" not in vars(mod):
                mod.id = ident; undo.append(lambda m=mod: delattr(m, "id"))
            for k, c in sorted(vars(mod).items()):
                if isinstance(c, type) and c.__module__ == name and c.__hash__ is object.__hash__:
                    try:
                        c.__hash__ = lambda self: scramble(object.__hash__(self) * 16)
                    except TypeError:
                        continue
                    undo.append(lambda c=c: delattr(c, "__hash__") if "__hash__" in vars(c) else None)


USERFILE = """import numpy as np
def X(t, **kw): return np.array([np.zeros_like(t) + 17.0, np.asarray(t) * 3.0])
DX = DDX = _x = _dx = _ddx = X
"""  # a file of the user's that happens to have the name of a curve


class Surroundings:
    def __init__(self, a, root, log=None):
        self.a, self.root, self.undo, self.n, self.acts, self.log = a, root, [], 0, {}, log
        for k, x in a["acts"]:
            self.acts.setdefault(k, []).append(x)

    def __enter__(self):
        a, u = self.a, self.undo
        self.stack = contextlib.ExitStack()
        if a["env"]:
            old_env = dict(os.environ)
            os.environ.update(a["env"]); time.tzset()
            u.append(lambda: (os.environ.clear(), os.environ.update(old_env), time.tzset()))
        if a["random"] is not None:
            random.seed(a["random"]); np.random.seed(a["random"])
        if a["err"]:
            o = np.seterr(all=a["err"]); u.append(lambda: np.seterr(**o))
        if a["prt"]:
            o2 = np.get_printoptions(); np.set_printoptions(precision=a["prt"]); u.append(lambda: np.set_printoptions(**o2))
        if a["filters"]:
            import warnings
            cm = warnings.catch_warnings(); self.stack.enter_context(cm); warnings.simplefilter(a["filters"])
        if a["ident"] is not None:
            _identities(a["ident"], u)
        if a["dirty"] is not None:
            self.stack.enter_context(Dirty(a["dirty"]).installed())
        if a["gc"]:
            t, on = gc.get_threshold(), gc.isenabled()
            if a["gc"] == "always": gc.set_threshold(1, 1, 1); gc.enable()
            elif a["gc"] == "off": gc.disable()
            else: gc.collect(); gc.freeze(); gc.set_threshold(50, 2, 2)
            u.append(lambda: (gc.set_threshold(*t), gc.enable() if on else gc.disable(), gc.unfreeze()))
        self.old_cwd = self.root
        if a["cwd"]:
            self.chdir({"deep": 0, "other": 1, "gone": 2}[a["cwd"]])
        if a.get("proc"):
            self.process(a["proc"])
        self.clock = None
        if a["clock"]:
            self.clock = Clock(a["clock"])
            old = {k: getattr(time, k) for k in ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns", "perf_counter_ns")}
            new = {k: ((lambda: int(self.clock.tick() * 1e9)) if k.endswith("_ns") else self.clock.tick) for k in old}
            self.stack.enter_context(seams.replaced([(old[k], new[k]) for k in old]))
            for k in old: setattr(time, k, new[k])
            u.append(lambda: [setattr(time, k, v) for k, v in old.items()])
        return self

    def process(self, p):
        """What else a process may look like: processors, arguments, stack depth, files of the same names lying around."""
        u = self.undo
        if p["cpus"]:
            old = os.cpu_count, os.sched_getaffinity
            os.cpu_count = lambda: p["cpus"]; os.sched_getaffinity = lambda pid: set(range(p["cpus"]))
            u.append(lambda: (setattr(os, "cpu_count", old[0]), setattr(os, "sched_getaffinity", old[1])))
        if p["argv"]:
            argv = list(sys.argv); sys.argv[:] = p["argv"]; u.append(lambda: sys.argv.__setitem__(slice(None), argv))
        if p["limit"]:
            n = sys.getrecursionlimit(); sys.setrecursionlimit(p["limit"]); u.append(lambda: sys.setrecursionlimit(n))
        if p["decoys"]:
            self.decoys = True
            if _cwd() != "gone": self.litter(".")
            sys.path.insert(0, ""); u.append(lambda: sys.path.remove(""))

    decoys = False

    @staticmethod
    def litter(d):
        for q in ("", "edgelib", "mesh/edgelib", "puncturedfem/mesh/edgelib"):
            os.makedirs(os.path.join(d, q), exist_ok=True)
            for n in ("line", "circle", "ellipse", "sine_wave", "circular_arc", "circular_arc_deg", "spline", "locals", "d2"):
                with open(os.path.join(d, q, n + ".py"), "w") as f:
                    f.write(USERFILE)

    def chdir(self, w):
        d = os.path.join(self.root, ["a/b c/deep", "other", "gone"][w])
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        if self.decoys and w != 2: self.litter(".")
        if w == 2: shutil.rmtree(d)

    def __exit__(self, *x):
        self.stack.close()
        for f in reversed(self.undo): f()
        os.chdir(self.root)

    def between(self, k):
        """Things happening around the library between two operations."""
        for x in self.acts.get(k, []):
            self.n += 1
            if x[0] == "seed": random.seed(x[1]); np.random.seed(x[1])
            elif x[0] == "collect": gc.collect()
            elif x[0] == "chdir": self.chdir(x[1])
            elif x[0] == "jump" and self.clock: self.clock.now += x[1]
            elif x[0] == "draw": [random.random() for _ in range(x[1])]; np.random.rand(x[1])
            elif x[0] == "garbage":
                r = random.Random(x[1])
                for _ in range(400):
                    b = np.empty(r.choice([3, 8, 40, 64, 128, 1000])); b.fill(r.choice([float("nan"), 3.5, -1e9]))
                junk = [[object() for _ in range(r.randint(1, 50))] for _ in range(200)]
                del junk

    def active(self):
        return sorted(k for k, v in self.a.items() if v is not None and v != [] and k != "zyg") + ([] if self.a["zyg"] is None else ["interpreter"])


def _cwd():
    try:
        return os.getcwd()
    except OSError:
        return "gone"


def settings():
    """Process-wide state that belongs to somebody else."""
    s = plots.settings() if _cwd() != "gone" else {}
    um = os.umask(0); os.umask(um)
    st = np.random.get_state()
    s.update(cwd=_cwd(), random=hash(random.getstate()), nprandom=(st[0], hash(st[1].tobytes()), *st[2:]), gc=(gc.isenabled(), gc.get_threshold()), env=dict(os.environ), path=list(sys.path), umask=um, limit=sys.getrecursionlimit(),
             out=(id(sys.stdout), id(sys.stderr), id(sys.excepthook), id(sys.displayhook)), sig=[str(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)], threads=threading.active_count(),
             loc=locale.setlocale(locale.LC_ALL), switch=sys.getswitchinterval(), files=sorted(os.listdir(".")) if _cwd() != "gone" else [], trace=str(sys.gettrace()), prof=str(sys.getprofile()))
    return s


if __name__ == "__main__":
    from sim import ambient
    ambient.serve(sys.argv[1], sys.argv[2])
