"""C14: a figure is saved completely or the draw call fails, and can be retried."""
import os, shutil, tempfile
import numpy as np
from .. import core, disk, faults, plots, world
from ..core import Violation, sut

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 150, "thorough": 4000}
CASE_TIMEOUT = 240
RULE = ("one simulated run: a small problem and a seeded history of draw calls of all four kinds of plots (any options, some invalid) that save to new, existing or missing directories on a disk where "
        "directories cannot be made or appear meanwhile, files cannot be opened, the disk fills up after a seeded byte, a raw write takes only part of the data, the last data is lost on close, directories vanish, renames fail, or where a call into the plotting "
        "library fails or the draw is interrupted at a seeded statement, each followed by a retry; after every attempt the file, the open figures and the process-wide settings are examined; "
        "counted if at least one fault fired; distinct event logs")
REAL = ["MeshPlot", "TracePlot", "LocalFunctionPlot", "GlobalFunctionPlot", "save_figure", "matplotlib (Agg, PDF, SVG back ends) and Pillow", "solver and mesh layers"]
STUB = ["a scratch directory stands for the disk; open, mkdir, rename and close below it fail when told to", "plt.show only records", "a pyplot call made by the library raises when told to", "dpi 50 instead of 300", "default interior grid 7x7"]
ASSUMPTIONS = ["interrupts arrive at library statements outside except/finally bodies, or at calls into pyplot", "a failed save may leave an incomplete file behind, since the call raises"]


def gen_fault(rng):
    r = rng.random()
    if r < .58:
        k = rng.choice(["mkdir", "race", "race", "open", "write", "write", "write", "short", "close", "vanish", "rename"])
        return ["disk", k, rng.random(), rng.choice(["acces", "nospc", "mfile"])]
    if r < .8:
        return ["call", rng.random(), int(rng.random() < .4), rng.choice(["MemoryError", "KeyboardInterrupt", "RuntimeError"])]
    return ["stmt", rng.choice(["interrupt", "nomem"]), rng.random(), rng.random()]


def gen(rng, i, tier):
    c = plots.gen_scene(rng, .3)
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        ops.append([plots.gen_request(rng, c["glob"]), plots.gen_target(rng), [gen_fault(rng) for _ in range(rng.choice([0, 1, 1, 2]))]])
    return dict(c, ops=ops, user=rng.choice([0, 0, 1, 2]))


EXC = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError}


def prepare():
    plots.prepare()


class Site:
    """A fresh directory in which one request draws."""

    def __init__(self, root, target, tag):
        self.base = os.path.join(root, tag)
        os.makedirs(os.path.join(self.base, "old"))
        show, name, fmt = target
        self.show, self.fmt = bool(show), fmt
        self.name = "" if name is None else name.format(1).replace("ABS", self.base) + "." + fmt
        self.path = None if name is None else os.path.normpath(os.path.join(self.base, self.name))
        if name is not None and name.startswith("old/"):
            with open(self.path, "wb") as f: f.write(b"an older picture, long since useless\n" * 40)

    def __enter__(self):
        self.cwd = os.getcwd(); os.chdir(self.base)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)


def attempt(scene, obj, draw, site, fault, log, sizes=None):
    """Draw once.  Returns (outcome, picture or None, exception, fired)."""
    shown = []
    calls = plots.Calls(on_show=lambda: shown.append(plots.pixels()))
    D = disk.Disk(site.base)
    at = None
    if fault:
        if fault[0] == "disk":
            D.fault = fault[1:2] + fault[2:]
            if fault[1] == "write":
                D.limit = int(fault[2] * max(sizes["bytes"], 1))
        elif fault[0] == "call":
            calls.at, calls.after, calls.exc = 1 + min(int(fault[1] * sizes["calls"]), sizes["calls"] - 1), bool(fault[2]), EXC[fault[3]]
        else:
            at = sizes["at"]
    tag, exc, fired = "ok", None, False
    with D.mounted(), calls.installed():
        try:
            if at is not None:
                t, w = faults.interrupted(lambda: draw(site.show, site.name), at, fault[1], log, hot=True)
                fired = t != "ok"
                if t == "fault": tag, exc = "raised", w
            else:
                draw(site.show, site.name)
        except (Exception, KeyboardInterrupt) as e:
            tag, exc = "raised", e
    if not fired:
        fired = calls.fired or D.fired > 0
        if fired: log.fault("disk-" + fault[1] if fault[0] == "disk" else "pyplot-call")
    site.data, site.made, site.figs = calls.data, calls.made, calls.figs
    return tag, shown[0] if shown else None, exc, fired, dict(calls=calls.n, bytes=D.written)


def figures():
    import matplotlib.pyplot as plt
    from matplotlib._pylab_helpers import Gcf
    a = Gcf.get_active()
    return list(plt.get_fignums()), None if a is None else a.num


def user_figures(n):
    import matplotlib.pyplot as plt
    fs = []
    for k in range(n):
        f = plt.figure(figsize=(2, 2)); plt.plot([0, 1], [k, 1]); fs.append(f)
    if n > 1: plt.figure(fs[0].number)
    return fs


def result_of(site):
    """What the file holds: ("picture", image) | ("missing"/"incomplete", reason)."""
    if site.path is None:
        return "picture", None
    if not os.path.exists(site.path):
        return "missing", "there is no such file"
    try:
        return "picture", plots.read_image(site.path)
    except Exception as e:  # noqa: BLE001
        return "incomplete", f"{type(e).__name__}: {e}"


def reference(scene, op, root, log, raw=False):
    """The same draw call, nothing disturbed, in a process that has not drawn anything."""
    def go():
        with Site(root, op[1], "ref") as site:
            try:
                o, draw = scene.make(op[0], raw)
            except Exception as e:  # noqa: BLE001
                return "make", type(e).__name__, None
            tag, shown, exc, _, sizes = attempt(scene, o, draw, site, None, log)
            if tag != "ok":
                return "raised", type(exc).__name__, None
            return "ok", result_of(site), shown
    try:
        return core.isolated(go)
    finally:
        shutil.rmtree(os.path.join(root, "ref"), ignore_errors=True)


def measure(make, op, root, fault, log):
    """Positions for a fault: number of pyplot calls, bytes written, statement to interrupt; found in a process of its own."""
    def go():
        with Site(root, op[1], "dry") as site:
            o, draw = make()
            if fault[0] == "stmt":
                box = []

                def once():
                    box.append(attempt(None, o, draw, site, None, log))
                n, sites = faults.dry(once, hot=True)
                sites = [s if s and not s[0].startswith(core.VERIF) else None for s in sites]
                return dict(at=faults.choose(sites, fault[2], fault[3]))
            return attempt(None, o, draw, site, None, log)[4]
    try:
        return core.isolated(go)
    finally:
        shutil.rmtree(os.path.join(root, "dry"), ignore_errors=True)


def run(case):
    import matplotlib.pyplot as plt
    log = core.Log()
    root = os.path.realpath(tempfile.mkdtemp(prefix="c14-", dir=os.environ.get("VERIF_SCRATCH")))
    try:
        with world.mute():
            _run(case, log, plt, root)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)
    return log.result()


def _run(case, log, plt, root):
    scene = plots.Scene(case, case["glob"])
    os.chdir(root)
    refs = [reference(scene, op, root, log) for op in case["ops"]]
    users = user_figures(case["user"])
    hits = drawn = 0
    for j, (req, target, fs) in enumerate(case["ops"]):
        what = f"draw {j} {req} {target}"
        rtag, rres, rshown = refs[j]
        if rtag == "make":
            continue
        with Site(root, target, f"op{j}") as site:
            with sut(what + ": constructing the plot"):
                obj, draw = scene.make(req)
            for fault in fs + [None]:
                w = what + (f" under {fault}" if fault else " undisturbed" + (" (retry)" if fs else ""))
                sizes = None
                if fault and not (fault[0] == "disk" and fault[1] != "write"):
                    sizes = measure(lambda: (obj, draw), (req, target), root, fault, log)
                    if fault[0] == "stmt" and sizes["at"] is None or fault[0] == "call" and not sizes["calls"]:
                        continue
                set0, figs0 = plots.settings(), figures()
                look0 = [(len(f.axes), [len(a.get_children()) for a in f.axes]) for f in users]
                tag, shown, exc, fired, _ = attempt(scene, obj, draw, site, fault, log, sizes)
                log.ev(j, fault and fault[:2], tag, fired, type(exc).__name__ if isinstance(exc, BaseException) else exc)
                hits += fired
                # what it left behind
                figs1 = figures()
                extra = [n for n in figs1[0] if n not in figs0[0]]
                allowed = 1 if tag == "ok" and req[0] == "mesh" and req[3].get("keep_open") else 0
                if len(extra) != allowed:
                    raise Violation("open-figures", f"{w}: {tag}, {len(extra)} figures left open instead of {allowed}")
                for n in extra: plt.close(n)
                gone = [n for n in figs0[0] if n not in figs1[0]]
                if gone:
                    raise Violation("closed-figures", f"{w}: {tag}, closed figures it did not create")
                if figures() != figs0:
                    raise Violation("current-figure", f"{w}: {tag}, the current figure changed: {figs0} -> {figures()}")
                if [(len(f.axes), [len(a.get_children()) for a in f.axes]) for f in users] != look0:
                    raise Violation("user-figure", f"{w}: {tag}, drew into a figure of somebody else")
                sd = plots.settings_diff(set0, plots.settings())
                if sd:
                    raise Violation("settings", f"{w}: {tag}, process-wide settings changed: {sd}")
                # what it achieved
                if tag == "raised":
                    if not fired and not plots.may_fail(req, case):
                        raise Violation("unexpected-exception", f"{w}: {type(exc).__name__}: {exc}")
                    if not fired and not (rtag == "raised" and type(exc).__name__ == rres):
                        raise Violation("unexpected-exception", f"{w}: {type(exc).__name__}: {exc}" + ("" if rtag == "ok" else f" (instead of {rres})"))
                    continue
                if rtag == "raised":
                    raise Violation("no-error", f"{w}: returned, though it raises {rres} when nothing is disturbed")
                kind, got = result_of(site)
                if kind != "picture":
                    raise Violation("file-" + kind, f"{w}: the call returned, but {got}" + (f" ({fault} fired)" if fired else ""))
                if site.path is not None:
                    d = plots.same_picture(got, rres[1])
                    if d: raise Violation("picture", f"{w}: the file differs from an undisturbed one: {d}")
                if target[0] and shown is None:
                    raise Violation("not-shown", f"{w}: returned without showing the figure")
                drawn += 1
    log.probe("drawn", drawn); log.probe("faults-fired", hits)


def nontrivial(case, res):
    return res["probes"].get("faults-fired", 0) >= 1


def shrink(case):
    yield from core.shrink_lists(case, ["ops"])
    for k, (req, target, fs) in enumerate(case["ops"]):
        for q in range(len(fs)):
            yield dict(case, ops=case["ops"][:k] + [[req, target, fs[:q] + fs[q + 1:]]] + case["ops"][k + 1:])
    if case["user"]:
        yield dict(case, user=0)
    if case["glob"] and not any(op[0][0] == "global" for op in case["ops"]):
        yield dict(case, glob=0)
    E = case["spec"]["edges"]
    for k, e in enumerate(E):
        if e["a"] == e["b"] and min(e["pos"], e["neg"]) < 0:
            yield dict(case, spec=dict(case["spec"], edges=E[:k] + E[k + 1:]))
