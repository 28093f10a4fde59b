"""Plots of a small problem: seeded requests, drawing them under faults, pictures and process-wide settings (C14, C15, C17)."""
from __future__ import annotations
import contextlib, inspect, os, sys, warnings
import numpy as np
from . import core, local_ops as lo, problem as pr, world

DPI = 50


def prepare():
    """Tuning knobs: low resolution; one throw-away figure so that the backend is settled."""
    import matplotlib.pyplot as plt
    from puncturedfem.plot import plot_util
    f = getattr(plot_util, "save_figure", None)
    if f is not None and f.__defaults__:
        ps = [p.name for p in inspect.signature(f).parameters.values() if p.default is not inspect.Parameter.empty]
        f.__defaults__ = tuple(DPI if n == "dpi" else d for n, d in zip(ps, f.__defaults__))
    plt.rcParams["figure.dpi"] = DPI
    plt.figure(); plt.close("all")


def pyplot_functions():
    import matplotlib.pyplot as plt
    return [k for k in ("figure", "subplots", "plot", "quiver", "tricontourf", "tricontour", "triplot", "axis", "grid", "title", "savefig", "gca", "gcf", "subplots_adjust", "colorbar", "legend", "xticks", "semilogy",
                        "gci", "set_cmap") if hasattr(plt, k)]


class Calls:
    """Stands between the library and pyplot: counts the library's calls, fails the k-th one (before or after it took effect), and shows figures by handing them to `on_show`."""

    def __init__(self, at=None, after=False, exc=MemoryError, on_show=None):
        self.at, self.after, self.exc, self.n, self.fired, self.on_show, self.depth = at, after, exc, 0, False, on_show, 0
        self.data, self.made, self.figs = [], [], []

    def _wrap(self, name, f):
        def call(*a, **k):
            if self.depth or not sys._getframe(1).f_code.co_filename.startswith(core.PKG):
                return f(*a, **k)
            self.n += 1
            hit = self.n == self.at
            after = self.after and name not in ("figure", "subplots")
            if hit and not after:
                self.fired = True
                raise self.exc("injected")
            if name in ("tricontourf", "tricontour", "plot", "semilogy"):
                self.data.append((name, [np.array(v) if isinstance(v, (np.ndarray, list)) else v for v in a]))
            self.depth += 1
            try:
                r = f(*a, **k)
            finally:
                self.depth -= 1
            if name in ("tricontourf", "tricontour"):
                self.made.append(r)
            if hit:
                self.fired = True
                raise self.exc("injected")
            return r
        return call

    @contextlib.contextmanager
    def installed(self):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        old = {k: getattr(plt, k) for k in pyplot_functions()}
        show, save = plt.show, Figure.savefig

        def shown(*a, **k):
            if plt.get_fignums(): self.figs.append(describe(plt.gcf()))
            if self.on_show: self.on_show()

        def saved(fig, *a, **k):
            self.figs.append(describe(fig))
            return save(fig, *a, **k)
        try:
            Figure.savefig = saved
            for k, f in old.items(): setattr(plt, k, self._wrap(k, f))
            plt.show = self._wrap("show", shown)
            yield self
        finally:
            for k, f in old.items(): setattr(plt, k, f)
            plt.show, Figure.savefig = show, save


def describe(fig):
    """What a figure consists of at the moment it is shown or saved."""
    bars = [ax for ax in fig.axes if getattr(ax, "_colorbar", None) is not None]
    main = [ax for ax in fig.axes if ax not in bars]
    d = dict(axes=len(main), bars=[dict(clim=ax._colorbar.mappable.get_clim(), cmap=ax._colorbar.mappable.get_cmap().name) for ax in bars], titles=[ax.get_title() for ax in fig.axes if ax.get_title()])
    if main:
        ax = main[0]
        lg = ax.get_legend()
        d.update(on=bool(ax.axison), grid=bool(any(g.get_visible() for g in ax.get_xgridlines())), legend=[t.get_text() for t in lg.get_texts()] if lg else [], yscale=ax.get_yscale(), aspect=str(ax.get_aspect()),
                 lim=list(ax.get_xlim()) + list(ax.get_ylim()), lines=[(np.array(ln.get_xdata(), dtype=float), np.array(ln.get_ydata(), dtype=float), ln.get_linestyle(), ln.get_marker(), ln.get_color()) for ln in ax.lines],
                 ticks=[(float(t), lb.get_text()) for t, lb in zip(ax.get_xticks(), ax.get_xticklabels())], arrows=sum(type(c).__name__ == "Quiver" for c in ax.collections))
    return d


def is_line(ln, x, y):
    return len(ln[0]) == len(x) and np.allclose(ln[0], x, atol=1e-9) and np.allclose(ln[1], y, atol=1e-9)


def settings():
    """Process-wide settings a draw call must leave alone."""
    import matplotlib as mpl, matplotlib.pyplot as plt
    return dict(rc={k: repr(v) for k, v in dict.items(mpl.rcParams)}, err=np.geterr(), call=np.geterrcall(), cwd=os.getcwd(), filters=[str(f) for f in warnings.filters], prt={k: str(v) for k, v in np.get_printoptions().items()},
                trace=None, interactive=plt.isinteractive(), backend=mpl.get_backend())


def settings_diff(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                out += [f"{k}.{q}: {a[k].get(q)} -> {b[k].get(q)}" for q in sorted(set(a[k]) | set(b[k])) if a[k].get(q) != b[k].get(q)][:3]
            else:
                out.append(f"{k}: {str(a[k])[:80]} -> {str(b[k])[:80]}")
    return out


def gen_request(rng, glob, bad=.12):
    r = rng.random()
    title = rng.choice(["", "", "T", "a title"])
    if r < .22:
        return ["mesh", rng.choice([4, 8, 12]), int(rng.random() < .5), dict(title=title, show_orientation=int(rng.random() < .4), show_grid=int(rng.random() < .5), show_axis=int(rng.random() < .6), pad=rng.choice([0.0, .1, .3]),
                keep_open=int(rng.random() < .12))]
    if r < .44:
        k = rng.choice([1, 1, 2, 3])
        ts = [[rng.choice("avf"), rng.randrange(3)] for _ in range(k)]
        fmt = rng.choice(["k-", "r--", ["b-"] * k, ["k-", "r.", "g--"][:k]])
        return ["trace", ts, fmt, [f"f{i}" for i in range(k)] if rng.random() < .4 else [], title, int(rng.random() < .25), int(rng.random() < .7), rng.choice([3, 3, 4, 5, 9])]
    kw = dict(title=title, fill=int(rng.random() < .7), show_colorbar=int(rng.random() < .6), show_axis=int(rng.random() < .6), colormap=rng.choice([None, None, None, "viridis", "gray", "magma"]))
    pt = rng.choice(["values", "values", "grad_x1", "grad_x2", "grad_norm"])
    if rng.random() < bad:
        if rng.random() < .5: pt = "gradient"
        else: kw["colormap"] = "no-such-colormap"
    if r < .82 or not glob:
        kw.update(show_boundary=int(rng.random() < .7), show_triangulation=int(rng.random() < .3), use_log10=int(rng.random() < .3), levels=rng.choice([4, 8, 32]))
        return ["local", rng.randrange(4), int(rng.random() < .75), pt, kw]
    if rng.random() < .25: kw["use_interp"] = 0
    return ["global", rng.randrange(2), pt, kw]


def may_fail(req, case=None):
    """Requests that ask for something that does not exist."""
    if req[0] == "global" and case is not None and not case.get("grad", 1) and req[-2] != "values":
        return True
    if req[0] in ("mesh", "trace"):
        return False
    pt = req[-2]
    if pt == "gradient" or req[-1].get("colormap") == "no-such-colormap":
        return True
    return req[0] == "local" and (req[1] == 2 or (req[1] == 1 and pt != "values"))


FORMATS = ["png", "png", "png", "png", "pdf", "svg", "jpg"]


def gen_target(rng, show=.4):
    """[show_plot, file name or None]; names are relative to the current directory or absolute below it."""
    name = rng.choice(["x{}", "a/x{}", "a/b/c/x{}", "./x{}", "a/../y{}", "ABS/x{}", "ABS/d/e/x{}", "old/x{}", "name with blank/x{}"])
    return [int(rng.random() < show), None if rng.random() < .12 else name, rng.choice(FORMATS)]


class Scene:
    """The things that get plotted."""

    def __init__(self, case, glob):
        pf = world.pf
        with world.mute():
            self.mesh = world.build(case["spec"])
            self.K = self.mesh.get_cell(self.mesh.cell_idx_list[0])
            self.quad = pr.quad(case["q"])
            self.S = None
            if glob:
                V = pr.space(self.mesh, 1, case["q"])
                self.S = pf.Solver(V, pr.bilinear(case["form"]), verbose=False, compute_interior_values=True, compute_interior_gradient=bool(case.get("grad", 1)))
                self.S.solve()
                self.u = np.linspace(-1, 1, self.S.num_funs)
            self.K.parameterize(self.quad)
            self.N = pf.NystromSolver(self.K)
            self.T = [lo.make_trace(self.K, t) for t in case["traces"]]
            self.F = [pf.LocalPoissonFunction(self.N, laplacian=pr.poly(case["laps"][0]), trace=self.T[0], evaluate_gradient=True),
                      pf.LocalPoissonFunction(self.N, laplacian=pr.poly(case["laps"][1]), evaluate_interior=True),
                      pf.LocalPoissonFunction(self.N, trace=self.T[1], evaluate_interior=False)]
            self.F.append(self.F[0] * 2.0 + self.F[0])
            self.A = [np.cos(3 * self.K.get_boundary_points()[0]), np.array(self.F[0].get_trace_values()), np.abs(self.K.get_boundary_points()[1]) + .1]

    def make(self, req, raw=False):
        """Construct the plot object; returns (object, draw(show, filename)).  raw: traces given as arrays instead of objects."""
        pl, k = world.pf.plot, req[0]
        if k == "mesh":
            # arrows on sampled edges show the direction of the cell used last; sampled afresh, that of the edge
            o = pl.MeshPlot(self.mesh.edges, n=req[1], reparameterize=bool(req[2] or req[3].get("show_orientation")))
            kw = {a: (bool(b) if a.startswith(("show", "keep")) else b) for a, b in req[3].items()}
            return o, lambda show, fn: o.draw(show_plot=show, filename=fn, **kw)
        if k == "trace":
            ts = [{"a": self.A, "v": [f.harm.trace for f in self.F[:3]], "f": self.T + self.T}[w][i % 2 if w == "f" else i] for w, i in req[1]]
            if raw: ts = [np.array(getattr(t, "values", t)) for t in ts]
            o = pl.TracePlot(ts if len(ts) > 1 else ts[0], self.K, self.quad, fmt=req[2], legend=tuple(req[3]), title=req[4], log_scale=bool(req[5]), show_grid=bool(req[6]), max_num_ticks=req[7])
            return o, lambda show, fn: o.draw(show_plot=show, filename=fn)
        kw = {a: (bool(b) if a in ("fill", "show_colorbar", "show_axis", "show_boundary", "show_triangulation", "use_log10", "use_interp") else b) for a, b in req[-1].items()}
        if k == "local":
            o = pl.LocalFunctionPlot(self.F[req[1]], bool(req[2]))
            return o, lambda show, fn: o.draw(req[3], show_plot=show, filename=fn, **kw)
        o = pl.GlobalFunctionPlot(self.S, None if req[1] == 0 else np.array(self.u) if raw else self.u)
        return o, lambda show, fn: o.draw(req[2], show_plot=show, filename=fn, **kw)

    def shows(self, req, data, made=()):
        """None, or how the data handed to the plotting library differ from what the plotted objects hold."""
        k, tri = req[0], [a for n, a in data if n.startswith("tricontour")]
        lines = [(n, a) for n, a in data if n in ("plot", "semilogy")]
        if k == "mesh":
            if req[3].get("show_orientation"): return None
            ends = sorted(sorted([(round(float(v.x), 6), round(float(v.y), 6)) for v in (e.anchor, e.endpnt)]) for e in self.mesh.edges if e.anchor is not e.endpnt)
            if len(lines) != len(self.mesh.edges): return f"{len(lines)} lines drawn for {len(self.mesh.edges)} edges"
            lines = [(n, a) for n, a in lines if abs(a[0][0] - a[0][-1]) + abs(a[1][0] - a[1][-1]) > 1e-6]
            got = sorted(sorted([(round(float(a[0][i]) + 0.0, 6), round(float(a[1][i]) + 0.0, 6)) for i in (0, -1)]) for _, a in lines if len(a) > 1)
            return None if near(got, ends) else f"the lines drawn are not the edges of the mesh: {got[:4]} instead of {ends[:4]}"
        if k == "trace":
            want = [np.array(getattr({"a": self.A, "v": [f.harm.trace for f in self.F[:3]], "f": self.T + self.T}[w][i % 2 if w == "f" else i], "values",
                             {"a": self.A, "v": [f.harm.trace for f in self.F[:3]], "f": self.T + self.T}[w][i % 2 if w == "f" else i])) for w, i in req[1]]
            if len(want) != len(lines): return f"{len(lines)} curves drawn for {len(want)} traces"
            for (n, a), w in zip(lines, want):
                y = np.asarray(a[1], dtype=float)
                if not (len(y) == len(a[0]) and len(w) <= len(y) <= len(w) + 1 and np.allclose(y[:len(w)], w, rtol=1e-12, atol=1e-12)):
                    return "the curve drawn does not have the values of the trace"
                if (n == "semilogy") != bool(req[5]): return f"drawn with {n}"
            return None
        fs = [self.F[req[1]]] if k == "local" else [self.S.compute_linear_combo_on_mesh_cell(c, self.S.soln if req[1] == 0 else self.u) for c in self.mesh.cell_idx_list]
        if len(tri) != len(fs): return f"{len(tri)} cells drawn instead of {len(fs)}"
        g = lambda f: np.sqrt(f.int_grad1 ** 2 + f.int_grad2 ** 2)
        take = {"values": lambda f: f.int_vals, "grad_x1": lambda f: f.int_grad1, "grad_x2": lambda f: f.int_grad2, "grad_norm": g}[req[-2]]
        import matplotlib.pyplot as plt
        for m in made:
            cm = req[-1].get("colormap") or plt.rcParams["image.cmap"]
            if m.get_cmap().name != cm: return f"drawn in the colors {m.get_cmap().name} instead of {cm}"
        interp = bool(req[2]) if k == "local" else bool(req[-1].get("use_interp", 1))
        key = lambda x, y: (round(float(x), 9), round(float(y), 9))
        for f in fs:
            K = f.mesh_cell
            want = {key(x, y): v for x, y, v in zip(K.int_x1, K.int_x2, take(f))}
            x1, x2 = K.get_boundary_points()
            if not interp:
                for a in tri:   # no triangle that has a vertex on the boundary
                    edge = {key(x, y) for x, y in zip(x1, x2)}
                    on = np.array([key(x, y) in edge for x, y in zip(a[0].x, a[0].y)])
                    if np.all(on[-len(x1):]) and np.any(on[a[0].get_masked_triangles()]): return "triangles at the boundary are drawn, though not asked for"
            if interp and req[-2] == "values":
                x1, x2 = K.get_boundary_points()
                want.update({key(x, y): v for x, y, v in zip(x1, x2, f.get_trace_values())})
            for a in tri:
                pts = [key(x, y) for x, y in zip(a[0].x, a[0].y)]
                if sum(p in want for p in pts) >= max(len(K.int_x1), 1):
                    z = np.asarray(a[1], dtype=float)
                    w = np.array([want.get(p, np.nan) for p in pts], dtype=float)
                    if req[-1].get("use_log10"): w = np.log10(np.where(w < 1e-16, 1e-16, w))
                    ok = np.isfinite(w)
                    if len(z) != len(w): return f"{len(z)} values for {len(w)} points"
                    d = np.abs(z - w)[ok]
                    if d.size and not np.max(d) <= 1e-9 * (1 + np.max(np.abs(w[ok]))):
                        return f"the values drawn differ from those of the function by up to {np.max(d):.3e}"
                    break
            else:
                return "a cell is not drawn"
        return None

    def options(self, req, figs, data, made):
        """None, or how the figures shown and saved differ from the options of the request."""
        k = req[0]
        o = dict(title=req[4], show_grid=req[6]) if k == "trace" else req[-1] if k in ("local", "global") else req[3]
        for d in figs:
            if d["axes"] != 1: return f"{d['axes']} axes"
            if d["titles"] != ([o["title"]] if o.get("title") else []): return f"titled {d['titles']} instead of {o.get('title')!r}"
            on = o.get("show_axis", k != "global")
            if k != "trace" and d["on"] != bool(on): return f"the axis is {'on' if d['on'] else 'off'}"
            if k in ("mesh", "trace") and d["on"] and d["grid"] != bool(o.get("show_grid")): return f"the grid is {'on' if d['grid'] else 'off'}"
            bar = o.get("show_colorbar", k == "local") if k in ("local", "global") else 0
            if k == "global" and not o.get("fill", 1): bar = 0
            if len(d["bars"]) != int(bool(bar)): return f"{len(d['bars'])} color bars"
            if k == "mesh":
                if d["arrows"] != (len(self.mesh.edges) if o.get("show_orientation") else 0): return f"{d['arrows']} edges drawn with arrows"
                for ln in d["lines"]:
                    if not (np.all(ln[0] >= d["lim"][0] - 1e-9) and np.all(ln[0] <= d["lim"][1] + 1e-9) and np.all(ln[1] >= d["lim"][2] - 1e-9) and np.all(ln[1] <= d["lim"][3] + 1e-9)):
                        return f"an edge lies outside the window {d['lim']}"
                continue
            if k == "trace":
                if d["legend"] != list(req[3]): return f"legend {d['legend']} instead of {req[3]}"
                if d["yscale"] != ("log" if req[5] else "linear"): return f"drawn on a {d['yscale']} scale"
                fm = req[2] if isinstance(req[2], list) else [req[2]] * len(req[1])
                for ln, f in zip(d["lines"], fm):
                    style = {"-": ("-", "None"), "--": ("--", "None"), ".": ("None", ".")}[f[1:]]
                    if (ln[4], ln[2]) != (f[0], style[0]) or str(ln[3]) != style[1]: return f"drawn as {ln[2:]} instead of {f!r}"
                    if not (np.all(np.diff(ln[0]) > 0) and ln[0][0] > -1e-9 and ln[0][-1] <= 2 * np.pi * self.K.num_edges + 1e-9): return "the points of a curve are not in the order of the boundary"
                if len(d["ticks"]) > max(req[7], 2) or not d["ticks"]: return f"{len(d['ticks'])} ticks"
                for t, lb in d["ticks"]:
                    v = lb.replace("$\\pi$", "").replace("π", "")
                    if not v.isdigit() or abs(float(v) * np.pi - t) > 1e-6: return f"the position {t / np.pi:.3f} pi is labelled {lb!r}"
                continue
            if k == "local":
                with world.mute(): E = [e.get_sampled_points(ignore_endpoint=False) for e in self.K.get_edges()]
                show = bool(o.get("show_boundary", 1))
            else:
                E, show = [(e.x[0], e.x[1]) for e in self.mesh.edges], True
            n = sum(any(is_line(ln, *e) or is_line(ln, e[0][::-1], e[1][::-1]) for ln in d["lines"]) for e in E)
            if n != (len(E) if show else 0): return f"{n} of {len(E)} edges drawn, show_boundary={show}"
            if any(np.isnan(ln[0]).any() for ln in d["lines"]) != bool(o.get("show_triangulation", 0)): return "the triangulation is " + ("not " if o.get("show_triangulation") else "") + "drawn"
            if d["aspect"] not in ("equal", "1.0", "1"): return f"aspect {d['aspect']}"
            if made:
                lim = [m.get_clim() for m in made]
                if any(not np.allclose(v, lim[0]) for v in lim): return f"the cells have different color ranges {lim[:3]}"
                for b in d["bars"]:
                    flat = lim[0][1] - lim[0][0] <= 1e-9 * (1 + abs(lim[0][0]))      # the bar of a constant gets some width
                    if not flat and not np.allclose(b["clim"], lim[0]) or b["cmap"] != made[0].get_cmap().name: return f"the color bar shows {b}, the picture {lim[0]} {made[0].get_cmap().name}"
                if k == "global":
                    z = [np.asarray(a[1], dtype=float) for n, a in data if n.startswith("tricontour")]
                    lo_, hi_ = min(np.nanmin(v) for v in z), max(np.nanmax(v) for v in z)
                    if not (lo_ - 1e-9 * (1 + abs(lo_)) <= lim[0][0] <= lim[0][1] <= hi_ + 1e-9 * (1 + abs(hi_))): return f"color range {lim[0]} of values in {(lo_, hi_)}"
        tri = [(n, a) for n, a in data if n.startswith("tricontour")]
        if k in ("local", "global"):
            if {n for n, _ in tri} - {"tricontourf" if o.get("fill", 1) else "tricontour"}: return "filled though lines were asked for" if not o.get("fill", 1) else "drawn in lines though not asked for"
            if k == "local":
                from matplotlib.figure import Figure
                for (n, a), m in zip(tri, made):
                    with world.mute(): want = getattr(Figure().subplots(), n)(a[0], a[1], levels=o.get("levels", 32)).levels
                    if not (len(want) == len(m.levels) and np.allclose(want, m.levels)): return f"{len(m.levels)} levels, {o.get('levels', 32)} were asked for"
        return None

    def state(self):
        d = dict(cell=world.obs_cell(self.K), mask=None if self.K.triangulation.mask is None or not np.any(self.K.triangulation.mask) else np.array(self.K.triangulation.mask),
                 F=[lo.obs_fun(f) for f in self.F], T=[world.obs_trace(t) for t in self.T], A=[np.array(a) for a in self.A], nyst=pr.obs_nyst(self.N),
                 mesh=[[e.idx, e.pos_cell_idx, e.neg_cell_idx, e.anchor.x, e.anchor.y, e.endpnt.x, e.endpnt.y, e.is_parameterized, int(e.num_pts) if e.is_parameterized else 0] for e in self.mesh.edges],
                 pts=[None if not e.is_parameterized else sorted(map(tuple, np.round(np.array(e.x).T, 9).tolist())) for e in self.mesh.edges])
        if self.S is not None:
            d.update(sys=pr.obs_system(self.S), soln=np.array(self.S.soln), combo=[pr.combo(self.S, c, self.S.soln) for c in self.mesh.cell_idx_list])
        return d


def near(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(np.array(a, dtype=float), np.array(b, dtype=float), atol=5e-6)


def gen_scene(rng, glob=.3):
    return dict(spec=pr.small_spec(rng, two=.45), q=[rng.choice([4, 6, 8]), rng.choice([3, 5])], form=pr.form(rng), traces=[lo.gen_trace(rng), lo.gen_trace(rng)],
                laps=[pr.poly_terms(rng, 2), pr.poly_terms(rng, 2)], glob=int(rng.random() < glob), grad=int(rng.random() < .85))


def pixels():
    import matplotlib.pyplot as plt
    f = plt.gcf()
    f.canvas.draw()
    return np.array(f.canvas.buffer_rgba())[..., :3].astype(np.int16)


def read_image(path):
    """What a viewer makes of the file: pixels (raster formats) or "complete"; raises if it is not a complete image."""
    ext = path.rsplit(".", 1)[-1].lower()
    data = open(path, "rb").read()
    if ext in ("png", "jpg"):
        import io
        from PIL import Image, ImageFile
        ImageFile.LOAD_TRUNCATED_IMAGES = False
        im = Image.open(io.BytesIO(data)); im.load()
        if ext == "png" and not data.rstrip(b"\0").endswith(b"IEND\xaeB`\x82"):
            raise ValueError("PNG without end marker")
        if im.format != {"png": "PNG", "jpg": "JPEG"}[ext]:
            raise ValueError(f"format {im.format}")
        return np.array(im.convert("RGB")).astype(np.int16)
    if ext == "svg":
        import xml.etree.ElementTree as ET
        if not ET.fromstring(data).tag.endswith("svg"):
            raise ValueError("not an SVG file")
        return "complete"
    if not data.startswith(b"%PDF") or b"%%EOF" not in data[-64:]:
        raise ValueError("incomplete PDF file")
    return "complete"


def same_picture(a, b):
    """None, or how two pictures differ (more than rounding of antialiased edges)."""
    if isinstance(a, str) or isinstance(b, str):
        return None if isinstance(a, str) == isinstance(b, str) else "kinds differ"
    if a.shape != b.shape:
        return f"sizes {a.shape} and {b.shape} differ"
    d = np.abs(a - b).max(axis=2)
    n = int((d > 6).sum())
    return None if n <= max(3, 1e-4 * d.size) else f"{n} of {d.size} pixels differ (by up to {int(d.max())})"
