"""Independent model of the curve library and of edge transformations: own formulas, second-order jets, affine maps."""
from __future__ import annotations
import math
import numpy as np


class Jet:
    """Value with first and second derivative with respect to the curve parameter (arrays)."""
    __array_priority__ = 100

    def __init__(self, v, d=0.0, dd=0.0):
        v = np.asarray(v, float)
        self.v, self.d, self.dd = v, d + 0 * v, dd + 0 * v

    @staticmethod
    def of(x):
        return x if isinstance(x, Jet) else Jet(x)

    def __add__(self, o): o = Jet.of(o); return Jet(self.v + o.v, self.d + o.d, self.dd + o.dd)
    __radd__ = __add__
    def __neg__(self): return Jet(-self.v, -self.d, -self.dd)
    def __sub__(self, o): return self + (-Jet.of(o))
    def __rsub__(self, o): return Jet.of(o) - self
    def __mul__(self, o): o = Jet.of(o); return Jet(self.v * o.v, self.d * o.v + self.v * o.d, self.dd * o.v + 2 * self.d * o.d + self.v * o.dd)
    __rmul__ = __mul__
    def fn(self, f, f1, f2): return Jet(f, f1 * self.d, f2 * self.d**2 + f1 * self.dd)
    def sin(self): return self.fn(np.sin(self.v), np.cos(self.v), -np.sin(self.v))
    def cos(self): return self.fn(np.cos(self.v), -np.sin(self.v), -np.cos(self.v))
    def ipow(self, n): return self.fn(self.v**n, n * self.v**(n - 1), n * (n - 1) * self.v**(n - 2))


PI = math.pi


def base(curve, opts, t):
    """Jets (x1, x2) of the base curve at parameters t in [0, 2 pi]."""
    s = Jet(t, 1.0, 0.0)
    if curve == "line":
        return s * (1 / (2 * PI)), s * 0.0
    if curve == "sine_wave":
        return s * (1 / (2 * PI)), opts["amp"] * (s * (opts["freq"] / 2)).sin()
    if curve == "circle":
        r = opts.get("radius", 1)
        return r * s.cos(), r * s.sin()
    if curve == "ellipse":
        return opts["a"] * s.cos(), opts["b"] * s.sin()
    if curve == "bean":
        return s.cos() + .65 * (2 * s).cos(), 1.5 * s.sin()
    if curve == "cartioid":
        r = 1 + opts["a"] * (1 - s * (1 / PI)).ipow(8)
        return r * s.cos(), r * s.sin()
    if curve == "teardrop":
        b = math.tan(PI / (2 * opts.get("alpha", 1.5)))
        return 2 * (s * .5).sin(), -b * s.sin()
    if curve == "circular_arc":
        H = opts["H"]; R = math.hypot(.5, H); t0 = math.asin(H / R)
        th = s * (-.5 - t0 / PI) + (t0 + PI)
        return .5 + R * th.cos(), H + R * th.sin()
    if curve == "circular_arc_deg":
        th = s * (opts["theta0"] / 360)
        return th.cos(), th.sin()
    if curve == "spline":
        from scipy import interpolate
        tck = interpolate.splprep([np.array(p, float) for p in opts["pts"]], s=0)[0]
        u = np.asarray(t, float) / (2 * PI)
        out = []
        f0, f1, f2 = (interpolate.splev(u, tck, der=k) for k in (0, 1, 2))
        for i in (0, 1):
            out.append(Jet(f0[i], f1[i] / (2 * PI), f2[i] / (2 * PI) ** 2))
        return tuple(out)
    raise KeyError(curve)


def quad_nodes(qtype, n, p):
    """Own formulas for the node map and its weight (trapezoid, Kress)."""
    s = np.linspace(0, 2 * PI, 2 * n + 1)
    if qtype == "trap":
        return s, np.ones(2 * n + 1)
    z = s / PI - 1
    v = (1 / p - .5) * (-z) ** 3 + z / p + .5
    w = (1 / p - .5) * z ** 3 - z / p + .5
    t = 2 * PI * v**p / (v**p + w**p)
    dv = (3 * (.5 - 1 / p) * z**2 + 1 / p) / PI
    wgt = 2 * PI * p * dv * (v * w) ** (p - 1) / (v**p + w**p) ** 2
    return t, wgt


class EdgeModel:
    """Base curve followed by a list of affine similarity maps (M, c)."""

    def __init__(self, curve, opts, a, b, t_bounds=(0.0, 2 * PI)):
        self.curve, self.opts, self.tb = curve, opts, t_bounds
        self.loop = math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-12
        self.M, self.c = np.eye(2), np.zeros(2)
        self.start(a, b)

    def copy(self):
        m = object.__new__(EdgeModel)
        m.__dict__.update(self.__dict__); m.M = self.M.copy(); m.c = self.c.copy()
        return m

    def start(self, a, b):
        """Endpoints set: all earlier transformations are forgotten."""
        self.loop = math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-12
        self.M, self.c = np.eye(2), np.zeros(2)
        if self.loop:
            self.c = np.array(a, float)
        else:
            self.join(a, b)

    def at(self, t):
        t = np.atleast_1d(np.asarray(t, float))
        x, y = base(self.curve, self.opts, t)
        return self.M @ np.array([x.v, y.v]) + self.c[:, None]

    def closed_base(self):
        p = self.at([self.tb[0], self.tb[1]])
        return np.hypot(*(p[:, 0] - p[:, 1])) < 1e-12

    def join(self, a, b):
        p = self.at([self.tb[0], self.tb[1]])
        u, w = p[:, 1] - p[:, 0], np.array(b, float) - np.array(a, float)
        z = complex(*w) / complex(*u)
        S = np.array([[z.real, -z.imag], [z.imag, z.real]])
        self.M, self.c = S @ self.M, S @ (self.c - p[:, 0]) + np.array(a, float)

    def lin(self, A):
        A = np.array(A, float)
        self.M, self.c = A @ self.M, A @ self.c

    def apply(self, op):
        k = op[0]
        if k == "rotate":
            r = math.radians(op[1]); self.lin([[math.cos(r), -math.sin(r)], [math.sin(r), math.cos(r)]])
        elif k == "translate":
            self.c = self.c + np.array(op[1:3], float)
        elif k == "dilate":
            self.lin([[op[1], 0], [0, op[1]]])
        elif k == "reflect_x":
            self.lin([[1, 0], [0, -1]])
        elif k == "reflect_y":
            self.lin([[-1, 0], [0, 1]])
        elif k == "ortho":
            self.lin(ortho(op[1], op[2]))
        elif k == "join":
            self.join(op[1:3], op[3:5])
        elif k == "verts":
            self.start(op[1:3], op[3:5] if len(op) > 3 else op[1:3])
        else:
            raise KeyError(k)

    def sample(self, t, wgt, reverse=False):
        """Expected x, unit tangent, unit normal, dx_norm (weighted), signed curvature."""
        a, b = self.tb
        r = (b - a) / (2 * PI)
        X, Y = base(self.curve, self.opts, r * t + a)
        x = self.M @ np.array([X.v, Y.v]) + self.c[:, None]
        dx = r * (self.M @ np.array([X.d, Y.d]))
        ddx = r * r * (self.M @ np.array([X.dd, Y.dd]))
        n2 = (dx**2).sum(0)
        tan = dx / np.sqrt(n2)
        nrm = np.array([tan[1], -tan[0]])
        curv = (ddx * nrm).sum(0) / n2
        d = np.sqrt(n2) * wgt
        if reverse:
            x, tan, nrm, d, curv = x[:, ::-1], -tan[:, ::-1], -nrm[:, ::-1], d[::-1], -curv[::-1]
        return dict(par=True, n=len(t), x=x, t=tan, nrm=nrm, dx=d, curv=curv)


def ortho(deg, det):
    r = math.radians(deg)
    c, s = math.cos(r), math.sin(r)
    if deg % 90 == 0:  # what a user writes down: no rounding in the entries
        c, s = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][int(deg // 90) % 4]
    A = np.array([[c, -s], [s, c]])
    if det < 0:
        A = A @ np.array([[1.0, 0], [0, -1]])
    return A


LOOPS = [("circle", {}), ("circle", dict(radius=.3)), ("ellipse", dict(a=.4, b=.2)), ("bean", {}), ("teardrop", {}),
         ("teardrop", dict(alpha=1.2)), ("cartioid", dict(a=-.4)), ("cartioid", dict(a=1.5)), ("circular_arc_deg", dict(theta0=360)),
         ("spline", dict(pts=[[1.0, .2, -.8, 0.0, 1.0], [0.0, .9, .1, -.7, 0.0]]))]
OPEN = [("line", {}), ("line", {}), ("sine_wave", dict(amp=.2, freq=3)), ("sine_wave", dict(amp=-.1, freq=2)), ("circular_arc", dict(H=.4)),
        ("circular_arc", dict(H=-.3)), ("circular_arc_deg", dict(theta0=120)), ("circular_arc_deg", dict(theta0=250)),
        ("spline", dict(pts=[[0.0, .3, .7, 1.1, 1.3], [0.0, .4, -.2, .3, .1]]))]
