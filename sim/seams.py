"""Seams around the numerical kernels and the outside world that the library calls."""
from __future__ import annotations
import contextlib, sys


@contextlib.contextmanager
def replaced(pairs):
    """Replace functions wherever the library (or the module that provides them) holds a reference: pairs = [(original, stand-in)]."""
    done = []
    try:
        for name, mod in sorted(sys.modules.items()):
            if mod is None or not (name.startswith("puncturedfem") or name in ("scipy.sparse.linalg", "scipy.linalg", "numpy.linalg", "tqdm", "tqdm.auto", "tqdm.std")):
                continue
            d = vars(mod)
            for k in list(d):
                for orig, new in pairs:
                    if d[k] is orig:
                        done.append((mod, k, d[k]))
                        setattr(mod, k, new)
        yield
    finally:
        for mod, k, v in reversed(done):
            setattr(mod, k, v)


class Kernel:
    """Counts calls of a linear solver and makes the k-th one fail (raise)."""

    def __init__(self, orig, at=None, exc=RuntimeError):
        self.orig, self.at, self.exc, self.n, self.fired = orig, at, exc, 0, False

    def __call__(self, *a, **kw):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            raise self.exc("injected failure of a linear solver")
        return self.orig(*a, **kw)


def linear_solvers():
    import scipy.sparse.linalg as sl
    return [sl.gmres, sl.spsolve, sl.splu]


def curve_functions():
    """The functions evaluating the curves of the edge library (points and derivatives)."""
    out = []
    for name, mod in sorted(sys.modules.items()):
        if name.startswith("puncturedfem") and mod is not None and all(callable(getattr(mod, k, None)) for k in ("X", "DX", "DDX")):
            out += [mod.X, mod.DX, mod.DDX]
    return out
