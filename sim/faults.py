"""Asynchronous faults: an exception delivered at the k-th executed statement of the library (user interrupt, failed
allocation), and a bound on executed statements per call."""
from __future__ import annotations
import ast, functools, pathlib, random, sys
from . import core

KINDS = {"interrupt": KeyboardInterrupt, "nomem": MemoryError}


@functools.lru_cache(maxsize=None)
def _cleanup_lines(fn):
    """Lines inside except/finally bodies: an exception delivered there hits the clean-up itself, never injected."""
    out = set()
    try:
        tree = ast.parse(pathlib.Path(fn).read_text(encoding="utf-8"))
    except (OSError, SyntaxError):
        return frozenset()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            for part in list(n.finalbody) + list(n.handlers):
                out.update(range(part.lineno, (part.end_lineno or part.lineno) + 1))
    return frozenset(out)


def _is_store(t):
    """Does this assignment target reach state that outlives the call (an attribute, or part of one)?"""
    while isinstance(t, (ast.Subscript, ast.Starred)):
        t = t.value
    if isinstance(t, (ast.Tuple, ast.List)):
        return any(_is_store(e) for e in t.elts)
    return isinstance(t, ast.Attribute)


@functools.lru_cache(maxsize=None)
def _stateful_lines(fn):
    """Statements of functions that change objects in place, from the first such statement on (constructors excepted):
    the places where an interruption or a thread switch can find something half done.  Only steers the search."""
    out = {}
    try:
        tree = ast.parse(pathlib.Path(fn).read_text(encoding="utf-8"))
    except (OSError, SyntaxError):
        return out
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) or f.name == "__init__":
            continue
        first, names = None, set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                names.update(n.names)
        for n in ast.walk(f):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) and getattr(n, "value", 1) is not None else []
            if any(_is_store(t) or (isinstance(t, ast.Name) and t.id in names) for t in ts):
                first = min(first or n.lineno, n.lineno)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "pop", "clear", "update", "insert", "remove", "sort") and isinstance(n.func.value, ast.Attribute):
                first = min(first or n.lineno, n.lineno)
        if first is not None:
            out.update((i, f.name) for i in range(first, (f.end_lineno or first) + 1))
    return out


def focus(sites, seed, frac):
    """Lines of a seeded subset of the executed functions that change objects in place."""
    got = {}
    for s in sites:
        if s is not None:
            f = _stateful_lines(s[0]).get(s[1])
            if f:
                got.setdefault((s[0][len(core.PKG):], f), set()).add(s[:2])
    pick = [k for k in sorted(got) if random.Random(f"{seed}/{k[0]}/{k[1]}").random() < frac] or sorted(got)
    return sorted(x for k in pick for x in got[k])


def _depth(frame):
    d, f = 0, frame
    while f is not None:
        d += f.f_code.co_filename.startswith(core.PKG)
        f = f.f_back
    return d


class Tracer:
    """Counts executed library statements; fires `exc` at event number `at`; enforces a step budget."""

    def __init__(self, at=None, exc=KeyboardInterrupt, budget=None, record=False):
        self.at, self.exc, self.budget, self.record = at, exc, budget, record
        self.n, self.fired, self.sites, self.where = 0, False, [], None

    def _global(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(core.PKG) or code.co_name == "<module>":
            return None
        skip = _cleanup_lines(code.co_filename)
        depth = _depth(frame) if self.record else 0

        def local(frame, event, arg):
            if event != "line":
                return local
            self.n += 1
            if self.budget and self.n > self.budget:
                raise core.StepBudget()
            ln = frame.f_lineno
            if self.record:
                self.sites.append((code.co_filename, ln, depth) if ln not in skip else None)
            if self.at is not None and self.n >= self.at and not self.fired and ln not in skip:
                self.fired = True
                self.where = f"{code.co_filename[len(core.PKG):]}:{code.co_name}"
                raise self.exc("injected")
            return local
        return local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


class Monitor:
    """The same for long operations: every statement is counted the first HITS times it is executed (a fault in the
    hundredth pass through a leaf function is for practical purposes one in an earlier pass), at little cost."""
    HITS = 150
    TOOL = 3

    def __init__(self, at=None, exc=KeyboardInterrupt, record=False):
        self.at, self.exc, self.record = at, exc, record
        self.n, self.fired, self.sites, self.where = 0, False, [], None
        self._hits, self._depths = {}, {}

    def _line(self, code, ln):
        mon = sys.monitoring
        if not code.co_filename.startswith(core.PKG) or code.co_name == "<module>":
            return mon.DISABLE
        key = (code, ln)
        h = self._hits[key] = self._hits.get(key, 0) + 1
        if h > self.HITS:
            return mon.DISABLE
        self.n += 1
        skip = ln in _cleanup_lines(code.co_filename)
        if self.record:
            d = self._depths.get(key)
            if d is None:
                d = self._depths[key] = _depth(sys._getframe(1))
            self.sites.append(None if skip else (code.co_filename, ln, d))
        if self.at is not None and self.n >= self.at and not self.fired and not skip:
            self.fired = True
            self.where = f"{code.co_filename[len(core.PKG):]}:{code.co_name}"
            raise self.exc("injected")

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "verif")
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)
        return False


def bounded(fn, budget, log=None, what="call"):
    """Call fn with a bound on executed library statements."""
    with Tracer(budget=budget) as t:
        try:
            r = fn()
        except core.StepBudget:
            raise core.Violation("no-progress", f"{what}: more than {budget} library statements") from None
    if log:
        log.steps += t.n
    return r


def dry(fn, hot=False):
    """Run fn, return (number of statements, list of sites)."""
    with (Monitor(record=True) if hot else Tracer(record=True)) as t:
        fn()
    return t.n, t.sites


def choose(sites, u_mode, u_pos):
    """Pick an event index from recorded sites: uniformly over distinct code sites (so rarely executed statements are hit
    as often as hot loops), over the distinct sites near the called operation (where its state is put together), over those
    in functions that change objects in place, or over executed statements."""
    idx = [i for i, s in enumerate(sites) if s is not None]
    if not idx:
        return None
    if u_mode >= .75:
        return idx[min(int(u_pos * len(idx)), len(idx) - 1)] + 1
    if .15 <= u_mode < .45:
        idx = [i for i in idx if sites[i][1] in _stateful_lines(sites[i][0])] or idx
    elif u_mode >= .45:
        top = min(sites[i][2] for i in idx)
        idx = [i for i in idx if sites[i][2] <= top + 2]
    by = {}
    for i in idx:
        by.setdefault(sites[i][:2], []).append(i)
    keys = sorted(by)
    f = u_pos * len(keys)
    k = by[keys[min(int(f), len(keys) - 1)]]
    return k[min(int((f % 1) * len(k)), len(k) - 1)] + 1


def interrupted(fn, at, kind, log, budget=None, hot=False):
    """Run fn with a fault at statement `at`.  Returns ("ok", result) | ("fault", where) | ("swallowed", result)."""
    exc = KINDS[kind]
    with (Monitor(at=at, exc=exc) if hot else Tracer(at=at, exc=exc, budget=budget)) as t:
        try:
            r = fn()
        except exc as e:
            if "injected" not in str(e):
                raise
            log.fault(kind); log.steps += t.n
            log.ev("fault", kind, t.where)
            return "fault", t.where
    log.steps += t.n
    if t.fired:
        log.fault(kind + "-absorbed")
        return "swallowed", r
    return "ok", r
