"""Deterministic scheduler for real threads running library code.

Exactly one simulated thread runs at any time; it may be preempted at any executed library statement.  The plan gives,
per thread, the statement counts at which to switch and (seeded) where to switch to, so one seed is one interleaving.
Locks created by library code are replaced by cooperative ones; a cycle of waiting threads is a deadlock.
"""
from __future__ import annotations
import _thread, sys, threading
from . import core, faults

_real_Lock, _real_RLock = threading.Lock, threading.RLock
_current = None      # active scheduler
_local = threading.local()


class CoopLock:
    def __init__(self, reentrant):
        self.re, self.owner, self.depth = reentrant, None, 0

    def _me(self):
        return getattr(_local, "tid", "main")

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.re and self.owner == me:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if _current is None or me == "main":
                raise core.Violation("deadlock", "a lock is never released (single thread)")
            _current.block(me, self)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire(); return self

    def __exit__(self, *a):
        self.release()


def _from_repo():
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(core.PKG)


def install_locks():
    def Lock(*a, **k):
        return CoopLock(False) if _from_repo() else _real_Lock()

    def RLock(*a, **k):
        return CoopLock(True) if _from_repo() else _real_RLock()
    threading.Lock, threading.RLock = Lock, RLock


class Scheduler:
    def __init__(self, fns, plan, log, budget=2_000_000, watchdog=120, aborts=None, hot=False):
        """plan: list per thread of dict {statement count: choice}, ("every", k, choices) for dense switching, or
        ("lines", lines, k, choices) for dense switching in those lines only (a dozen times each).
        aborts: {thread: (statement count, exception class)} delivered at the first statement from there on outside clean-up code."""
        self.aborts, self.hot, self.hits = dict(aborts or {}), hot, {}
        self.fns, self.plan, self.log, self.budget, self.watchdog = fns, plan, log, budget, watchdog
        self.n = len(fns)
        self.sem = [_real_Lock() for _ in fns]
        for s in self.sem:
            s.acquire()
        self.main = _real_Lock(); self.main.acquire()
        self.alive = set(range(self.n)); self.blocked = {}
        self.count = [0] * self.n
        self.total = 0
        self.results = [None] * self.n
        self.error = None
        self.history = []
        self.plan = [("lines", {tuple(x): 0 for x in p[1]}, p[2], p[3]) if not isinstance(p, dict) and p[0] == "lines" else p for p in self.plan]

    # every method below runs in the single thread that currently owns the baton
    def runnable(self):
        return [t for t in sorted(self.alive) if t not in self.blocked or self.blocked[t].owner is None]

    def pick(self, me, choice):
        r = self.runnable()
        others = [t for t in r if t != me]
        if not others:
            return me if me in r else None
        return others[choice % len(others)]

    def switch(self, me, to):
        if to == me:
            return
        self.log.threads_switches += 1
        self.history.append((me, self.count[me] if isinstance(me, int) else 0, to))
        self.blocked.pop(to, None)
        self.sem[to].release()
        self.sem[me].acquire()
        if self.error == "stop":
            raise SystemExit

    def block(self, me, lock):
        self.blocked[me] = lock
        to = self.pick(me, 0)
        if to is None or to == me:
            self.error = core.Violation("deadlock", f"all threads wait for locks: {sorted(self.blocked)}")
            self.main.release()
            self.sem[me].acquire()
            raise SystemExit
        self.switch(me, to)
        self.blocked.pop(me, None)

    def tick(self, me, site):
        self.count[me] += 1
        self.total += 1
        if self.total > self.budget:
            raise core.StepBudget()
        p = self.plan[me]
        if isinstance(p, dict):
            c = p.get(self.count[me])
        elif p[0] == "lines":
            _, seen, k, choices = p
            c = None
            h = seen.get(site)
            if h is not None and h < 12 * k:
                seen[site] = h + 1
                c = choices[h % len(choices)] if (h + site[1]) % k == 0 else None
        else:
            _, k, choices = p
            c = choices[(self.count[me] // k) % len(choices)] if self.count[me] % k == 0 else None
        if c is not None and len(self.alive) > 1:
            to = self.pick(me, c)
            if to is not None:
                self.switch(me, to)

    def _trace(self, me):
        def glob(frame, event, arg):
            code = frame.f_code
            if not code.co_filename.startswith(core.PKG) or code.co_name == "<module>":
                return None
            return loc

        def loc(frame, event, arg):
            if event == "line":
                self.statement(me, frame.f_code, frame.f_lineno)
            return loc
        return glob

    def statement(self, me, code, ln):
        self.tick(me, (code.co_filename, ln))
        a = self.aborts.get(me)
        if a and self.count[me] >= a[0] and ln not in faults._cleanup_lines(code.co_filename):
            del self.aborts[me]
            raise a[1]("injected")

    def _line(self, code, ln):
        """Statement event in hot mode: counted the first Monitor.HITS times per thread, like faults.Monitor does."""
        mon = sys.monitoring
        if not code.co_filename.startswith(core.PKG) or code.co_name == "<module>":
            return mon.DISABLE
        me = getattr(_local, "tid", None)
        if me is None:
            return
        h = self.hits.setdefault((code, ln), [0] * self.n)
        h[me] += 1
        if h[me] > faults.Monitor.HITS:
            return mon.DISABLE if all(h[t] > faults.Monitor.HITS for t in self.alive) else None
        self.statement(me, code, ln)

    def _body(self, me):
        _local.tid = me
        self.sem[me].acquire()
        if self.error is None:
            try:
                if not self.hot:
                    sys.settrace(self._trace(me))
                self.results[me] = ("ok", self.fns[me]())
            except core.StepBudget:
                self.results[me] = ("viol", "no-progress", "threads exceeded the bound of executed statements")
            except core.Violation as v:
                self.results[me] = ("viol", v.kind, v.detail)
            except SystemExit:
                sys.settrace(None)
                return
            except BaseException as e:  # noqa: BLE001
                sys.settrace(None)
                self.results[me] = ("exc", type(e).__name__, str(e)[:300])
            finally:
                sys.settrace(None)
        self.alive.discard(me)
        if not self.alive:
            self.main.release()
            return
        to = self.pick(me, 0)
        if to is None:
            self.error = core.Violation("deadlock", "remaining threads wait for locks")
            self.main.release()
            return
        self.blocked.pop(to, None)
        self.history.append((me, self.count[me], to))
        self.sem[to].release()

    def run(self, first=0):
        global _current
        _current = self
        if self.hot:
            mon, tool = sys.monitoring, faults.Monitor.TOOL
            mon.use_tool_id(tool, "verif")
            mon.register_callback(tool, mon.events.LINE, self._line)
            mon.set_events(tool, mon.events.LINE)
            mon.restart_events()
        try:
            for t in range(self.n):
                _thread.start_new_thread(self._body, (t,))
            self.sem[first].release()
            if not self.main.acquire(timeout=self.watchdog):
                raise core.HarnessError("scheduler watchdog: no thread made progress")
        finally:
            if self.hot:
                mon.set_events(tool, 0)
                mon.register_callback(tool, mon.events.LINE, None)
                mon.free_tool_id(tool)
        _current = None
        self.log.steps += self.total
        self.log.ev("schedule", core.digest(self.history))
        if isinstance(self.error, core.Violation):
            raise self.error
        return self.results


def gen_plan(rng, threads, est, dense=None):
    """Seeded preemption plan: mostly a few preemptions at uniformly chosen statements (priority-change style), sometimes
    dense round-robin with a random period."""
    plans = []
    if dense is None:
        dense = rng.random() < .35
    for _ in range(threads):
        if dense:
            plans.append(["every", rng.choice([1, 1, 2, 3, 5, 8, 13]), [rng.randrange(8) for _ in range(16)]])
        else:
            k = rng.choice([1, 2, 3, 3, 5, 8])
            hi = max(2, int(est))
            plans.append({str(rng.randint(1, rng.choice([10, 50, hi, hi, hi]))): rng.randrange(8) for _ in range(k)})
    return plans


def load_plan(plans):
    return [{int(k): v for k, v in p.items()} if isinstance(p, dict) else tuple(p) for p in plans]
