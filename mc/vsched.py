"""Deterministic cooperative scheduler for real Python threads.

Every thread started through the shimmed ``threading`` module (see shims.py) is a real OS thread, but only the
one holding the baton runs.  Control can move at *points*: before each synchronisation or socket operation, and
(when enabled) before each source line of selected code objects.  Each point where something else could happen
is a recorded choice; choice 0 is always "carry on" (or round robin when the running thread is blocked) and any
other choice is a *deviation*.  The explorer (explore.py) enumerates all choice sequences within deviation
bounds.  Time is virtual.
"""
from __future__ import annotations

import _thread
import sys


class Killed(BaseException):
    """Raised inside controlled threads to unwind them when an execution is over."""


class Divergence(Exception):
    """A replayed prefix did not meet the same choices again: the harness is not deterministic."""


class Bounds:
    """Deviation bounds: at most ``total`` deviations, of which at most ``per[kind]`` of each kind."""

    def __init__(self, total: int, **per: int) -> None:
        self.total = total
        self.per = per

    def allows(self, used: dict, kind: str) -> bool:
        return sum(used.values()) < self.total and used.get(kind, 0) < self.per.get(kind, self.total)

    def to_json(self) -> dict:
        return {"total": self.total, **self.per}


_tls = _thread._local()
CURRENT: "Sched | None" = None


class VT:
    """One controlled thread."""

    __slots__ = (
        "id name baton state pred deadline desc atomic daemon exc done_lock timed_out harness in_sched".split()
    )

    def __init__(self, id: int, name: str) -> None:
        self.id = id
        self.name = name
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.done_lock = _thread.allocate_lock()
        self.done_lock.acquire()
        self.state = "ready"
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.desc = "start"
        self.atomic = 0
        self.daemon = False
        self.harness = False
        self.in_sched = False
        self.exc = None


class Sched:
    def __init__(self, prefix=(), bounds: Bounds | None = None, horizon: int = 20000, line_points: bool = False) -> None:
        self.prefix = list(prefix)
        self.bounds = bounds or Bounds(0)
        self.horizon = horizon
        self.line_points = line_points
        self.threads: list[VT] = []
        self.points: list[tuple] = []  # (kind, n, chosen, label, used-before)
        self.used: dict[str, int] = {}
        self.steps = 0
        self.switches = 0
        self.clock = 1000.0
        self.killed = False
        self.failure: str | None = None
        self.divergence: str | None = None
        self.trace: list[str] = []
        self.keep_trace = False
        self.host_lock = _thread.allocate_lock()
        self.host_lock.acquire()
        self.uncaught: list[tuple[str, BaseException]] = []
        self.over = False

    # ---- helpers -------------------------------------------------------------------------------------------
    @staticmethod
    def cur() -> "VT | None":
        vt = getattr(_tls, "vt", None)
        return vt

    def log(self, text: str) -> None:
        if self.keep_trace:
            vt = self.cur()
            self.trace.append(f"{vt.name if vt else '-'}: {text}")

    def _choose(self, kind: str, labels: list[str]) -> int:
        """labels[0] is the default.  Only called when the bounds leave room for a deviation of this kind."""
        i = len(self.points)
        label = f"{kind}|{'|'.join(labels)}"
        idx = 0
        if i < len(self.prefix):
            idx, want = self.prefix[i]
            if want is not None and want != label:
                self.divergence = f"choice {i}: expected {want!r}, met {label!r}"
                self._fail("divergence")
            if idx >= len(labels):
                self.divergence = f"choice {i}: index {idx} of {label!r}"
                self._fail("divergence")
        self.points.append((kind, len(labels), idx, label, dict(self.used)))
        if idx:
            self.used[kind] = self.used.get(kind, 0) + 1
            if self.keep_trace:
                self.log(f"** deviation {kind}: {labels[idx]} instead of {labels[0]}")
        return idx

    def _fail(self, why: str) -> None:
        """Stops the execution from the running thread; does not return."""
        if self.failure is None:
            self.failure = why
        self.killed = True
        raise Killed()

    def _enabled(self, vt: VT) -> bool:
        if vt.state == "ready":
            return True
        if vt.state == "blocked":
            return bool(vt.pred())
        return False

    def _others(self, cur: VT | None) -> list[VT]:
        n = len(self.threads)
        start = (cur.id + 1) if cur is not None else 0
        out = []
        for k in range(n):
            vt = self.threads[(start + k) % n]
            if vt is cur or vt.state == "done":
                continue
            if self._enabled(vt):
                out.append(vt)
        return out

    def _timers(self, exclude: list[VT]) -> list[VT]:
        return sorted(
            (v for v in self.threads if v.state == "blocked" and v.deadline is not None and v not in exclude),
            key=lambda v: (v.deadline, v.id),
        )

    def _handoff(self, cur: VT, nxt: VT) -> None:
        self.switches += 1
        nxt.baton.release()
        cur.baton.acquire()
        if self.killed:
            raise Killed()

    # ---- points --------------------------------------------------------------------------------------------
    def point(self, desc: str, kind: str = "sync") -> None:
        vt = self.cur()
        if vt is None or vt.in_sched:
            return
        if self.killed:
            raise Killed()
        if vt.atomic:
            return
        vt.in_sched = True
        try:
            self.steps += 1
            if self.steps > self.horizon:
                self._fail(f"livelock: no end within {self.horizon} steps; {self.describe()}")
            if self.keep_trace and kind != "line":
                self.log(desc)
            if not self.bounds.allows(self.used, kind):
                return
            others = self._others(vt)
            if not others:
                return
            idx = self._choose(kind, [f"{vt.id}"] + [f"{o.id}" for o in others])
            if idx:
                vt.desc = desc
                self._handoff(vt, others[idx - 1])
        finally:
            vt.in_sched = False

    def env(self, labels: list[str], kind: str = "env") -> int:
        """An answer of the environment; 0 is the ordinary one."""
        vt = self.cur()
        if self.killed:
            raise Killed()
        if vt is None or len(labels) < 2 or not self.bounds.allows(self.used, kind):
            return 0
        return self._choose(kind, labels)

    def block(self, pred, desc: str, timeout: float | None = None) -> bool:
        """Waits until pred() holds.  Returns False when the (virtual) timeout ran out first."""
        vt = self.cur()
        if vt is None:
            if not pred():
                raise RuntimeError(f"uncontrolled thread would block: {desc}")
            return True
        if self.killed:
            raise Killed()
        if pred():
            return True
        if timeout is not None and timeout <= 0:
            return False
        vt.in_sched = True
        try:
            vt.desc = desc
            vt.pred = pred
            vt.timed_out = False
            vt.deadline = None if timeout is None else self.clock + timeout
            vt.state = "blocked"
            self.log(f"blocked on {desc}")
            self._dispatch(vt)
            vt.state = "ready"
            vt.pred = None
            vt.deadline = None
            return not vt.timed_out or bool(pred())
        finally:
            vt.state = "ready" if vt.state != "done" else vt.state
            vt.in_sched = False

    def _dispatch(self, vt: VT) -> None:
        """The running thread cannot go on: pick another one and wait to be picked again."""
        nxt = self._pick(vt)
        if nxt is vt:
            return
        if nxt is None:
            self._fail(f"deadlock: {self.describe()}")
        self._handoff(vt, nxt)

    def _pick(self, cur: VT) -> VT | None:
        self.steps += 1
        if self.steps > self.horizon:
            self._fail(f"livelock: no end within {self.horizon} steps; {self.describe()}")
        others = self._others(cur)
        if others:
            options = list(others)
            labels = [f"{o.id}" for o in others]
            kind = "sync"
            if self.bounds.allows(self.used, kind) and len(options) > 1:
                idx = self._choose(kind, labels)
                return options[idx]
            timers = self._timers(others)
            if timers and self.bounds.allows(self.used, "timeout"):
                idx = self._choose("timeout", [labels[0]] + [f"timer {t.id}" for t in timers])
                if idx:
                    t = timers[idx - 1]
                    self.clock = max(self.clock, t.deadline)
                    t.timed_out = True
                    return t
            return others[0]
        timers = self._timers([])
        if timers:
            t = timers[0]
            self.clock = max(self.clock, t.deadline)
            t.timed_out = True
            return t
        return None

    def describe(self) -> str:
        return "; ".join(
            f"{v.name}: {v.state if v.state != 'blocked' else 'waiting on ' + v.desc}"
            for v in self.threads
            if v.state != "done"
        )

    # ---- threads -------------------------------------------------------------------------------------------
    def spawn(self, fn, name: str, daemon: bool = False, harness: bool = False) -> VT:
        vt = VT(len(self.threads), name)
        vt.daemon = daemon
        vt.harness = harness
        self.threads.append(vt)

        def body() -> None:
            _tls.vt = vt
            vt.baton.acquire()
            try:
                if self.killed:
                    raise Killed()
                fn()
            except Killed:
                pass
            except BaseException as e:  # noqa: B902
                vt.exc = e
                self.uncaught.append((vt.name, e))
                self.log(f"uncaught {type(e).__name__}: {e}")
            vt.in_sched = True
            vt.state = "done"
            if self.killed:
                if not self.over:
                    self.over = True
                    self.host_lock.release()
                vt.done_lock.release()
                return
            try:
                live = [v for v in self.threads if v.state != "done" and not v.daemon]
                nxt = self._pick(vt) if live else None
            except Killed:
                nxt = None
                live = []
            if nxt is not None:
                self.switches += 1
                vt.done_lock.release()
                nxt.baton.release()
                return
            if live and self.failure is None:
                self.failure = f"deadlock: {self.describe()}"
            self.killed = True
            self.over = True
            self.host_lock.release()
            vt.done_lock.release()

        _thread.start_new_thread(body, ())
        return vt

    def run(self, fn, name: str = "main") -> None:
        """Runs fn as the first controlled thread until every non-daemon thread is done."""
        global CURRENT
        CURRENT = self
        vt = self.spawn(fn, name)
        vt.baton.release()
        self.host_lock.acquire()
        self.killed = True
        self.over = True
        # Unwind whatever is left (after a failure, or daemons).
        for v in list(self.threads):
            while True:
                if v.done_lock.acquire(False):
                    break
                try:
                    v.baton.release()
                except RuntimeError:
                    pass
                if v.done_lock.acquire(True, 5):
                    break
        CURRENT = None


# ---- line level points ------------------------------------------------------------------------------------------
_TOOL = 4
_installed = False


def _on_line(code, line):
    s = CURRENT
    if s is None or not s.line_points:
        return None
    vt = getattr(_tls, "vt", None)
    if vt is None or vt.in_sched or vt.atomic or s.killed:
        return None
    s.point(f"{code.co_name}:{line}", "line")
    return None


def _on_jump(code, src, dst):
    if dst < src:
        return _on_line(code, -dst)
    return None


def trace_code(codes) -> int:
    """Turns every line of these code objects (and the ones nested in them) into a point."""
    global _installed
    mon = sys.monitoring
    if not _installed:
        mon.use_tool_id(_TOOL, "vsched")
        mon.register_callback(_TOOL, mon.events.LINE, _on_line)
        mon.register_callback(_TOOL, mon.events.JUMP, _on_jump)
        _installed = True
    n = 0
    todo = list(codes)
    while todo:
        c = todo.pop()
        mon.set_local_events(_TOOL, c, mon.events.LINE | mon.events.JUMP)
        n += 1
        todo += [k for k in c.co_consts if hasattr(k, "co_code")]
    return n


class atomic:
    """No points inside (harness code only)."""

    def __enter__(self):
        vt = Sched.cur()
        self.vt = vt
        if vt:
            vt.atomic += 1

    def __exit__(self, *a):
        if self.vt:
            self.vt.atomic -= 1
