"""Deviation-bounded exhaustive exploration of choice sequences, spread over forked workers."""
from __future__ import annotations

import collections
import gc
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import sys
import time
import traceback

from . import boot


class Result:
    """One execution: the choices met, what was observed, and what was wrong with it."""

    __slots__ = ("points", "violations", "outcome", "steps", "trace", "divergence", "nontrivial")

    def __init__(self, points, violations, outcome, steps, trace=None, divergence=None, nontrivial=True) -> None:
        self.points = points  # [(kind, n, chosen, label, used-before)]
        self.violations = violations  # [(key, message)]
        self.outcome = outcome  # hashable summary
        self.steps = steps
        self.trace = trace
        self.divergence = divergence
        self.nontrivial = nontrivial


class Scenario:
    """Subclasses define run(prefix, bounds, keep_trace) -> Result and are identified by name."""

    name = "?"
    bounds = None

    def run(self, prefix, bounds, keep_trace=False) -> Result:
        raise NotImplementedError


def children(prefix, points, bounds):
    base = [(p[2], p[3]) for p in points]
    out = []
    for i in range(len(prefix), len(points)):
        kind, n, chosen, label, used = points[i]
        if not bounds.allows(used, kind):
            continue
        for alt in range(1, n):
            if alt != chosen:
                out.append(base[:i] + [(alt, label)])
    return out


class Stats:
    def __init__(self) -> None:
        self.executions = 0
        self.nodes = 0
        self.steps = 0
        self.outcomes: collections.Counter = collections.Counter()
        self.samples: dict = {}
        self.violations: list = []
        self.nontrivial = 0
        self.retries = 0
        self.diverged: list = []
        self.unreproduced = 0
        self.max_points = 0
        self.deviations: collections.Counter = collections.Counter()

    def merge(self, o: "Stats") -> None:
        self.executions += o.executions
        self.nodes += o.nodes
        self.steps += o.steps
        self.outcomes.update(o.outcomes)
        for k, v in o.samples.items():
            if len(self.samples) < 8:
                self.samples.setdefault(k, v)
        self.violations += o.violations
        self.nontrivial += o.nontrivial
        self.retries += o.retries
        self.diverged += o.diverged
        self.unreproduced += o.unreproduced
        self.max_points = max(self.max_points, o.max_points)
        self.deviations.update(o.deviations)


class HarnessError(Exception):
    pass


def _one(scn, idx, prefix, st: Stats, first: bool):
    # the kernel's own timing may rarely show through: one schedule gets a few tries
    for _ in range(4):
        r = scn.run(prefix, scn.bounds, False)
        if not r.divergence:
            break
        st.retries += 1
    if r.divergence:
        st.diverged.append(f"{scn.name}: {r.divergence}"[:300])
        if os.environ.get("MC_STRICT"):
            raise HarnessError(f"divergence in {scn.name}: {r.divergence}")
        return []
    if first and not r.violations:
        r2 = scn.run(prefix, scn.bounds, False)
        if not r2.divergence and (r2.outcome, [p[:4] for p in r2.points]) != (r.outcome, [p[:4] for p in r.points]):
            why = f"{r.outcome!r} / {r2.outcome!r} {len(r.points)}/{len(r2.points)}"
            for a, b in zip(r.points, r2.points):
                if a[:4] != b[:4]:
                    why = f"{a[:4]} / {b[:4]}"
                    break
            st.diverged.append(f"{scn.name}: replay differs: {why}"[:2000])
            if os.environ.get("MC_STRICT"):
                raise HarnessError(st.diverged[-1])
    if r.violations:
        # a violation counts only when its schedule fails again
        again = [(p[2], p[3]) for p in r.points]
        keys: set = set()
        for _ in range(2):
            r2 = scn.run(again, scn.bounds, False)
            if not r2.divergence:
                keys |= {k for k, _ in r2.violations}
        lost = [v for v in r.violations if v[0] not in keys]
        if lost:
            st.unreproduced += 1
            r.violations = [v for v in r.violations if v[0] in keys]
    st.executions += 1
    st.nodes += len(r.points) - len(prefix) + 1
    st.steps += r.steps
    st.max_points = max(st.max_points, len(r.points))
    st.nontrivial += 1 if r.nontrivial else 0
    key = (scn.name, hashlib.md5(repr(r.outcome).encode()).hexdigest()[:12])
    st.outcomes[key] += 1
    st.deviations[sum(1 for p in r.points if p[2])] += 1
    if key not in st.samples and len(st.samples) < 4:
        st.samples[key] = {
            "scenario": scn.name,
            "choices": [[i, p[0], p[3].split("|")[1 + p[2]]] for i, p in enumerate(r.points) if p[2]],
            "outcome": repr(r.outcome)[:600],
        }
    for k, msg in r.violations:
        st.violations.append(
            {
                "key": k,
                "message": msg,
                "scenario": scn.name,
                "index": idx,
                "choices": [[p[2], p[3]] for p in r.points],
                "deviations": sum(1 for p in r.points if p[2]),
            }
        )
    return children(prefix, r.points, scn.bounds)


def _worker(conn, scns, slice_s, cpu, stop=True):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        # hand-offs between the threads of one execution are much faster on one core
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[cpu % len(cpus)]})
    except OSError:
        pass
    seen = set()
    try:
        while True:
            tasks = conn.recv()
            if tasks is None:
                break
            st = Stats()
            stack = list(tasks)
            end = time.monotonic() + slice_s
            while stack and (time.monotonic() < end):
                idx, prefix = stack.pop()
                scn = scns[idx]
                kids = _one(scn, idx, prefix, st, idx not in seen)
                seen.add(idx)
                stack += [(idx, k) for k in reversed(kids)]
                if len(st.violations) > (20 if stop else 2000):
                    break
            conn.send(("ok", st, stack))
    except BaseException as e:  # noqa: B902
        try:
            conn.send(("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()}", []))
        except Exception:
            pass
    finally:
        boot.drop_scratch()
        os._exit(0)


def explore(scns, cap_s: float, workers: int = 8, stop_on: int = 1, known=frozenset(), progress=False):
    """Explores every scenario to its bounds.  Returns (stats, complete?)."""
    ctx = mp.get_context("fork")
    gc.collect()
    gc.freeze()
    todo = collections.deque((i, []) for i in range(len(scns)))
    total = Stats()
    procs = []
    for w in range(workers):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, scns, 0.4, w, stop_on < 10**9), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    idle = collections.deque(procs)
    busy: dict = {}
    start = time.monotonic()
    complete = True
    fresh = 0
    err = None
    try:
        while todo or busy:
            over = time.monotonic() - start > cap_s
            if over and todo:
                complete = False
                todo.clear()
            while todo and idle:
                p = idle.popleft()
                k = max(1, min(64, len(todo) // (2 * len(procs)) + 1))
                chunk = [todo.popleft() for _ in range(min(k, len(todo)))]
                p[1].send(chunk)
                busy[p[1]] = p
            if not busy:
                break
            for c in mpc.wait(list(busy), timeout=60):
                p = busy.pop(c)
                try:
                    kind, st, rest = c.recv()
                except EOFError:
                    raise HarnessError("a worker died")
                if kind == "error":
                    raise HarnessError(st)
                total.merge(st)
                todo.extend(rest)
                idle.append(p)
                fresh += sum(1 for v in st.violations if v["key"] not in known)
                if progress:
                    print(
                        f"  {total.executions} executions, {len(todo)} pending, {len(total.outcomes)} outcomes",
                        file=sys.stderr,
                    )
            if fresh >= stop_on:
                complete = False
                break
    finally:
        for p, c in procs:
            try:
                if c in busy:
                    p.terminate()
                else:
                    c.send(None)
            except OSError:
                pass
        for p, c in procs:
            p.join(5)
            if p.is_alive():
                p.kill()
                p.join()
    if len(total.diverged) > 3 + total.executions // 10:
        raise HarnessError(f"{len(total.diverged)} diverging schedules: {total.diverged[:3]}")
    return total, complete and not total.diverged
