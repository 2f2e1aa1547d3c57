"""Base class for scenarios run under the scheduler."""
from __future__ import annotations

import os
import traceback

from . import boot, explore, shims, vsched
from .vsched import Bounds, Sched


class Ctx:
    """What one execution observed, in order."""

    def __init__(self, sched: Sched) -> None:
        self.s = sched
        self.ev: list = []
        self.data: dict = {}

    def log(self, *what) -> None:
        self.ev.append(what)
        self.s.log("EVENT " + " ".join(map(str, what))[:400])

    def has(self, *what) -> bool:
        return any(e[: len(what)] == what for e in self.ev)

    def count(self, *what) -> int:
        return sum(1 for e in self.ev if e[: len(what)] == what)

    def wait(self, pred, desc: str = "harness", timeout=None) -> bool:
        return self.s.block(pred, desc, timeout)

    def point(self, desc: str) -> None:
        self.s.point(desc)


class SchedScenario(explore.Scenario):
    line = False
    horizon = 20000
    short_reads = False
    sndbuf = None
    prop = "C00"
    allow_uncaught = False

    def __init__(self, name: str, bounds: Bounds, **kw) -> None:
        self.name = name
        self.bounds = bounds
        self.__dict__.update(kw)

    def main(self, c: Ctx) -> None:
        raise NotImplementedError

    def check(self, c: Ctx, s: Sched) -> list:
        """[(key-suffix, message)]"""
        return []

    def outcome(self, c: Ctx, s: Sched):
        return tuple(c.ev)

    def cleanup(self, c: Ctx) -> None:
        pass

    def prepare(self, c: Ctx) -> None:
        pass

    def run(self, prefix, bounds, keep_trace=False):
        boot.scratch()
        shims.reset()
        shims.PLAN.short_reads = self.short_reads
        shims.PLAN.sndbuf = self.sndbuf
        s = Sched(prefix, bounds, self.horizon, self.line)
        s.keep_trace = keep_trace
        c = Ctx(s)
        self.prepare(c)
        s.run(lambda: self.main(c))
        viol = []
        if s.divergence is None:
            if s.failure:
                viol.append((s.failure.split(":")[0], s.failure))
            if not self.allow_uncaught:
                for name, e in s.uncaught:
                    tb = "".join(traceback.format_exception(None, e, e.__traceback__)[-4:])
                    viol.append((f"uncaught-{type(e).__name__}", f"uncaught exception in thread {name}: {tb}"))
            viol += self.check(c, s)
        out = self.outcome(c, s)
        self.cleanup(c)
        return explore.Result(
            s.points,
            [(f"{self.name}:{k}", m + "\n    events: " + " ; ".join(" ".join(map(str, e)) for e in c.ev)[-1500:]) for k, m in viol],
            (out, s.failure and s.failure.split(":")[0]),
            s.steps,
            s.trace,
            s.divergence,
        )


def tmp(name: str) -> str:
    return os.path.join(boot.scratch(), name)
