"""Runs independent jobs in forked processes and returns their results in order."""
from __future__ import annotations

import concurrent.futures as cf
import multiprocessing as mp
import os
import traceback

from . import boot

_fn = None
_jobs: list = []


def _run(i):
    try:
        return ("ok", _fn(_jobs[i]))
    except Exception as e:
        return ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")


def _init():
    mp.util.Finalize(None, boot.drop_scratch, exitpriority=10)


def pmap(fn, jobs, workers: int | None = None):
    global _fn, _jobs
    _fn, _jobs = fn, list(jobs)
    out: dict = {}
    if len(_jobs) <= 1:
        out = {i: _run(i) for i in range(len(_jobs))}
    lost = 0
    while len(out) < len(_jobs):
        todo = [i for i in range(len(_jobs)) if i not in out]
        n = min(workers or len(os.sched_getaffinity(0)), len(todo))
        with cf.ProcessPoolExecutor(n, mp_context=mp.get_context("fork"), initializer=_init) as pool:
            fs = {pool.submit(_run, i): i for i in todo}
            try:
                for f in cf.as_completed(fs):
                    out[fs[f]] = f.result()
            except cf.process.BrokenProcessPool:
                # a worker was killed from outside (low memory): what is not done is done again
                lost += 1
                if lost > 3:
                    raise
    for i in sorted(out):
        if out[i][0] == "error":
            raise RuntimeError(out[i][1])
    return [out[i][1] for i in range(len(_jobs))]
