"""C13: every breakpoint placement (all lines, pairs, conditions) over a family of playbooks."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import fx, play, report, struct  # noqa: E402

# condition -> who it is true for in the fixture "cond" (position name, host); None: always
V = {"t1": 1, "t2": 2, "i1": 1, "a1": 1, "a2": 1}  # what the include passes comes before the task
CONDS = {
    None: lambda t, h: True,
    "": lambda t, h: True,
    "true": lambda t, h: True,
    "false": lambda t, h: False,
    "inventory_hostname == 'h1'": lambda t, h: h == "h1",
    "inventory_hostname == 'h2'": lambda t, h: h == "h2",
    "v == 1": lambda t, h: V.get(t) == 1,
    "v is defined": lambda t, h: t in V,
    "v > 1 and inventory_hostname == 'h2'": lambda t, h: V.get(t, 0) > 1 and h == "h2",
    "r is defined and r.got is mapping": lambda t, h: t != "t1",
    "r.nothing.at.all": lambda t, h: False,
    "missing": lambda t, h: False,
    "u == 5": lambda t, h: t == "a2",
    "u is not defined": lambda t, h: t != "a2",
    "(": lambda t, h: False,
    "v ==": lambda t, h: False,
    "1/0": lambda t, h: False,
    "v.split(2)": lambda t, h: False,
    "x y": lambda t, h: False,
}
PLAIN = {k: v for k, v in CONDS.items() if k in (None, "true", "false", "missing", "(", "inventory_hostname == 'h1'", "inventory_hostname == 'h2'")}


def positions(log):
    out = []
    for e in fx.canon(log):
        if e[0] in ("start", "meta"):
            path, line = fx.split(e[2]) if e[2] else ("", 0)
            out.append((e[1], path, line, e[3]))
    return out


MARKS: dict = {}


def one(job, prefix):
    name, bps, late = job["fx"], job["bps"], job.get("late", False)
    base = fx.baseline(name, late)
    pos = positions(base.world.log)
    run = play.Run(prefix)
    bad = []
    d = play.M.dap
    R = play.ROOT
    conds = CONDS if name == "cond" else PLAIN
    force = []  # (index of the request, path, line of the task, condition)
    for i, (f, ln, cond) in enumerate(bps):
        at = struct.covers(MARKS[f"{R}/{name}/{f}"], ln)
        force.append((i, f"{R}/{name}/{f}", at, cond))
    expected = []
    for n, (host, path, line, t) in enumerate(pos):
        why = {i for i, p, at, cond in force if p == path and at == line and at is not None and path and conds[cond](t, host)}
        if why:
            expected.append((n, why))
    got = []

    def say(n):
        return "the end" if n is None else f"{pos[n][3]!r} on {pos[n][0]} ({pos[n][1][len(R)+1:]}:{pos[n][2]})"

    def script(c):
        by = {}
        for i, (f, ln, cond) in enumerate(bps):
            by.setdefault(f"{R}/{name}/{f}", []).append((i, ln, cond))
        reply = c.configure({p: [(ln, cond) for _, ln, cond in v] for p, v in by.items()}, filters=())
        ids = {}
        for p, v in by.items():
            for (i, _, _), b in zip(v, reply[p]):
                ids[b.id] = i
        if len(ids) != len(bps):
            bad.append(("ids", f"{name}: the breakpoints {bps} got the ids {[[b.id for b in x] for x in reply.values()]}"))
        while True:
            e = c.wait_stop()
            n = None
            if e:
                n = min(sum(1 for x in play.W.log if x[0] in ("start", "meta")), len(pos) - 1)
            k = len(got)
            want = expected[k] if k < len(expected) else (None, set())
            got.append(n)
            where = f"{name} with breakpoints {bps}{' (late results)' if late else ''}"
            if n != want[0]:
                bad.append(("stop", f"{where}: after {[say(g) for g in got[:-1]]} the next stop was {say(n)} instead of {say(want[0])}"))
                c.q.stop()
                return
            if e is None:
                return
            if e.reason != d.StoppedReason.BREAKPOINT:
                bad.append(("reason", f"{where}: stop at {say(n)} was reported as {e.reason}"))
            hit = [ids.get(b) for b in e.hit_breakpoint_ids]
            if not hit or not set(hit) <= want[1]:
                bad.append(("hit", f"{where}: the stop at {say(n)} names breakpoints {hit}, caused by {want[1]}"))
            ths = {t.id: t.name for t in c.request(d.ThreadsRequest()).threads}
            if ths.get(e.thread_id) != pos[n][0]:
                bad.append(("thread", f"{where}: stop at {say(n)} reported on {ths.get(e.thread_id)!r}"))
            single = run.choose(2, "single") == 0 if len(run.trail) < 1 else True
            c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=single))

    fx.debug(name, script, late=late, run=run)
    if not bad and not run.problems and run.rc != base.rc:
        bad.append(("rc", f"{name} with breakpoints {bps}: exit status {run.rc} instead of {base.rc}"))
    return run, (name, tuple(got)), bad[:2]


def main():
    quick = report.tier() == "quick"
    fs = fx.files()
    play.setup(fs)
    for k, t in fs.items():
        if "/meta/" not in k:
            MARKS[f"{play.ROOT}/{k}"] = struct.marks(t)
    chk = report.Check("C13", assumptions=["tasks execute in the playbook process instead of forked workers"])
    jobs = []
    for name, (inv, ff) in fx.FX.items():
        tasks = [k for k in ff if "/meta/" not in k]
        lines = [(f, ln) for f in tasks for ln in range(1, ff[f].count("\n") + 3)]
        for f, ln in lines:
            jobs.append({"fx": name, "bps": ((f, ln, None),)})
        every = tuple((f, ln, None) for f in tasks for ln, t in struct.marks(ff[f]) if t)
        jobs.append({"fx": name, "bps": every})
        for p in every:
            jobs.append({"fx": name, "bps": tuple(x for x in every if x != p)})
            jobs.append({"fx": name, "bps": tuple(x if x != p else p[:2] + ("missing",) for x in every)})
        if not quick:
            some = [p for p in lines]
            for a, b in itertools.combinations(some, 2):
                jobs.append({"fx": name, "bps": (a + (None,), b + (None,))})
            if "," in inv[:-1]:
                for p in every:
                    for cnd in PLAIN:
                        jobs.append({"fx": name, "bps": (p[:2] + (cnd,),), "late": True})
                        jobs.append({"fx": name, "bps": (p[:2] + (cnd,),)})
    # conditions, alone and two on one task, on the same and on different lines of it
    _, ff = fx.FX["cond"]
    places = [(f, ln) for f in ff for ln, t in struct.marks(ff[f]) if t]
    for p in places:
        for c1 in CONDS:
            for late in (False, True):
                jobs.append({"fx": "cond", "bps": (p + (c1,),), "late": late})
    pairs = list(itertools.product(CONDS, repeat=2))
    for p in places if not quick else places[1:2] + places[-1:]:
        for c1, c2 in pairs:
            jobs.append({"fx": "cond", "bps": (p + (c1,), p + (c2,))})
            if not quick:
                jobs.append({"fx": "cond", "bps": (p + (c1,), (p[0], p[1] + 1, c2))})
    for c1, c2, c3 in itertools.product(PLAIN, repeat=3):
        if not quick:
            jobs.append({"fx": "flat2", "bps": (("main.yml", 8, c1), ("main.yml", 8, c2), ("main.yml", 9, c3))})
    seen = set()
    jobs = [j for j in jobs if not (repr(j) in seen or seen.add(repr(j)))]
    fx.run_jobs(chk, "placements", jobs, one, what="a breakpoint on every line of every file; all tasks but one; pairs; conditions alone and combined on one task", cap_s=300 if quick else 850)
    return chk.finish()


if __name__ == "__main__":
    report.main("C13", main)
