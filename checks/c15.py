"""C15: every sequence of continue/step commands over a family of playbooks, against the playbook's structure."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import fx, play, report  # noqa: E402

CMDS = ["over", "in", "out", "continue"]


def positions(log, exc=()):
    """The places a host can stop at: (host, path, line, chain, is include, play number, name, kind)."""
    from ansible import constants as C

    out = []
    n = -1
    for e, raw in zip(fx.canon(log), log):
        if e[0] == "play":
            n += 1
        elif e[0] in ("start", "meta") or (e[0] == "done" and exc):
            path, line = fx.split(e[2]) if e[2] else ("", 0)
            kind = (raw[6] in exc) if e[0] == "done" else None
            out.append((e[1], path, line, e[4], raw[5].action in C._ACTION_ALL_INCLUDES, n, e[3], kind))
    return out


class Oracle:
    """Says at which positions a run stops, given the commands at the stops so far."""

    def __init__(self, pos, bps):
        self.pos, self.bps = pos, bps
        self.mode = {}
        self.at = -1  # next position to look at

    def next_stop(self):
        """Index of the next position to stop at (None: runs to the end)."""
        while self.at + 1 < len(self.pos):
            self.at += 1
            host, path, line, chain, inc, playno, _, exc = self.pos[self.at]
            mode, origin = self.mode.get((playno, host), ("run", None))
            hit = (path, line) in self.bps
            stop = None
            if exc is not None:
                stop = exc
            elif not path:
                stop = False
            elif mode == "run":
                stop = hit
            elif mode == "in":
                stop = True
            elif mode == "over":
                stop = hit or origin[len(origin) - len(chain) :] == chain
            elif mode == "out":
                stop = bool(origin) and origin[0] not in chain
            if stop:
                self.mode[(playno, host)] = ("run", None)
                return self.at
        return None

    def command(self, cmd):
        host, path, line, chain, inc, playno, _, exc = self.pos[self.at]
        if cmd == "continue":
            m = ("run", None)
        elif cmd == "in" and inc:
            m = ("in", None)
        elif cmd in ("in", "over"):
            m = ("over", chain)
        else:
            m = ("out", chain)
        self.mode[(playno, host)] = m


def one(job, prefix):
    name, bps, late, depth = job["fx"], job["bps"], job["late"], job["depth"]
    base = fx.baseline(name, late)
    exc = job.get("exc", ())
    pos = positions(base.world.log, exc)
    kinds = ("start", "meta", "done") if exc else ("start", "meta")
    run = play.Run(prefix)
    bad = []
    stops = []
    want = Oracle(pos, {(f"{play.ROOT}/{p}", ln) for p, ln in bps})
    d = play.M.dap

    def describe(i):
        return "the end" if i is None else f"{'the failure or skip of ' if pos[i][7] is not None else ''}{pos[i][6]!r} on {pos[i][0]} ({pos[i][1][len(play.ROOT)+1:]}:{pos[i][2]})"

    def script(c):
        by = {}
        for p, ln in bps:
            by.setdefault(f"{play.ROOT}/{p}", []).append((ln,))
        c.configure(by, filters=[{"skipped": "on_skipped", "failed": "on_error"}[x] for x in exc])
        while True:
            e = c.wait_stop()
            got = None
            if e:
                got = sum(1 for x in play.W.log if x[0] in kinds)
                if e.reason == d.StoppedReason.EXCEPTION:
                    got -= 1
                got = min(got, len(pos) - 1)
            exp = want.next_stop()
            stops.append(got)
            if got != exp:
                cmds = [t[2].split("=")[0] for t in run.trail]
                cmds = [CMDS[t[0]] for t in run.trail]
                bad.append(("step", f"{name} with breakpoints {bps}: after stops {[describe(s) for s in stops[:-1]]} and commands {cmds} the next stop was {describe(got)} instead of {describe(exp)}"))
                c.q.stop()
                return
            if e is None:
                return
            ths = {t.id: t.name for t in c.request(d.ThreadsRequest()).threads}
            if ths.get(e.thread_id) != pos[got][0]:
                bad.append(("thread", f"{name}: stop at {describe(got)} reported on thread {ths.get(e.thread_id)!r}"))
            cmd = CMDS[run.choose(4, "cmd")] if len(run.trail) < depth else "over"
            want.command(cmd)
            if cmd == "continue":
                c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=True))
            else:
                c.request({"over": d.NextRequest, "in": d.StepInRequest, "out": d.StepOutRequest}[cmd](thread_id=e.thread_id))

    fx.debug(name, script, late=late, run=run)
    if not bad and not run.problems:
        ran, was = ([e[:4] for e in fx.canon(r.world.log) if e[0] != "vars"] for r in (run, base))
        if ran != was:
            a, b = ran, was
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            bad.append(("changed", f"{name} with breakpoints {bps}: stepping changed what ran: {a[i:i+2]} instead of {b[i:i+2]}"))
    return run, (job["fx"], tuple(stops)), bad


def main():
    quick = report.tier() == "quick"
    play.setup(fx.files())
    chk = report.Check("C15", assumptions=["tasks execute in the playbook process instead of forked workers"])
    jobs = []
    R = len(play.ROOT) + 1
    for name in fx.FX:
        for late in (False, True) if not quick and "," in fx.FX[name][0][:-1] else (False,):
            pos = positions(fx.baseline(name, late).world.log)
            places = []
            for p in pos:
                k = (p[1][R:], p[2])
                if p[1] and k not in places:
                    places.append(k)
            first = places[0]
            if name in ("skip", "always"):
                for k in places:
                    jobs.append({"fx": name, "bps": (k,), "late": late, "depth": 3 if quick else 5, "exc": ("skipped", "failed")})
            for k in places:
                jobs.append({"fx": name, "bps": (k,), "late": late, "depth": 2 if quick else 4})
                if k != first:
                    jobs.append({"fx": name, "bps": (first, k), "late": late, "depth": 2 if quick else 4})
            if not quick:
                jobs.append({"fx": name, "bps": (first,), "late": late, "depth": 7})
                jobs.append({"fx": name, "bps": tuple(places), "late": late, "depth": 6})
    jobs.sort(key=lambda j: -j["depth"])
    fx.run_jobs(chk, "steps", jobs, one, what="all command sequences up to a depth (then step over), from every first stop, with a second breakpoint at every task", cap_s=240 if quick else 800)
    return chk.finish()


if __name__ == "__main__":
    report.main("C15", main)
