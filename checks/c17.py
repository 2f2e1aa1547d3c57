"""C17: threads and call stacks at every stop of a family of playbooks."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import fx, play, report, struct  # noqa: E402

CMDS = ["continue", "next", "stepIn", "stepOut"]
MARKS: dict = {}


def frames_of(task):
    """The stack while at this task: itself and the includes that led to it (name, path, line)."""
    from ansible.playbook.handler import Handler

    # the handlers of an included role run after that include is finished
    chain = [c for c in play.chain_of(task) if not isinstance(task, Handler) or isinstance(c, Handler)]
    return [(t.get_name(),) + fx.split(t.get_path()) for t in [task] + chain]


class View:
    """What the client has been told about threads."""

    def __init__(self):
        self.live: dict = {}
        self.ever: set = set()
        self.bad: list = []

    def event(self, e):
        if type(e).__name__ != "ThreadEvent":
            return
        if e.reason == "started":
            if e.thread_id in self.ever or e.thread_id == 1:
                self.bad.append(("reused", f"thread number {e.thread_id} was announced again"))
            self.ever.add(e.thread_id)
            self.live[e.thread_id] = None
        elif e.reason == "exited":
            if self.live.pop(e.thread_id, 0) == 0:
                self.bad.append(("exited", f"thread number {e.thread_id} was withdrawn but was not there"))
        else:
            self.bad.append(("event", f"thread event with the reason {e.reason!r}"))


def expected_threads(log):
    """Hosts which have started a task since the play began or the inventory was read again, in order."""
    out: list = []
    for i, e in enumerate(log):
        if e[0] == "play" or (e[0] == "end" and e[1] == "refresh_inventory"):
            out = []
        elif e[0] in ("start", "meta") and e[1] not in out:
            out.append(e[1])
    return out


def one(job, prefix):
    name, mode, late, depth = job["fx"], job["mode"], job.get("late", False), job["depth"]
    base = fx.baseline(name, late)
    run = play.Run(prefix)
    d = play.M.dap
    bad: list = []
    got: list = []
    view = View()
    run.on_event = view.event
    where = f"{name} ({mode}{', late results' if late else ''})"
    seen: dict = {}  # frame id -> task name

    def say(k, m):
        bad.append((k, f"{where}, stop {len(got)}: {m}"))

    def script(c):
        bps = {}
        if mode != "exceptions":
            for p, ms in MARKS.items():
                if p.startswith(f"{play.ROOT}/{name}/"):
                    bps[p] = [(ln, None) for ln, t in ms if t]
        c.configure(bps, filters=() if mode == "breakpoints" else ("on_error", "on_unreachable", "on_skipped"))
        while True:
            e = c.wait_stop()
            if e is None:
                if view.live:
                    say("left", f"the playbook ended without withdrawing the threads {sorted(view.live)}")
                return
            log = play.W.log
            if e.reason != d.StoppedReason.EXCEPTION:
                # at a task that is about to run: it is the next one in the run without the debugger
                n = sum(1 for x in log if x[0] in ("start", "meta"))
                log = base.world.log[: [i for i, x in enumerate(base.world.log) if x[0] in ("start", "meta")][n] + 1]
            ths = c.request(d.ThreadsRequest()).threads
            while c.events:  # what was on the way
                run.on_event(c.events.popleft())
            hosts = expected_threads(log)
            names = sorted(t.name for t in ths if t.id != 1)
            if [t.name for t in ths if t.id == 1] != ["main"]:
                say("main", f"the main thread is {[t.name for t in ths if t.id == 1]}")
            if names != sorted(hosts):
                say("threads", f"the threads are {names}, the hosts in this play are {hosts}")
            if {t.id for t in ths if t.id != 1} != set(view.live):
                say("announced", f"the threads are {sorted(t.id for t in ths)}, announced and not withdrawn are {sorted(view.live)}")
            host = {t.id: t.name for t in ths}.get(e.thread_id)
            at = next((x for x in reversed(log) if x[0] in ("start", "meta") and x[1] == host), None)
            st = c.request(d.StackTraceRequest(thread_id=e.thread_id))
            fr = [(f.name, f.source.path, f.line) for f in st.stack_frames]
            want = frames_of(at[5]) if at else None
            short = lambda x: [f"{n}@{p.split('/')[-1]}:{ln}" for n, p, ln in x or ()]  # noqa: E731
            got.append((host, tuple(short(fr))))
            if fr != want:
                say("stack", f"the stack of {host} is {short(fr)}, the task it is at came through {short(want)}")
            ids = [f.id for f in st.stack_frames]
            if len(set(ids)) != len(ids) or (st.total_frames is not None and st.total_frames != len(ids)):
                say("frame ids", f"frames {ids}, total {st.total_frames}")
            # frame numbers belong to one task only, and those of what is finished are gone
            now = dict(zip(ids, fr))
            for i, f in now.items():
                if i in seen and seen[i] != f:
                    say("frame reused", f"frame {i} was {seen[i][0]!r} and now is {f[0]!r}")
            others: set = set()
            for t in ths:
                if t.id not in (1, e.thread_id):
                    r = c.request(d.StackTraceRequest(thread_id=t.id))
                    if isinstance(r, d.ErrorResponse):
                        continue  # not stopped
                    others |= {f.id for f in r.stack_frames}
            for i in sorted(set(seen) - set(ids) - others)[-6:]:
                r = c.request(d.ScopesRequest(frame_id=i))
                if not isinstance(r, d.ErrorResponse):
                    say("stale", f"the finished task {seen[i][0]!r} (frame {i}) is still there")
            seen.update(now)
            k = len(got) - 1
            if run.choose(2, "inspect") if k < depth else k % 2:
                for f in st.stack_frames:
                    sc = c.request(d.ScopesRequest(frame_id=f.id))
                    if isinstance(sc, d.ErrorResponse):
                        say("scopes", f"the scopes of frame {f.name!r} fail: {sc.message}")
                        continue
                    c.request(d.VariablesRequest(variables_reference=sc.scopes[0].variables_reference))
            cmd = CMDS[run.choose(len(CMDS), "command")] if k < depth else "continue"
            if cmd == "continue":
                c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=True))
            elif cmd == "next":
                c.request(d.NextRequest(thread_id=e.thread_id))
            elif cmd == "stepIn":
                c.request(d.StepInRequest(thread_id=e.thread_id))
            else:
                c.request(d.StepOutRequest(thread_id=e.thread_id))

    fx.debug(name, script, late=late, run=run)
    bad += view.bad
    if not bad and not run.problems and run.rc != base.rc:
        bad.append(("rc", f"{where}: exit status {run.rc} instead of {base.rc}"))
    return run, (name, mode, tuple(got)), bad[:2]


def main():
    quick = report.tier() == "quick"
    fx.use_more()
    fs = fx.files()
    play.setup(fs)
    for k, t in fs.items():
        if "/meta/" not in k:
            MARKS[f"{play.ROOT}/{k}"] = struct.marks(t)
    chk = report.Check("C17", assumptions=["tasks execute in the playbook process instead of forked workers"])
    jobs = []
    for name, (inv, _) in fx.FX.items():
        lates = (False, True) if inv.count(",") > 1 else (False,)
        for late in lates:
            jobs.append({"fx": name, "mode": "everything", "depth": 2 if quick else 4, "late": late})
            jobs.append({"fx": name, "mode": "breakpoints", "depth": 0, "late": late})
            jobs.append({"fx": name, "mode": "exceptions", "depth": 1, "late": late})
    fx.run_jobs(chk, "stacks", jobs, one, what="breakpoints on every task and all exception filters over all playbooks; commands and inspection of the first stops enumerated", cap_s=300 if quick else 850)
    return chk.finish()


if __name__ == "__main__":
    report.main("C17", main)
