"""C21: stops and resume commands in every timing."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import h1, report  # noqa: E402
from mc.h1 import H1, line_of  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


RESUME = ("Continue", "Next", "StepIn", "StepOut")


def late(ev):
    """Stops the client saw before the answer to a resume command it had sent before them."""
    open_ = 0
    out = []
    for e in ev:
        if e[0] == "sent" and e[1] in RESUME:
            open_ += 1
        elif e[0] == "answer" and e[1] in ("continue", "next", "stepIn", "stepOut"):
            open_ -= 1
        elif e[0] == "stopped" and open_:
            out.append(e)
    return out


class Resume(H1):
    """Stops at each breakpoint; one resume command per stop."""

    bps = ("t1", "t2")
    how = "continue"
    filters = ()
    play1 = ()

    def script(self, c, cl):
        d = h1.M.dap
        cl.setup([line_of(b) for b in self.bps], self.filters)
        while True:
            e = cl.stop_event()
            how = self.how
            if how == "other":
                # the other host's thread is resumed first
                other = next((t for t in self.tids if t != e.thread_id), None)
                if other:
                    cl.request(d.ContinueRequest(thread_id=other, single_thread=True))
                    c.log("other resumed")
                    cl.request(d.ThreadsRequest())
                how = "single"
            c.log("resume", self.host_of(e.thread_id))

            def cont(single=False):
                r = cl.cont(e, single)
                if r.all_threads_continued is single:
                    c.log("told", f"continuing {'one thread' if single else 'all threads'} is answered with {r}")

            if how == "continue":
                cont()
            elif how == "single":
                cont(True)
            elif how == "next":
                cl.request(d.NextRequest(thread_id=e.thread_id))
            elif how == "in":
                cl.request(d.StepInRequest(thread_id=e.thread_id))
            elif how == "out":
                cl.request(d.StepOutRequest(thread_id=e.thread_id))
            elif how == "inspect":
                fr = cl.request(d.StackTraceRequest(thread_id=e.thread_id)).stack_frames
                cl.request(d.ScopesRequest(frame_id=fr[0].id))
                cont()
            elif how == "pipelined":
                # does not wait for the answer
                cl.send(d.ContinueRequest(thread_id=e.thread_id))
                cl.send(d.ThreadsRequest())

    def check(self, c, s):
        if s.failure:
            return []
        v = self.full(c)
        waiting = None
        for e in c.ev:
            if e[0] == "stopped":
                if waiting:
                    v.append(("twice", "a second stop while the first is waiting"))
                waiting = e[2]
            elif e[0] == "resume":
                waiting = None
            elif e[0] == "told":
                v.append(("answer", e[1]))
            elif e[0] in ("run", "begin", "result") and waiting:
                v.append(("moved", f"{e} while stopped on {waiting}"))
        for e in late(c.ev):
            v.append(("order", f"{e} was received before the answer to the command that led to it"))
        n = sum(1 for e in c.ev if e[0] == "stopped")
        if n != self.want():
            v.append(("stops", f"{n} stops instead of {self.want()}"))
        return v

    def want(self):
        per = len(self.bps) + len(self.filters)
        if self.how in ("next", "in"):
            return (3 if "t1" in self.bps else 2) * len(self.hosts) + len(self.filters) * len(self.hosts)
        if self.how == "out":
            return (1 + len(self.filters)) * len(self.hosts)
        return per * len(self.hosts)


def main():
    h1.load()
    q = report.tier() == "quick"
    ck = report.Check("C21", assumptions=["a driver that makes Ansible's calls into the plugins replaces Ansible's engine", "deviations beyond the stated bound are not explored"])
    scns = []
    for how in ("continue", "single", "next", "in", "out", "inspect", "pipelined", "other"):
        for hosts in (("h1",), ("h1", "h2")):
            if how == "other" and len(hosts) == 1:
                continue
            for exc in (False, True):
                if exc and how in ("next", "in"):
                    pass
                kw = dict(how=how, hosts=hosts)
                if exc:
                    kw.update(filters=("on_error",), play0=("t1", "t2:failed", "t3"))
                scns.append(Resume(f"{how}-{len(hosts)}-{'exc' if exc else 'bp'}", Bounds(1 if q else 2, timeout=0), **kw))
    for how in ("continue", "single", "next", "in", "out", "inspect"):
        for n in range(5, 14):
            scns.append(Resume(f"{how}-idle{n}", Bounds(0), how=how, hosts=("h1", "h2"), filters=("on_error",), play0=("t1", "t2:failed", "t3"), idle_at=n, horizon=200000))
    ck.explore("stop and resume", scns, cap_s=300 if q else 850, what="every timing of stops and resume commands")
    return ck.finish()


if __name__ == "__main__":
    report.main("C21", main)
