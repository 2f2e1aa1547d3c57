"""C14: replacing breakpoints and exception filters while the playbook runs, in every timing."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import h1, report  # noqa: E402
from mc.h1 import H1, line_of  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


class Replace(H1):
    """The client replaces what it set before while tasks run."""

    old = ("t1", "t3")
    new = ("t3", "t2")
    others = ()  # breakpoints in the included file
    old_f = ()
    new_f = ()
    play0 = ("t1", "t2", "t3", "t4")
    play1 = ()
    twice = False

    def script(self, c, cl):
        d = h1.M.dap
        cl.config()
        cl.event(d.InitializedEvent)
        cl.request(cl.bp_msg([line_of(b) for b in self.old]))
        if self.others:
            cl.request(cl.bp_msg([line_of(b) for b in self.others], "inc.yml"))
        cl.request(cl.exc_msg(self.old_f))
        # the rest is sent without waiting: it arrives while tasks run
        cl.send(d.ConfigurationDoneRequest())
        want = []
        if self.new is not None:
            c.log("asked", "bps")
            want.append((cl.send(cl.bp_msg([line_of(b) for b in self.new])), "bps"))
        if self.new_f is not None and (self.old_f or self.new_f):
            c.log("asked", "filters")
            want.append((cl.send(cl.exc_msg(self.new_f)), "filters"))
        while True:
            m = cl.next()
            if isinstance(m, d.Response):
                for n, what in want:
                    if m.request_seq == n:
                        c.log("replaced", what, "ok" if m.success else m.message)
            elif isinstance(m, d.StoppedEvent):
                cl.send(d.ContinueRequest(thread_id=m.thread_id))

    def check(self, c, s):
        if s.failure:
            return []
        v = self.full(c)
        for e in c.ev:
            if e[0] == "replaced" and e[2] != "ok":
                v.append(("failed", f"the replacement failed: {e[2]}"))
            if e[0] == "answer" and e[2] != "ok":
                v.append(("failed", f"a request failed: {e}"))
        idx = {k: i for i, k in enumerate(c.ev)}

        def when(*k):
            return idx.get(k, 10**9)

        for h, t in self.all_runs():
            for kind, before, after, at, stop in (
                ("bps", t in self.old + self.others, (t in self.new if self.new is not None else t in self.old) or t in self.others, "begin", "breakpoint"),
                ("filters", self.filt(t, self.old_f), self.filt(t, self.new_f), "result", "exception"),
            ):
                key = (at, h, t) if at == "begin" else ("result", h, t, self.kind(t))
                i = when(*key)
                end = min([j for j, e in enumerate(c.ev) if j > i and e[0] in ("begin", "play done")] or [10**9])
                if at == "begin":
                    end = when("run", h, t)
                n = sum(1 for j, e in enumerate(c.ev) if i < j < end and e[0] == "stopped" and e[1] == stop and e[2] == h)
                answered = when("replaced", kind, "ok")
                if answered < i:
                    ok = {after}
                elif when("asked", kind) > end:
                    ok = {before}
                else:
                    ok = {before, after}
                if (n == 1) not in ok or n > 1:
                    v.append((f"{kind}", f"{n} {stop} stops at {t} on {h}: it is {'in' if before else 'not in'} the old set and {'in' if after else 'not in'} the new one"))
        return v

    def kind(self, t):
        for x in self.play0 + self.play1:
            n, _, k = x.partition(":")
            if n == t:
                return k or "ok"

    def filt(self, t, fs):
        return {"failed": "on_error", "skipped": "on_skipped", "unreachable": "on_unreachable"}.get(self.kind(t)) in fs


def main():
    h1.load()
    q = report.tier() == "quick"
    ck = report.Check("C14", assumptions=["a driver that makes Ansible's calls into the plugins replaces Ansible's engine", "deviations beyond the stated bound are not explored"])
    B = Bounds(1, timeout=0) if q else Bounds(2, timeout=0)
    scns = []
    for i, (old, new) in enumerate([(("t1", "t3"), ("t3", "t2")), (("t2",), ("t2",)), (("t1", "t2"), ()), ((), ("t2", "t4")), (("t1", "t2", "t3", "t4"), ("t4", "t3", "t2", "t1"))]):
        for hosts in (("h1",), ("h1", "h2")):
            scns.append(Replace(f"bps{i}-{len(hosts)}", B, old=old, new=new, hosts=hosts))
    for hosts in (("h1",), ("h1", "h2")):
        scns.append(Replace(f"filters-{len(hosts)}", B, old=("t1",), new=None, old_f=("on_error", "on_skipped"), new_f=("on_unreachable", "on_error"), play0=("t1:skipped", "t2:failed", "t3:unreachable", "t4:failed"), hosts=hosts))
        scns.append(Replace(f"both-{len(hosts)}", B, old=("t1", "t3"), new=("t3",), old_f=("on_error",), new_f=("on_error", "on_skipped"), play0=("t1:skipped", "t2:failed", "t3:failed", "t4:skipped"), hosts=hosts))
    scns.append(Replace("include", B, old=("t1", "t2"), new=("t2", "t4"), others=("a1", "a3"), play0=("t1", "t2", "load", "a1", "a2", "a3", "t4")))
    ck.explore("replacing", scns, cap_s=300 if q else 850, what="a replacement sent while tasks run; every place it can be taken in")
    return ck.finish()


if __name__ == "__main__":
    report.main("C14", main)
