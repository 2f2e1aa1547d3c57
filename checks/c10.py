"""C10: nothing runs before configuration is done, and no wait for it is endless."""
import socket
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import h1, report, vsched  # noqa: E402
from mc.endings import raw  # noqa: E402
from mc.h1 import H1, line_of  # noqa: E402
from mc.scen import tmp  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


class Gate(H1):
    """The client configures, asking for other things on the way."""

    play0 = ("t1:skipped", "t2")
    play1 = ("u1",)
    extra = ()
    wait = True  # for each answer

    def script(self, c, cl):
        d = h1.M.dap
        cl.config()
        if self.wait:
            cl.event(d.InitializedEvent)
        go = cl.request if self.wait else cl.send
        go(cl.bp_msg([line_of("t1"), line_of("u1")]))
        for x in self.extra:
            c.log("asked", x)
            m = {
                "threads": lambda: d.ThreadsRequest(),
                "stack": lambda: d.StackTraceRequest(thread_id=2),
                "continue": lambda: d.ContinueRequest(thread_id=1),
                "evaluate": lambda: d.EvaluateRequest(expression="1", context="repl"),
                "variables": lambda: d.VariablesRequest(variables_reference=7),
                "next": lambda: d.NextRequest(thread_id=2),
            }[x]()
            go(m)
        go(cl.exc_msg(["on_skipped"]))
        if self.wait:
            go(cl.bp_msg([line_of("t2"), line_of("u1")]))
        c.log("configured")
        cl.send(d.ConfigurationDoneRequest())
        while True:
            m = cl.events.popleft() if cl.events else cl.next()
            if isinstance(m, d.StoppedEvent):
                cl.send(d.ContinueRequest(thread_id=m.thread_id))

    def check(self, c, s):
        if s.failure:
            return []
        v = self.full(c)
        at = {}
        for i, e in enumerate(c.ev):
            at.setdefault(e, i)
        if not self.nwait and at.get(("play",), 10**9) < at.get(("configured",), 10**9):
            v.append(("early", "a play was started before the configuration was done"))
        n = c.count("event", "InitializedEvent")
        if n != 1:
            v.append(("initialized", f"{n} initialized events"))
        if n and at[("event", "InitializedEvent")] < at.get(("sent", "OutputEvent"), 10**9):
            v.append(("initialized", "initialized before the path mappings were known"))
        stops = [e[1:] for e in c.ev if e[0] == "stopped"]
        if not self.nwait:
            bps = ("t2", "u1") if self.wait else ("t1", "u1")
            want = []
            for h, t in self.all_runs():
                want.append((t in bps, "breakpoint", h))
                want.append((t == "t1", "exception", h))
            # per task: breakpoint stops of all hosts come before their results
            for kind in ("breakpoint", "exception"):
                for h in self.hosts:
                    a = sum(1 for x in stops if x == (kind, h))
                    b = sum(1 for w in want if w[0] and w[1:] == (kind, h))
                    if a != b:
                        v.append(("stops", f"{a} {kind} stops on {h} instead of {b}: what was set before configuration was done is not in force"))
        for n, m in cl_sent(self).items():
            if type(m).__name__ in ("OutputEvent", "ContinueRequest"):
                continue
            a = sum(1 for r in self.client.got if isinstance(r, h1.M.dap.Response) and r.request_seq == n)
            if a != 1:
                v.append(("answers", f"{a} answers to {type(m).__name__}"))
        return v


def cl_sent(x):
    return x.client.sent


class Lost(H1):
    """The connection cannot be made or is lost before configuration is done."""

    at = "refused"

    def main(self, c):
        if self.at in ("refused", "missing"):
            self.dial = False
        if self.at == "refused":
            with vsched.atomic():
                # a socket file nobody listens on anymore
                s = socket.socket(socket.AF_UNIX)
                s.bind(tmp("c"))
                s.close()
        super().main(c)

    def prepare(self, c):
        self.srv = None
        if self.at in ("never", "unaccepted", "accepted", "ready"):
            self.dial = True

    def start_client(self, c, cl, address=None):
        if self.at in ("refused", "missing"):
            return
        if self.at in ("mid-config", "config", "initialized", "torn", "unread"):
            return super().start_client(c, cl, address)
        me = self

        def body():
            h1.atomic()
            s = raw(cl.q)
            try:
                if me.at == "unaccepted":
                    c.point("closing")
                elif me.at in ("accepted", "ready"):
                    c.wait(lambda: readable(s) or c.has("playbook done"), "client waiting for a connection")
                    if readable(s):
                        a, _ = s.accept()
                        try:
                            if me.at == "ready":
                                a.send(b"\x00")
                        except OSError:
                            pass
                        c.point("accepted")
                        a.close()
            finally:
                cl.q.stop()
                c.log("gone")

        self.cvt = c.s.spawn(body, "client", harness=True)

    def script(self, c, cl):
        d = h1.M.dap
        if self.at == "torn":
            raw(cl.q).send(b"\x10\x00\x00\x00abc")
        else:
            cl.config()
            if self.at == "initialized":
                cl.event(d.InitializedEvent)
            if self.at == "mid-config":
                cl.send(cl.bp_msg([line_of("t1")]))
                cl.send(cl.exc_msg(["on_error"]))
            if self.at == "unread":
                cl.event(d.InitializedEvent)
                cl.send(cl.bp_msg([line_of("t1")]))
        cl.q.stop()
        raise h1.Gone()

    def check(self, c, s):
        if s.failure:
            return []
        return self.full(c)


def readable(s):
    import select

    return bool(select.select([s], [], [], 0)[0])


class NoClient(H1):
    """Not told to wait: runs whether or not a client ever comes."""

    nwait = True
    dial = False

    def check(self, c, s):
        return [] if s.failure else self.full(c)


def main():
    h1.load()
    q = report.tier() == "quick"
    ck = report.Check("C10", assumptions=["a driver that makes Ansible's calls into the plugins replaces Ansible's engine", "deviations beyond the stated bound are not explored"])
    B = Bounds(1, timeout=0) if q else Bounds(2, timeout=0)
    scns = []
    for mode in ("connect", "listen"):
        for hosts in (("h1",), ("h1", "h2")):
            for wait in (True, False):
                scns.append(Gate(f"plain-{wait}-{len(hosts)}-{mode}", B, wait=wait, hosts=hosts, mode=mode))
        for x in ("threads", "stack", "continue", "evaluate", "variables", "next"):
            for wait in (True, False):
                if q and mode == "listen" and wait:
                    continue
                scns.append(Gate(f"{x}-{wait}-{mode}", Bounds(1, timeout=0), wait=wait, extra=(x,), mode=mode))
        for n in range(6):
            scns.append(Gate(f"idle-{n}-{mode}", Bounds(0), idle_at=n, mode=mode, horizon=200000))
        scns.append(NoClient(f"nobody-{mode}", B, mode=mode))
        for at in ("mid-config", "config", "initialized", "torn", "unread"):
            scns.append(Lost(f"lost-{at}-{mode}", B, at=at, mode=mode))
    for at in ("refused", "missing", "unaccepted", "accepted", "ready"):
        scns.append(Lost(f"lost-{at}", B, at=at))
        scns.append(Lost(f"lost-{at}-nowait", B, at=at, nwait=True))
    ck.explore("gate", scns, cap_s=300 if q else 850, what="configuration requests and lost connections in every timing")
    return ck.finish()


if __name__ == "__main__":
    report.main("C10", main)
