"""C03 and C04: the message transport between adapter and playbook, and its cancellation."""
from __future__ import annotations

import os
import socket as rsock

from . import boot, shims
from .scen import Ctx, SchedScenario, tmp
from .vsched import Bounds, Sched

M = None


def load() -> None:
    global M
    M = boot.load_shimmed(plugins=False)


def msgs(kind: str):
    d = M.dap
    small = [d.OutputEvent(category="a", output="1"), d.OutputEvent(category="b", output="2"), d.ThreadEvent("started", 7)]
    big = d.OutputEvent(category="big", output="x" * 9000)
    return {"small": small, "big": [small[0], big, small[1]], "one": small[:1], "two": small[:2]}[kind]


def ident(m) -> str:
    return f"{type(m).__name__}/{getattr(m, 'category', '')}/{getattr(m, 'output', '')[:2]}/{len(getattr(m, 'output', ''))}/{getattr(m, 'thread_id', '')}/{m.seq}"


def proto(c: Ctx, side: str):
    class P(M.mp.MPProtocol):
        def on_msg_received(self, msg):
            c.log("got", side, ident(msg))

        def connection_closed(self, exp):
            c.log("closed", side, "error" if exp else "clean")

    return P


def spawn(c: Ctx, name: str, fn):
    """A harness thread; exceptions are recorded as outcomes, not failures."""

    def body():
        try:
            fn()
        except Exception as e:
            c.log("raised", name, type(e).__name__)
        else:
            c.log("done", name)

    return c.s.spawn(body, name, harness=True)


def joined(c: Ctx, vts) -> None:
    c.wait(lambda: all(v.state == "done" for v in vts), "harness join")


class Flow(SchedScenario):
    """Both sides send short histories; one side then stops."""

    kind = "small"
    back = 0
    closer = "client"

    def main(self, c: Ctx) -> None:
        addr = "uds://" + tmp("s")
        srv = M.mp.ServerMPQueue(addr, proto(c, "server"))
        cli = M.mp.ClientMPQueue(srv.address, proto(c, "client"))
        out = msgs(self.kind)
        back = msgs("small")[: self.back]

        def server():
            srv.start()
            for m in back:
                srv.send(m)
                c.log("sent", "server", ident(m))
            if self.closer == "server":
                c.wait(lambda: c.count("got", "server") == len(out), "all received")
                srv.stop()
            else:
                c.wait(lambda: c.has("closed", "server"), "peer closing")
                srv.stop()

        def client():
            cli.start()
            for m in out:
                cli.send(m)
                c.log("sent", "client", ident(m))
            if self.closer == "client":
                c.wait(lambda: c.count("got", "client") == len(back), "all received")
                cli.stop()
            else:
                c.wait(lambda: c.has("closed", "client"), "peer closing")
                cli.stop()

        joined(c, [spawn(c, "srv", server), spawn(c, "cli", client)])

    def check(self, c: Ctx, s: Sched):
        v = []
        for e in c.ev:
            if e[0] == "raised":
                v.append(("raised", f"{e}"))
        if s.failure:
            return v
        want = {"server": [ident(m) for m in msgs(self.kind)], "client": [ident(m) for m in msgs("small")[: self.back]]}
        for side in want:
            got = [e[2] for e in c.ev if e[:2] == ("got", side)]
            if got != want[side]:
                v.append(("delivery", f"{side} received {got} instead of {want[side]}"))
            closed = [e[2] for e in c.ev if e[:2] == ("closed", side)]
            if closed != ["clean"]:
                v.append(("closed", f"{side} was told of the end {closed}"))
        return v

    def cleanup(self, c: Ctx) -> None:
        if os.path.exists(tmp("s")):
            os.unlink(tmp("s"))


class Race(SchedScenario):
    """The sender sends while the receiver stops: a prefix arrives, in order, and both end once."""

    kind = "small"
    after = 0

    def main(self, c: Ctx) -> None:
        addr = "uds://" + tmp("s")
        srv = M.mp.ServerMPQueue(addr, proto(c, "server"))
        cli = M.mp.ClientMPQueue(srv.address, proto(c, "client"))

        def server():
            srv.start()
            c.wait(lambda: c.count("got", "server") >= self.after, "some received")
            srv.stop()
            c.log("stopped", "server")

        def client():
            cli.start()
            try:
                for m in msgs(self.kind):
                    cli.send(m)
                    c.log("sent", "client", ident(m))
            except OSError:
                c.log("send failed", "client")
            cli.stop()
            c.log("stopped", "client")

        joined(c, [spawn(c, "srv", server), spawn(c, "cli", client)])

    def check(self, c: Ctx, s: Sched):
        v = []
        if s.failure:
            return v
        for e in c.ev:
            if e[0] == "raised":
                v.append(("raised", f"{e}"))
        got = [e[2] for e in c.ev if e[:2] == ("got", "server")]
        want = [ident(m) for m in msgs(self.kind)]
        if got != want[: len(got)]:
            v.append(("prefix", f"received {got}"))
        for side in ("server", "client"):
            n = c.count("closed", side)
            if n != 1:
                v.append(("closed", f"{side} was told of the end {n} times"))
            ends = [i for i, e in enumerate(c.ev) if e[:2] == ("stopped", side)]
            late = [e for e in c.ev[ends[0] :] if e[:2] == ("got", side)] if ends else []
            if late:
                v.append(("late", f"{side} received {late} after it had stopped"))
        return v

    cleanup = Flow.cleanup


class Crowd(SchedScenario):
    """Several clients want the same playbook: one gets it and is not disturbed, the others are told."""

    clients = 2
    family = "uds"
    back = 1
    closer = "client"

    def main(self, c: Ctx) -> None:
        srv = M.mp.ServerMPQueue("uds://" + tmp("s") if self.family == "uds" else "tcp://127.0.0.1:0", proto(c, "server"))
        back = msgs("small")[: self.back]
        d = M.dap

        def server():
            srv.start()
            for m in back:
                srv.send(m)
            if self.closer == "server":
                c.wait(lambda: c.count("got", "server") == 2, "all received")
            else:
                c.wait(lambda: c.has("closed", "server"), "peer closing")
            srv.stop()

        qs = [M.mp.ClientMPQueue(srv.address, proto(c, f"client{i}")) for i in range(self.clients)]

        def client(i):
            cli = qs[i]
            try:
                cli.start(timeout=5)
            except OSError as e:
                c.log("refused", i, type(e).__name__)
                return cli.stop()
            c.log("in", i)
            c.wait(lambda: c.count("refused") == self.clients - 1 or c.count("in") > 1, "the others being told")
            for k in range(2):
                cli.send(d.OutputEvent(category=f"of {i}", output=str(k)))
            if self.closer == "client":
                c.wait(lambda: c.count("got", f"client{i}") == len(back), "all received")
            else:
                c.wait(lambda: c.has("closed", f"client{i}"), "peer closing")
            cli.stop()

        ts = [spawn(c, "srv", server)] + [spawn(c, f"cli{i}", lambda i=i: client(i)) for i in range(self.clients)]
        joined(c, ts)

    def check(self, c: Ctx, s: Sched):
        v = []
        if s.failure:
            return v
        for e in c.ev:
            if e[0] == "raised":
                v.append(("raised", f"{e}"))
            if e[0] == "refused" and e[2] == "TimeoutError" and self.family == "uds":  # TCP tries again a second later
                v.append(("told", f"client {e[1]} is not told that it does not get the playbook"))
        ins = [e[1] for e in c.ev if e[0] == "in"]
        if len(ins) != 1:
            v.append(("one", f"{ins} got the playbook"))
            return v
        w = ins[0]
        got = [e[2] for e in c.ev if e[:2] == ("got", "server")]
        want = [f"OutputEvent/of {w}/{k}/1//{n}" for n, k in enumerate("01")]
        if [g.rsplit("/", 1)[0] for g in got] != [x.rsplit("/", 1)[0] for x in want]:
            v.append(("delivery", f"the playbook received {got} of {w}"))
        for i in range(self.clients):
            g = [e[2] for e in c.ev if e[:2] == ("got", f"client{i}")]
            if g != ([ident(m) for m in msgs("small")[: self.back]] if i == w else []):
                v.append(("delivery", f"client {i} received {g}, client {w} has the playbook"))
        for side in ("server", f"client{w}"):
            told = [e[2] for e in c.ev if e[:2] == ("closed", side)]
            if told != ["clean"]:
                v.append(("closed", f"{side} was told of the end {told}"))
        return v

    cleanup = Flow.cleanup


class Cut(SchedScenario):
    """A proxy forwards the conversation but closes or resets it after a given number of client bytes."""

    cut = 0
    how = "close"
    total = (0, ())  # length of the uncut stream and message boundaries, measured first

    def main(self, c: Ctx) -> None:
        addr = "uds://" + tmp("s")
        srv = M.mp.ServerMPQueue(addr, proto(c, "server"))
        lst = shims.VSocket(rsock.AF_UNIX, rsock.SOCK_STREAM)
        lst.bind(tmp("p"))
        lst.listen()
        cli = M.mp.ClientMPQueue("uds://" + tmp("p"), proto(c, "client"))
        state = {"bytes": 0, "marks": []}
        c.data["state"] = state
        want = msgs("two")

        def pump_back(a, b):
            try:
                while d := b.recv(4096):
                    a.sendall(d)
            except OSError:
                pass

        def proxy():
            a, _ = lst.accept()
            b = shims.VSocket(rsock.AF_UNIX, rsock.SOCK_STREAM)
            b.connect(tmp("s"))
            first = b.recv(4096)
            a.sendall(first)
            state["fwd"] = True
            left = self.cut
            if self.how != "measure":
                while left:
                    d = a.recv(min(left, 64))
                    if not d:
                        break
                    b.sendall(d)
                    left -= len(d)
                if self.how == "reset":
                    # leave something of the server's unread: closing then resets
                    c.wait(lambda: c.has("sent", "server"), "server data")
                elif self.how == "half":
                    b.shutdown(rsock.SHUT_WR)
                    c.wait(lambda: c.has("closed", "server"), "server saw it")
                b.close()
                a.close()
                c.log("cut")
            else:
                while d := a.recv(4096):
                    state["bytes"] += len(d)
                    b.sendall(d)
                b.close()
                a.close()

        def server():
            srv.start()
            if self.how == "reset":
                c.wait(lambda: state.get("fwd"), "handshake forwarded")
                srv.send(msgs("one")[0])
                c.log("sent", "server")
            c.wait(lambda: c.has("closed", "server"), "end of connection")
            srv.stop()

        def client():
            cli.start()
            try:
                for m in want:
                    cli.send(m)
                    if self.how == "measure":
                        c.wait(lambda: c.count("got", "server") > len(state["marks"]), "delivery")
                        state["marks"].append(state["bytes"])
            except OSError:
                c.log("send failed")
            if self.how != "measure":
                c.wait(lambda: c.has("cut") or c.has("closed", "client"), "cut")
            cli.stop()

        ts = [spawn(c, "srv", server), spawn(c, "cli", client), spawn(c, "proxy", proxy)]
        joined(c, ts)
        lst.close()

    def check(self, c: Ctx, s: Sched):
        v = []
        if s.failure or self.how == "measure":
            return v
        for e in c.ev:
            if e[0] == "raised":
                v.append(("raised", f"{e}"))
        length, marks = self.total
        want = [ident(m) for m in msgs("two")][: sum(1 for k in marks if k <= self.cut)]
        got = [e[2] for e in c.ev if e[:2] == ("got", "server")]
        if got != want:
            v.append(("delivery", f"cut after {self.cut} of {length} bytes ({marks}): received {got} instead of {want}"))
        closed = [e[2] for e in c.ev if e[:2] == ("closed", "server")]
        clean = self.cut in (0, *marks) and self.how != "reset"
        if closed != ["clean" if clean else "error"]:
            v.append(("closed", f"{self.how} after {self.cut} of {length} bytes (messages end at {marks}): told {closed}"))
        return v

    def outcome(self, c, s):
        if self.how == "measure":
            return (c.data["state"]["bytes"], tuple(c.data["state"]["marks"]))
        return super().outcome(c, s)

    def cleanup(self, c: Ctx) -> None:
        for n in ("s", "p"):
            if os.path.exists(tmp(n)):
                os.unlink(tmp(n))
