"""Sessions that end in different ways at different moments, for the playbook side under the controlled scheduler."""
from __future__ import annotations

import os
import socket
import struct

from . import boot, h1, vsched
from .h1 import H1, line_of
from .scen import tmp

WHENS = ("connected", "config", "done", "running", "stop", "step", "exception", "play1", "last")
DETACH = ("disconnect", "disconnect0", "close", "torn")
END = ("terminate", "disconnect1")


class End(H1):
    """One ending of the session at one moment."""

    when = "stop"
    how = "disconnect"
    bps = ("t1", "t3", "u1")
    filters = ("on_error", "on_skipped", "on_unreachable")
    play0 = ("t1", "t2:failed", "t3")
    play1 = ("u1", "u2:skipped")
    serial = False  # a failed play does not prevent the next one

    def script(self, c, cl):
        d = h1.M.dap
        w = self.when
        if w == "connected":
            return self.end(c, cl)
        cl.config()
        cl.event(d.InitializedEvent)
        cl.request(cl.bp_msg([line_of(b) for b in self.bps]))
        cl.request(cl.exc_msg(self.filters))
        if w == "config":
            return self.end(c, cl)
        cl.send(d.ConfigurationDoneRequest())
        if w == "done":
            return self.end(c, cl)
        if w == "running":
            e = cl.stop_event()
            cl.send(d.ContinueRequest(thread_id=e.thread_id))
            return self.end(c, cl)
        exited = 0
        while True:
            m = cl.events.popleft() if cl.events else cl.next()
            if isinstance(m, d.StoppedEvent):
                if w == "stop" or (w == "exception" and m.reason == d.StoppedReason.EXCEPTION):
                    c.log("at", self.host_of(m.thread_id))
                    return self.end(c, cl)
                if w == "step":
                    cl.send(d.NextRequest(thread_id=m.thread_id))
                    return self.end(c, cl)
                cl.send(d.ContinueRequest(thread_id=m.thread_id))
            elif isinstance(m, d.ThreadEvent) and m.reason == "exited":
                exited += 1
                if exited == len(self.hosts) * (1 if w == "play1" else 2) and w in ("play1", "last"):
                    return self.end(c, cl)

    def end(self, c, cl):
        d = h1.M.dap
        how = self.how
        c.log("end", how)
        if how == "disconnect":
            cl.send(d.DisconnectRequest())
        elif how == "disconnect0":
            cl.send(d.DisconnectRequest(restart=False, terminate_debuggee=False, suspend_debuggee=False))
        elif how == "disconnect1":
            cl.send(d.DisconnectRequest(terminate_debuggee=True))
        elif how == "terminate":
            cl.send(d.TerminateRequest())
        elif how == "terminate-disconnect":
            cl.send(d.TerminateRequest())
            cl.send(d.DisconnectRequest(terminate_debuggee=True))
        elif how == "late":
            # requests may still be on their way when the client leaves
            cl.send(d.DisconnectRequest())
            cl.send(cl.bp_msg([line_of(b) for b in self.bps]))
            cl.send(cl.exc_msg(self.filters))
        elif how == "close":
            cl.q.stop()
        elif how == "torn":
            s = raw(cl.q)
            try:
                s.send(b"\x50\x00\x00")
            except OSError:
                pass
            cl.q.stop()
        else:
            raise AssertionError(how)
        c.log("ended")

    def checks(self, c):
        return []


def raw(q):
    """The operating system's socket of a queue."""
    todo, seen = [q], set()
    while todo:
        o = todo.pop(0)
        if isinstance(o, socket.socket):
            return o
        if hasattr(o, "fileno"):
            return socket.socket(fileno=os.dup(o.fileno()))
        if id(o) not in seen and len(seen) < 100:
            seen.add(id(o))
            todo += list(getattr(o, "__dict__", {}).values())
    raise AssertionError("no socket found")


class Detach(End):
    """C08"""

    def check(self, c, s):
        if s.failure:
            return []
        return self.full(c)


class Terminate(End):
    """C09"""

    how = "terminate"

    def prepare(self, c):
        # when the request has been taken in: its handler has returned
        P = h1.M.debuggee.DAProtocol
        if not hasattr(P, "_real"):
            P._real = P.on_msg_received

        def taken(self_, msg):
            try:
                return P._real(self_, msg)
            finally:
                if type(msg).__name__ in ("TerminateRequest", "DisconnectRequest"):
                    with vsched.atomic():
                        if not c.has("taken"):
                            c.log("taken")

        P.on_msg_received = taken

    def cleanup(self, c):
        P = h1.M.debuggee.DAProtocol
        if hasattr(P, "_real"):
            P.on_msg_received = P._real
            del P._real
        super().cleanup(c)

    def check(self, c, s):
        if s.failure:
            return []
        v = self.finished(c)
        taken = None
        begun = set()
        waiting = None
        for i, e in enumerate(c.ev):
            if e[0] == "taken":
                taken = i
            elif e[0] == "begin" and taken is None:
                begun.add(e[1:])
            elif e[0] == "at":
                waiting = e[1]
            elif e[0] == "run":
                if taken is not None and e[1:] not in begun:
                    v.append(("started", f"{e[2]} was started on {e[1]} after the request to terminate had been taken in"))
                if waiting == e[1] and self.when == "stop":
                    v.append(("resumed", f"{e[2]} was run on {e[1]}, which was stopped there when the client terminated the playbook"))
        runs = self.runs(c)
        rest = len(self.all_runs()) - len(runs)
        if runs != self.all_runs()[: len(runs)]:
            v.append(("order", f"ran {runs}"))
        if taken is not None and rest > 0 and not any(c.data["rcs"]):
            v.append(("rc", f"the playbook was cut short and ended with {c.data['rcs']}"))
        if not rest == 0 and self.when not in ("last",) and taken is None:
            v.append(("tasks", "tasks were left out though the request never arrived"))
        return v
