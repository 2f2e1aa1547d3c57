"""C04 scenarios: cancellation of connection operations."""
from __future__ import annotations

import os
import socket as rsock
import ssl as rssl
import struct

from . import shims, transport as T
from .scen import Ctx, SchedScenario, tmp
from .transport import joined, proto, spawn
from .vsched import Bounds, Sched


def tcp_listener(backlog: int = 8):
    s = shims.VSocket(rsock.AF_INET, rsock.SOCK_STREAM)
    s.bind(("127.0.0.1", 0))
    s.listen(backlog)
    return s


def tcp_pair():
    lst = rsock.socket(rsock.AF_INET, rsock.SOCK_STREAM)
    lst.bind(("127.0.0.1", 0))
    lst.listen(1)
    a = rsock.socket(rsock.AF_INET, rsock.SOCK_STREAM)
    a.connect(lst.getsockname())
    b, _ = lst.accept()
    lst.close()
    wrap = lambda x: shims.VSocket(x.family, x.type, x.proto, fileno=x.detach())  # noqa: E731
    return wrap(a), wrap(b)


def rst(s) -> None:
    s.setsockopt(rsock.SOL_SOCKET, rsock.SO_LINGER, struct.pack("ii", 1, 0))
    rsock.socket.close(s)


class FakeTLS:
    """A context whose handshake is one byte each way over the scheduler's sockets."""

    def __init__(self, c: Ctx, fail: str = "") -> None:
        self.c = c
        self.fail = fail

    def wrap_socket(self, sock, server_side=False, server_hostname=None, do_handshake_on_connect=True, **kw):
        t = sock.gettimeout()
        s = TLSSock(sock.family, sock.type, sock.proto, fileno=sock.detach())
        s.settimeout(t)
        s.tls = self
        s.server_side = server_side
        if do_handshake_on_connect:
            try:
                s.do_handshake()
            except BaseException:
                s.close()
                raise
        return s


class TLSSock(shims.VSocket):
    tls = None
    server_side = False

    def do_handshake(self, *a):
        if self.server_side:
            d = self.recv(1)
            if d == b"":
                raise rssl.SSLEOFError(8, "EOF occurred in violation of protocol")
            if d != b"H":
                raise rssl.SSLError(1, "wrong version number")
            self.sendall(b"h")
        else:
            self.sendall(b"H")
            d = self.recv(1)
            if d == b"":
                raise rssl.SSLEOFError(8, "EOF occurred in violation of protocol")
            if d != b"h":
                raise rssl.SSLError(1, "wrong version number")

    def unwrap(self):
        return self


class Op(SchedScenario):
    """One operation, a canceller and a peer."""

    op = "recv"  # accept connect connect-stuck recv send accept2
    peer = "idle"  # idle act close reset
    family = "unix"
    cancel = True
    late = True
    timeout = 0

    def main(self, c: Ctx) -> None:
        tok = T.M.sock.SocketCancellationToken()
        cancelled = T.M.sock.CancelledError
        socks = []
        if self.op in ("recv", "send"):
            a, b = tcp_pair() if self.family == "tcp" else shims.socketpair(rsock.AF_UNIX)
            socks += [a, b]
            if self.op == "send":
                for x in (a, b):
                    x.setsockopt(rsock.SOL_SOCKET, rsock.SO_SNDBUF, 2048)
                    x.setsockopt(rsock.SOL_SOCKET, rsock.SO_RCVBUF, 2048)
        else:
            if self.family == "tcp":
                lst = tcp_listener(0 if self.op == "connect-stuck" else 8)
            else:
                lst = shims.VSocket(rsock.AF_UNIX, rsock.SOCK_STREAM)
                lst.bind(tmp("s"))
                lst.listen(8)
            socks.append(lst)
            fill = []
            if self.op == "connect-stuck":
                # fill the backlog so that the next connection attempt gets no answer
                for _ in range(2):
                    f = rsock.socket(rsock.AF_INET, rsock.SOCK_STREAM)
                    f.setblocking(False)
                    try:
                        f.connect(lst.getsockname())
                    except BlockingIOError:
                        pass
                    fill.append(f)
                socks += fill

        buf = bytearray(8)
        # a TCP window that fills up is drained by kernel timers, in real time
        size = 1000 if self.family == "tcp" and self.peer == "act" else 400000

        def act():
            if self.op == "recv":
                n = tok.recv_into(a, buf, 8)
                return f"ok {bytes(buf[:n])!r}"
            if self.op == "send":
                tok.sendall(a, b"z" * size)
                return "ok"
            if self.op == "accept":
                s, _ = tok.accept(lst, timeout=self.timeout)
                socks.append(s)
                return "ok"
            s = shims.VSocket(lst.family, rsock.SOCK_STREAM)
            socks.append(s)
            tok.connect(s, lst.getsockname(), timeout=self.timeout)
            return "ok"

        def run_op(tag):
            c.log("begin", tag)
            try:
                r = act()
            except cancelled:
                r = "cancelled"
            except TimeoutError:
                r = "timeout"
            except OSError:
                r = "oserror"
            except Exception as e:
                r = f"{type(e).__name__}: {e}"
            c.log("end", tag, r)
            if self.op == "send" and tag == "op":
                rsock.socket.close(a)

        def peer():
            if self.peer == "idle":
                return
            if self.op == "recv":
                if self.peer == "act":
                    try:
                        b.sendall(b"hi")
                    except OSError:
                        pass
                elif self.peer == "close":
                    b.close()
                else:
                    c.point("reset")
                    rst(b)
            elif self.op == "send":
                if self.peer == "close":
                    b.close()
                elif self.peer == "reset":
                    c.point("reset")
                    rst(b)
                else:
                    got = 0
                    while got < size:
                        d = b.recv(65536)
                        if not d:
                            break
                        got += len(d)
            elif self.op == "accept":
                s = shims.VSocket(lst.family, rsock.SOCK_STREAM)
                socks.append(s)
                try:
                    s.connect(lst.getsockname())
                except OSError:
                    return
                if self.peer == "close":
                    s.close()
                elif self.peer == "reset":
                    rst(s)

        def canceller():
            try:
                tok.cancel()
                c.log("cancel returned")
            except Exception as e:
                c.log("cancel raised", type(e).__name__)
            if self.late:
                run_op("late")

        ts = [spawn(c, "op", lambda: run_op("op")), spawn(c, "peer", peer)]
        if self.cancel:
            ts.append(spawn(c, "canceller", canceller))
        try:
            joined(c, ts)
        finally:
            for s in socks:
                rsock.socket.close(s)

    def check(self, c: Ctx, s: Sched):
        v = []
        if s.failure:
            return v
        end = {e[1]: (i, e[2]) for i, e in enumerate(c.ev) if e[0] == "end"}
        begin = {e[1]: i for i, e in enumerate(c.ev) if e[0] == "begin"}
        for e in c.ev:
            if e[0] in ("cancel raised", "raised"):
                v.append(("cancel-raised", f"{e}"))
        i, r = end["op"]
        ok = {"recv": "ok b'hi'"}.get(self.op, "ok")
        allowed = set()
        if self.peer == "act" or (self.op == "connect") or (self.op == "accept" and self.peer != "idle"):
            allowed.add(ok)
        if self.op == "recv" and self.peer == "close":
            allowed.add("ok b''")
        if self.peer == "reset" or (self.op == "send" and self.peer == "close"):
            allowed |= {"oserror"}
        if self.cancel:
            allowed.add("cancelled")
            done = [k for k, e in enumerate(c.ev) if e[0] == "cancel returned"]
            if done and begin["op"] > done[0]:
                allowed = {"cancelled"}
        if self.timeout and self.peer == "idle":
            allowed.add("timeout")
            if not self.cancel and self.op != "connect":
                allowed = {"timeout"}
        if self.timeout and any(p[0] == "timeout" and p[2] for p in s.points):
            allowed.add("timeout")
        if r not in allowed:
            v.append((f"outcome", f"{self.op} with peer {self.peer} ended {r!r}, allowed {sorted(allowed)}"))
        if "late" in end and end["late"][1] != "cancelled":
            v.append(("late", f"an operation started after the cancellation ended {end['late'][1]!r}"))
        return v

    def cleanup(self, c):
        if os.path.exists(tmp("s")):
            os.unlink(tmp("s"))


class StopQueue(SchedScenario):
    """A whole queue is stopped (or its token cancelled) while it is starting, connected, or being closed by its peer."""

    side = "server"
    peer = "idle"  # idle connect-silent connect chat vanish reset refuse
    via = "stop"  # stop cancel
    tls = False
    timeout = 0
    family = "unix"
    concurrent = True

    def main(self, c: Ctx) -> None:
        mp = T.M.mp
        token = T.M.sock.SocketCancellationToken()
        ctx = FakeTLS(c) if self.tls else None
        other = []
        if self.side == "server":
            addr = "uds://" + tmp("s") if self.family == "unix" else "tcp://:0"
            q = mp.ServerMPQueue(addr, proto(c, "q"), ssl_context=ctx, cancel_token=token)
            if self.family == "unix":
                target = tmp("s")
            else:
                target = ("127.0.0.1", int(q.address.rsplit(":", 1)[1]))
        else:
            if self.family == "unix":
                lst = shims.VSocket(rsock.AF_UNIX, rsock.SOCK_STREAM)
                lst.bind(tmp("s"))
                caddr = "uds://" + tmp("s")
            else:
                lst = shims.VSocket(rsock.AF_INET, rsock.SOCK_STREAM)
                lst.bind(("127.0.0.1", 0))
                caddr = f"tcp://127.0.0.1:{lst.getsockname()[1]}"
            if self.peer != "refuse":
                lst.listen(4)
            other.append(lst)
            q = mp.ClientMPQueue(caddr, proto(c, "q"), ssl_context=ctx, cancel_token=token)

        def starter():
            try:
                q.start(timeout=self.timeout)
                c.log("started")
                if self.peer == "chat":
                    q.send(T.msgs("one")[0])
            except T.M.sock.CancelledError:
                c.log("start cancelled")
            except TimeoutError:
                c.log("start timeout")
            except OSError as e:
                c.log("start oserror", type(e).__name__)
            if self.via == "cancel" or not self.concurrent:
                q.stop()
                c.log("stopped by starter")

        def peer():
            try:
                if self.side == "server":
                    if self.peer in ("idle", "refuse"):
                        return
                    s = shims.VSocket(rsock.AF_UNIX if self.family == "unix" else rsock.AF_INET, rsock.SOCK_STREAM)
                    other.append(s)
                    s.connect(target)
                    if self.tls and self.peer != "connect-silent":
                        s.sendall(b"H")
                        s.recv(1)
                    if self.peer != "connect-silent":
                        s.recv(1)
                else:
                    if self.peer in ("idle", "refuse"):
                        return
                    s, _ = lst.accept()
                    other.append(s)
                    if self.tls and self.peer != "connect-silent":
                        s.recv(1)
                        s.sendall(b"h")
                    if self.peer != "connect-silent":
                        s.sendall(b"\0")
                if self.peer == "vanish":
                    s.close()
                elif self.peer == "reset":
                    c.point("reset")
                    rst(s)
                elif self.peer == "chat":
                    s.recv(100)
            except OSError:
                c.log("peer failed")

        def stopper():
            if self.via == "stop":
                q.stop()
            else:
                token.cancel()
            c.log("stop returned")

        ts = [spawn(c, "starter", starter)]
        pt = spawn(c, "peer", peer)
        pt.daemon = True
        if self.concurrent:
            ts.append(spawn(c, "stopper", stopper))
        try:
            joined(c, ts)
            # nothing of the queue may be left running
            c.wait(lambda: all(v.state == "done" for v in s_threads(c, pt)), "threads of the queue ending")
            c.log("all ended")
        finally:
            for x in other:
                rsock.socket.close(x)
            rsock.socket.close(getattr(getattr(q, "_socket", None), "_sock", None) or rsock.socket())

    def check(self, c: Ctx, s: Sched):
        v = []
        if s.failure:
            return v
        for e in c.ev:
            if e[0] == "raised":
                v.append(("raised", f"{e}"))
        started = c.has("started")
        n = c.count("closed", "q")
        if n > 1 or (started and n != 1 and not self.concurrent):
            v.append(("closed", f"told of the end {n} times"))
        if self.concurrent and self.peer in ("idle", "connect-silent") and not self.timeout:
            # nothing but the cancellation can end the start (an unanswered connection is not a start)
            if started and not (self.side == "server" and not self.tls and self.peer == "connect-silent"):
                v.append(("started", "start succeeded though nobody answered"))
            if c.has("start oserror") and self.via == "cancel":
                v.append(("outcome", f"{[e for e in c.ev if e[0].startswith('start ')]} instead of a cancellation"))
        if not self.concurrent:
            if c.has("start cancelled"):
                v.append(("spurious", "cancelled though nobody cancelled"))
            if self.timeout and self.peer in ("idle", "connect-silent"):
                if not c.has("start timeout") and not (self.side == "server" and not self.tls and self.peer == "connect-silent"):
                    v.append(("timeout", f"start with a timeout nobody answers: {c.ev}"))
        return v

    def cleanup(self, c):
        if os.path.exists(tmp("s")):
            os.unlink(tmp("s"))


def s_threads(c: Ctx, *skip):
    return [v for v in c.s.threads if not v.harness and v.id != 0 and v not in skip]
