"""Real queues over real sockets with TLS, through a relay that records and cuts."""
from __future__ import annotations

import os
import queue
import select
import socket
import struct
import threading
import time

from . import boot, procs

CERTS = os.path.join(boot.VERIF, "mc", "certs")
# the system's own authorities: nothing that is used here, and quick to load
os.environ["SSL_CERT_FILE"] = os.path.join(CERTS, "expired.crt")
os.environ["SSL_CERT_DIR"] = os.path.join(CERTS, "none")
MARK = "MARK-OF-A-DEBUG-MESSAGE"


def cert(name):
    return name and os.path.join(CERTS, name)


def own_host():
    """A loopback address of this process, so that ports used again by others do not matter."""
    n = os.getpid()
    return f"127.{1 + (n >> 14) % 200}.{(n >> 7) & 127}.{1 + (n & 127)}"


def records(data: bytes):
    """What does not belong into a stream of TLS records, or None."""
    i = 0
    while i < len(data):
        h = data[i : i + 5]
        if h[0] not in (20, 21, 22, 23) or h[1:2] not in (b"\x03", b"") or (len(h) == 5 and int.from_bytes(h[3:5], "big") > 16384 + 256):
            return f"at {i}: {data[i:i + 40]!r}"
        i += 5 + int.from_bytes(h[3:5], "big")
    return None


class Relay:
    """Forwards one connection to a server; cuts it after so many bytes of one direction."""

    def __init__(self, family, host, target, cut=None):
        self.s = socket.socket(family, socket.SOCK_STREAM)
        self.s.bind((host, 0))
        self.s.listen()
        self.port = self.s.getsockname()[1]
        self.target, self.cut = target, cut
        self.bytes = {"c2s": b"", "s2c": b""}
        self.n = {"c2s": 0, "s2c": 0}
        self.done = threading.Event()
        self.stop = False
        self.hold: set = set()
        threading.Thread(target=self._run, daemon=True).start()

    def _run(self):
        conns: list = []
        try:
            c, _ = self.s.accept()
            conns.append(c)
            u = socket.create_connection(self.target)
            conns.append(u)
            self._forward(c, u)
        except OSError:
            pass
        for x in conns:
            if self.cut and self.cut[2] == "rst":
                x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            x.close()
        self.done.set()

    def _forward(self, c, u):
        way = {c: ("c2s", u), u: ("s2c", c)}
        for x in way:
            x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if self.cut and self.cut[1] == 0:
            return
        while way and not self.stop:
            for x in select.select([y for y in way if way[y][0] not in self.hold], [], [], 0.02 if self.hold else 0.2)[0]:
                name, other = way[x]
                d = x.recv(65536)
                if not d:
                    del way[x]
                    other.shutdown(socket.SHUT_WR)
                    continue
                last = False
                if self.cut and self.cut[0] == name:
                    room = self.cut[1] - self.n[name]
                    if len(d) >= room:
                        d, last = d[:room], True
                self.bytes[name] += d
                self.n[name] += len(d)
                other.sendall(d)
                if last:
                    return

    def close(self):
        self.stop = True
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()


class Server:
    """A listening queue as the playbook has it, started in the background."""

    def __init__(self, conf, address=None):
        M = procs.load()
        self.got: list = []
        self.closed = threading.Event()
        me = self

        class P(M.mp.MPProtocol):
            def on_msg_received(self, m):
                me.got.append(m)

            def connection_closed(self, e):
                me.closed.set()

        ctx = None
        if conf["cert"]:
            ctx = M.tls.create_server_tls_context(cert(conf["cert"]), keyfile=cert(conf.get("key")), password=conf.get("password"), ca_trust=cert(conf.get("ca")))
        self.token = M.sock.SocketCancellationToken()
        self.q = M.mp.ServerMPQueue(address or f"tcp://{own_host()}:0", P, ssl_context=ctx, cancel_token=self.token)
        self.address = self.q.address
        self.started = threading.Event()
        self.error = None
        self.t = threading.Thread(target=self._run, daemon=True)
        self.t.start()

    def _run(self):
        try:
            self.q.start()
        except BaseException as e:
            self.error = e
        self.started.set()

    def where(self):
        host, port = self.address[len("tcp://"):].rsplit(":", 1)
        return host.strip("[]"), int(port)

    def close(self):
        try:
            self.token.cancel()
            self.t.join(10)
            self.q.stop()
        except Exception:
            pass


class Client:
    """One attempt of a client; ok when the session is established."""

    def __init__(self, conf, address, timeout=20.0):
        M = procs.load()
        self.box: queue.Queue = queue.Queue()
        self.q = None
        me = self

        class P(M.mp.MPProtocol):
            def on_msg_received(self, m):
                me.box.put(m)

            def connection_closed(self, e):
                me.box.put(None)

        self.error = None
        old = os.environ.get("SSL_CERT_FILE")
        try:
            ctx = None
            if conf["tls"]:
                if conf.get("system"):
                    os.environ["SSL_CERT_FILE"] = cert(conf["system"])
                v = conf["verify"]
                ctx = M.tls.create_client_tls_context(v if v in ("verify", "ignore") else cert(v), certfile=cert(conf.get("cert")), keyfile=cert(conf.get("key")), password=conf.get("password"))
            self.q = M.mp.ClientMPQueue(address, P, ssl_context=ctx)
            self.q.start(timeout=timeout)
        except Exception as e:
            self.error = f"{type(e).__name__}: {e}"
        finally:
            if conf.get("system"):
                if old is None:
                    os.environ.pop("SSL_CERT_FILE", None)
                else:
                    os.environ["SSL_CERT_FILE"] = old

    def close(self):
        try:
            if self.q:
                self.q.stop()
        except Exception:
            pass


def talk(server, client):
    """A message in each direction; what does not arrive, or None."""
    M = procs.load()
    if not server.started.wait(20):
        return "the server does not know its client"
    if server.error:
        return f"the server failed: {server.error!r}"
    try:
        n = len(server.got)
        client.q.send(M.dap.OutputEvent(category="console", output=MARK))
        end = time.monotonic() + 20
        while len(server.got) == n and time.monotonic() < end:
            time.sleep(0.001)
        if len(server.got) == n:
            return "a message of the client does not arrive"
        if server.got[-1].output != MARK:
            return "a message of the client arrives changed"
        server.q.send(M.dap.OutputEvent(category="console", output=MARK))
        m = client.box.get(timeout=20)
        if m is None or m.output != MARK:
            return "a message of the server does not arrive"
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return None
