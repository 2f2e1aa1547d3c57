"""Real ansible-playbook processes with a client in the checking process (un-shimmed code)."""
from __future__ import annotations

import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import boot

M = None


def load():
    global M
    if M is None:
        M = boot.load_plain(False)
    return M


def signals():
    """The signals of the started process are as usual, whatever this process inherited."""
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP):
        signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])


class Client:
    def __init__(self, address=None, directory=None):
        M = load()
        self.box: queue.Queue = queue.Queue()
        self.seq = 0
        self.ended = False
        me = self

        class P(M.mp.MPProtocol):
            def on_msg_received(self, m):
                me.box.put(m)

            def connection_closed(self, e):
                me.box.put(None)

        if address:
            self.q = M.mp.ClientMPQueue(address, P)
        else:
            self.q = M.mp.ServerMPQueue(f"uds://{directory}/s", P)

    def get(self, timeout=40):
        if self.ended:
            return None
        m = self.box.get(timeout=timeout)
        self.ended = m is None
        return m

    def send(self, m):
        self.seq += 1
        m.seq = self.seq
        self.q.send(m)
        return self.seq

    def ask(self, m):
        n = self.send(m)
        while True:
            r = self.get()
            if r is None or (isinstance(r, M.dap.Response) and r.request_seq == n):
                return r

    def event(self, kind):
        while True:
            m = self.get()
            if m is None or isinstance(m, kind):
                return m

    def config(self):
        D = M.debuggee
        self.send(M.dap.OutputEvent(category=D.DebugConfiguration.OUTPUT_CATEGORY, output="", data=D.DebugConfiguration()))

    def breakpoints(self, path, lines):
        d = M.dap
        self.ask(d.SetBreakpointsRequest(source=d.Source(name="x", path=path), breakpoints=[d.SourceBreakpoint(line=x) for x in lines]))


class Proc:
    """One real playbook process in a scratch directory of its own."""

    def __init__(self, files, mode="connect", args=(), extra=(), inventory="localhost,", env=None):
        load()
        self.d = tempfile.mkdtemp(prefix="p-", dir=boot.scratch())
        for n, t in files.items():
            p = os.path.join(self.d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(t)
        self.mode = mode
        self.client = Client(directory=self.d) if mode == "connect" else None
        cmd = [sys.executable, "-m", "ansibug", mode]
        if mode == "connect":
            cmd += ["--addr", self.client.q.address]
        e = dict(os.environ, TMPDIR=self.d, ANSIBLE_HOME=self.d + "/home", PYTHONPATH=boot.SRC, **(env or {}))
        self.p = subprocess.Popen([*cmd, *(a.replace("{d}", self.d) for a in args), os.path.join(self.d, "main.yml"), "-i", inventory, "-c", "local", *extra], env=e, stdin=subprocess.DEVNULL, stdout=open(self.d + "/out", "w"), stderr=subprocess.STDOUT, cwd=self.d, start_new_session=True, preexec_fn=signals)

    @property
    def pidfile(self):
        return f"{self.d}/ansibug-pid-{self.p.pid}"

    def info(self, timeout=30):
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            try:
                return json.load(open(self.pidfile))
            except (OSError, ValueError):
                if self.p.poll() is not None:
                    break
                time.sleep(0.02)
        raise TimeoutError(f"no process information: {self.out()[-500:]}")

    def connect(self, addr=None):
        """The client ready for requests."""
        if self.mode == "listen":
            self.client = Client(addr or self.info()["address"])
        self.client.q.start(timeout=30)
        return self.client

    def wait(self, timeout=30):
        try:
            return self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None

    def interrupt(self):
        os.kill(self.p.pid, signal.SIGINT)

    def out(self):
        return open(self.d + "/out").read()

    def left(self):
        """Files of the debugger that are still there, by kind."""
        out = []
        for n in os.listdir(self.d):
            if n.startswith("ansibug"):
                out.append(n.split("-pid-")[0] if "-pid-" in n else n[:8])
        return out

    def close(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        self.p.wait()
        try:
            if self.client:
                self.client.q.stop()
        except Exception:
            pass
        shutil.rmtree(self.d, ignore_errors=True)
