"""Real debug adapter and listening playbook endpoints as processes of their own."""
from __future__ import annotations

import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import boot

DRIVER = r'''
import json, os, sys, socket, tempfile, threading, time
a = json.loads(sys.argv[1])
os.chdir(a["cwd"])
if not a.get("dual", True):
    socket.has_dualstack_ipv6 = lambda: False
from ansibug._debuggee import AnsibleDebugger, DAProtocol
from ansibug._tls import create_server_tls_context
d = AnsibleDebugger()
got = []
orig = DAProtocol.on_msg_received
def on(self, msg):
    got.append(type(msg).__name__)
    return orig(self, msg)
DAProtocol.on_msg_received = on
def say(**k):
    print(json.dumps(k), flush=True)
try:
    ctx = create_server_tls_context(**a["tls"]) if a.get("tls") else None
    addr = d.start(a["addr"], "listen", ssl_context=ctx, playbook_file=a.get("playbook"))
    say(address=addr, pid=os.getpid())
except BaseException as e:
    say(error=type(e).__name__ + ": " + str(e))
    sys.exit(0)
for line in sys.stdin:
    if line.strip() == "shutdown":
        d.shutdown()
        say(done=True)
    elif line.strip() == "got":
        say(got=got)
    elif line.strip() == "configured":
        t = time.monotonic()
        d.wait_for_config_done(20)
        say(configured=time.monotonic() - t < 19)
os._exit(0)
'''


def env(tmp, **more):
    e = {k: v for k, v in os.environ.items() if not k.startswith("ANSIBUG_")}
    return dict(e, TMPDIR=tmp, PYTHONPATH=boot.SRC, **more)


class Listener:
    """A process with the real debugger object listening on an address."""

    def __init__(self, tmp, addr, cwd=None, **opts):
        self.tmp = tmp
        arg = json.dumps(dict(opts, addr=addr, cwd=cwd or tmp))
        self.p = subprocess.Popen([sys.executable, "-c", DRIVER, arg], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.devnull, "w"), env=env(tmp), text=True, cwd=tmp)
        self.start = self.read()
        self.address = self.start.get("address")
        self.error = self.start.get("error")

    def read(self):
        line = self.p.stdout.readline()
        return json.loads(line) if line else {"error": "the process died"}

    def ask(self, what):
        self.p.stdin.write(what + "\n")
        self.p.stdin.flush()
        return self.read()

    @property
    def pidfile(self):
        return f"{self.tmp}/ansibug-pid-{self.p.pid}"

    def info(self):
        try:
            with open(self.pidfile) as f:
                return json.load(f)
        except FileNotFoundError:
            return None
        except ValueError as e:
            return f"unreadable: {e}"

    def gone(self, timeout=15):
        """The process information goes away."""
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            if not os.path.exists(self.pidfile):
                return True
            time.sleep(0.01)
        return False

    def close(self):
        self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass


class Adapter:
    """A real debug adapter process and its client."""

    def __init__(self, tmp, cwd=None, **more):
        self.p = subprocess.Popen([sys.executable, "-m", "ansibug", "dap"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(tmp, **more), cwd=cwd or tmp)
        self.box: queue.Queue = queue.Queue()
        self.seq = 0
        self.events: list = []
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        f = self.p.stdout
        try:
            while True:
                n = None
                while (line := f.readline()) not in (b"\r\n", b""):
                    if line.lower().startswith(b"content-length:"):
                        n = int(line.split(b":")[1])
                if n is None:
                    break
                self.box.put(json.loads(f.read(n)))
        except (OSError, ValueError):
            pass
        self.box.put(None)

    def send(self, command, arguments=None):
        self.seq += 1
        b = json.dumps({"seq": self.seq, "type": "request", "command": command, "arguments": arguments or {}}).encode()
        try:
            self.p.stdin.write(b"Content-Length: %d\r\n\r\n%s" % (len(b), b))
            self.p.stdin.flush()
        except OSError:
            pass
        return self.seq

    def get(self, timeout=40):
        try:
            return self.box.get(timeout=timeout)
        except queue.Empty:
            raise TimeoutError("nothing from the debug adapter")

    def ask(self, command, arguments=None):
        n = self.send(command, arguments)
        while (m := self.get()) is not None:
            if m["type"] == "response" and m["request_seq"] == n:
                return m
            self.events.append(m)
        return {"success": False, "message": "the debug adapter ended", "ended": True}

    def attach(self, **arguments):
        """None when attached, the error otherwise."""
        self.ask("initialize", {"adapterID": "x"})
        n = self.send("attach", arguments)
        self.attach_seq = n
        while (m := self.get()) is not None:
            if m["type"] == "response" and m["request_seq"] == n:
                return None if m["success"] else (m.get("message") or json.dumps(m.get("body")) or "no message")
            if m["type"] == "event" and m["event"] == "initialized":
                return None
            self.events.append(m)
        return "the debug adapter ended"

    def close(self):
        self.p.kill()
        self.p.wait()
        for f in (self.p.stdin,):
            try:
                f.close()
            except OSError:
                pass


class Dir:
    """A scratch directory."""

    def __init__(self, suffix=""):
        self.root = tempfile.mkdtemp(prefix="e-", dir=boot.scratch())
        self.d = self.root + suffix if not suffix else os.path.join(self.root, suffix)
        os.makedirs(self.d, exist_ok=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)
