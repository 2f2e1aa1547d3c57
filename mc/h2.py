"""The debug adapter (DAServer, its codec and transport) under the controlled scheduler.

The adapter's own threads - the one that reads the client and the one that receives from the playbook - are preempted at
every synchronisation, read, write and source line within the bounds.  The client (at the other end of stdin and stdout)
and the playbook (at the other end of a real socket) are scripts that only give way when they wait.
"""
from __future__ import annotations

import io
import json
import os
import pathlib
import re
import shutil
import socket as rsocket
import subprocess
import sys
import tempfile
import time as rtime

from . import boot, endings, shims, vsched
from .scen import Ctx, SchedScenario, tmp
from .vsched import Sched

M = None
LOADED = False


def load() -> None:
    global M
    if M is not None:
        return
    M = boot.load_shimmed(plugins=False)
    import ansibug.dap._adapter as ad

    skip = ("from_json", "__init__")
    vsched.trace_code(boot.code_objects(M.adapter, ad, skip=skip))


def atomic():
    vt = Sched.cur()
    if vt is not None:
        vt.atomic = 1


class RawIn(io.RawIOBase):
    """The client's end of stdin."""

    def __init__(self, x) -> None:
        self.x = x
        self.data = bytearray()
        self.eof = False

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        s = vsched.CURRENT
        s.point("stdin.read")
        s.block(lambda: self.data or self.eof, "the client's next message")
        n = min(len(b), len(self.data), self.x.chunk or len(b))
        b[:n] = self.data[:n]
        del self.data[:n]
        if not n:
            self.x.eof_reads += 1
            if self.x.eof_reads > 50:
                s._fail("livelock: reads the end of the client's input over and over")
        return n


class RawOut:
    """What reaches the client."""

    def __init__(self, x) -> None:
        self.x = x
        self.closed = False

    def write(self, b):
        vsched.CURRENT.point("stdout.write")
        if self.x.out_closed:
            raise BrokenPipeError(32, "Broken pipe")
        self.x.arrived(bytes(b))
        return len(b)

    def flush(self):
        pass


class BufOut:
    """sys.stdout.buffer: whole writes are atomic, as of io.BufferedWriter."""

    def __init__(self, x) -> None:
        self.raw = RawOut(x)
        self.buf = bytearray()
        self.lock = shims.Lock()

    def write(self, b):
        with self.lock:
            self.buf += b
        return len(b)

    def flush(self):
        with self.lock:
            if self.buf:
                data = bytes(self.buf)
                self.buf.clear()
                self.raw.write(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)


class TextIO:
    def __init__(self, buffer) -> None:
        self.buffer = buffer

    def write(self, s):
        return self.buffer.write(s.encode())

    def flush(self):
        self.buffer.flush()


# what a message may hold: nothing of it may disturb the stream
ODD_TEXT = " \u00e9\u20ac\U0001f600\u2028\x00\x7f\r\n\r\nContent-Length: 5\r\n\r\n{}"


class Gone(Exception):
    pass


FAKE = """#!/bin/sh
# stands in for the Python interpreter of the launched command
if [ "$1" = "-c" ]; then exec {real} -S -E "$@"; fi
printf '%s\\n' "$PWD" "$#" "$@"
read code || code=143
exit $code
"""


class Command:
    """The launched command: the real script, with the interpreter it starts replaced by one that waits."""

    def __init__(self, x, req) -> None:
        self.script = req.args[0]
        self.ended = False
        env = {"PATH": "/usr/bin:/bin", "TMPDIR": tempfile.gettempdir()}
        env.update({k: v for k, v in (req.env or {}).items() if v is not None})
        self.p = subprocess.Popen(
            req.args, cwd=req.cwd or None, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True
        )
        x.commands.append(self)
        self.cwd = self.p.stdout.readline().rstrip("\n")
        n = int(self.p.stdout.readline() or 0)
        self.argv = [self.p.stdout.readline().rstrip("\n") for _ in range(n)]
        self.addr = self.argv[self.argv.index("--addr") + 1] if "--addr" in self.argv else ""

    def end(self, code=0):
        if not self.ended:
            self.ended = True
            try:
                self.p.communicate(f"{code}\n", timeout=20)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()

    def kill(self):
        """It and the interpreter are ended by a signal."""
        if not self.ended:
            self.ended = True
            os.killpg(self.p.pid, 15)
            self.p.communicate(timeout=20)


class Playbook:
    """The playbook's end of the connection."""

    def __init__(self, x, address=None) -> None:
        self.x = x
        self.c = x.c
        self.seen: list = []
        self.closed = False
        self.n = 0
        self.done = 0
        me = self

        class P(M.mp.MPProtocol):
            def on_msg_received(self, msg):
                atomic()
                me.receive(msg)

            def connection_closed(self, exp):
                atomic()
                me.closed = True
                me.c.log("playbook sees the connection closed")

        if address is None:
            self.q = M.mp.ServerMPQueue("uds://" + tmp("p"), P)
        else:
            self.q = M.mp.ClientMPQueue(address, P)

    def send(self, m):
        try:
            self.q.send(m)
            return True
        except Exception as e:
            self.c.log("playbook cannot send", type(e).__name__)
            return False

    def receive(self, m):
        d = M.dap
        self.seen.append(m)
        self.c.log("playbook got", type(m).__name__, *([m.terminate_debuggee] if isinstance(m, d.DisconnectRequest) else []))
        if isinstance(m, d.OutputEvent):
            self.send(d.InitializedEvent())
        elif isinstance(m, d.DisconnectRequest):
            pass
        elif isinstance(m, (d.LaunchRequest, d.AttachRequest, d.InitializeRequest)):
            self.send(d.ErrorResponse(command=m.command, request_seq=m.seq, message="not supported"))
        else:
            for _ in range(self.x.burst):
                self.n += 1
                self.send(d.OutputEvent(category="stdout", output=f"x{self.n}" + ODD_TEXT))
            how = self.x.answer.get(type(m).__name__.replace("Request", ""), "ok")
            if how == "ok":
                self.send(reply(m))
            elif how == "error":
                self.send(d.ErrorResponse(command=m.command, request_seq=m.seq, message="bad"))
            if isinstance(m, d.TerminateRequest):
                self.done += 1
        self.done += 0
        if len([k for k in self.seen if not isinstance(k, d.OutputEvent)]) >= self.x.requests:
            self.done += 1


def reply(m):
    d = M.dap
    name = type(m).__name__.replace("Request", "Response")
    cls = getattr(d, name)
    extra = {"result": "1"} if name == "EvaluateResponse" else {"value": "1"} if name == "SetVariableResponse" else {}
    return cls(request_seq=m.seq, **extra)


class Msg:
    """A message as the client sees it."""

    def __init__(self, data) -> None:
        self.__dict__.update(data)
        self.data = data

    def __repr__(self):
        return self.tag

    @property
    def tag(self):
        if self.type == "response":
            return f"{self.command}:{'ok' if self.success else 'error'}:{self.request_seq}"
        return self.data.get("event") or self.data.get("command")


class H2(SchedScenario):
    line = True
    horizon = 60000
    chunk = 0  # most bytes one read of stdin gives
    burst = 0  # events the playbook sends before each answer
    answer: dict = {}
    requests = 10**9  # the playbook ends after this many requests
    ending = "stop"
    before: int = 0  # unsolicited events after the connection
    fails = False  # the adapter may end with an error
    cats = ("stream", "answers", "ending", "launch", "exit")

    # ---- world
    def main(self, c: Ctx) -> None:
        self.c = c
        self.eof_reads = 0
        self.out_closed = False
        self.rest = b""
        self.msgs: list = []
        self.bad: list = []
        self.sent: list = []  # (seq, command, kind)
        self.commands: list = []
        self.play = None
        self.pos = 0
        self.dir = tmp("t")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.inp = RawIn(self)
        self.out = BufOut(self)
        self.saved = (sys.stdin, sys.stdout, sys.executable, tempfile.tempdir, sys.__stdin__, sys.__stdout__)
        fake = tmp("fakepython")
        if not os.path.exists(fake):
            with open(fake, "w") as f:
                f.write(FAKE.format(real=sys.executable))
            os.chmod(fake, 0o755)
        tempfile.tempdir = self.dir
        sys.executable = fake
        sys.stdin = sys.__stdin__ = TextIO(io.BufferedReader(self.inp))  # type: ignore[assignment]
        sys.stdout = sys.__stdout__ = TextIO(self.out)  # type: ignore[assignment]
        self.seq = 0
        self.cvt = c.s.spawn(self._client, "client", harness=True)
        try:
            M.adapter.start_dap(temp_dir=pathlib.Path(self.dir), **self.options(c))
            c.log("exit", "ok")
        except Exception as e:
            c.log("exit", type(e).__name__)
            c.data["exit"] = e
        c.data["left"] = [v.name for v in c.s.threads if v.state != "done" and not v.harness and v is not Sched.cur()]
        self.finished = True
        c.wait(lambda: self.cvt.state == "done", "client script")
        for k in self.commands:
            if k.ended:
                continue
            k.end()
        if self.play:
            try:
                self.play.q.stop()
            except Exception:
                pass
        c.data["files"] = sorted(os.listdir(self.dir))

    finished = False

    def options(self, c):
        return {}

    def prepare(self, c):
        self.finished = False

    def cleanup(self, c: Ctx) -> None:
        sys.stdin, sys.stdout, sys.executable, tempfile.tempdir, sys.__stdin__, sys.__stdout__ = self.saved
        for k in self.commands:
            if k.p.poll() is None:
                try:
                    os.killpg(k.p.pid, 9)
                except OSError:
                    pass
                k.p.communicate()
        if os.path.exists(tmp("p")):
            os.unlink(tmp("p"))
        shutil.rmtree(self.dir, ignore_errors=True)

    def arrived(self, b: bytes) -> None:
        self.rest += b
        while True:
            h, sep, body = self.rest.partition(b"\r\n\r\n")
            if not sep:
                return
            m = re.fullmatch(rb"(?:[A-Za-z-]+: [^\r\n]*\r\n)*Content-Length: (\d+)(?:\r\n[A-Za-z-]+: [^\r\n]*)*", h)
            if not m:
                self.bad.append(f"not a message header: {h[:80]!r}")
                self.rest = b""
                return
            n = int(m.group(1))
            if len(body) < n:
                return
            self.rest = body[n:]
            try:
                msg = Msg(json.loads(body[:n]))
            except ValueError:
                self.bad.append(f"not a message: {body[:n][:80]!r}")
                continue
            self.msgs.append(msg)
            self.c.log("client got", msg.tag)

    # ---- client script helpers
    def _client(self):
        atomic()
        try:
            self.script(self.c)
        except Gone:
            pass
        except Exception as e:
            self.c.log("client failed", type(e).__name__, str(e)[:200])
            self.c.data["client_error"] = e
        finally:
            self.inp.eof = True

    def script(self, c) -> None:
        raise NotImplementedError

    def write(self, b: bytes) -> None:
        self.inp.data += b

    def frame(self, data) -> bytes:
        t = json.dumps(data).encode()
        return b"Content-Length: %d\r\n\r\n" % len(t) + t

    def msg(self, command, args=None, kind=""):
        """The bytes of the next request."""
        self.seq += 1
        data = {"seq": self.seq, "type": "request", "command": command}
        if args is not None:
            data["arguments"] = args
        self.sent.append((self.seq, command, kind))
        self.c.log("client sent", command)
        return self.frame(data)

    def post(self, command, args=None, kind=""):
        self.write(self.msg(command, args, kind))
        return self.seq

    def respond(self, to, command, ok=True, body=None):
        self.seq += 1
        d = {"seq": self.seq, "type": "response", "command": command, "success": ok, "request_seq": to}
        d["body"] = body or {}
        self.write(self.frame(d))
        self.c.log("client answered", command, ok)

    def until(self, pred, what):
        self.c.wait(lambda: pred() or self.finished, f"client waiting for {what}")
        if not pred():
            raise Gone()

    def got(self, n):
        for m in self.msgs:
            if m.type == "response" and m.request_seq == n:
                return m
        return None

    def ask(self, command, args=None, kind=""):
        n = self.post(command, args, kind)
        self.until(lambda: self.got(n), f"the answer to {command}")
        return self.got(n)

    def event(self, name, count=1):
        self.until(lambda: sum(1 for m in self.msgs if m.tag == name) >= count, name)

    def initialize(self):
        return self.ask("initialize", {"adapterID": "ansibug"})

    def listen(self):
        """A playbook that waits for a client."""
        self.play = p = Playbook(self)

        def body():
            atomic()
            try:
                p.q.start()
            except Exception as e:
                self.c.log("playbook not connected", type(e).__name__)
                return
            self.life(p)

        self.c.s.spawn(body, "playbook", harness=True)
        return p.q.address

    def connect(self, addr):
        """The launched playbook connects back."""
        self.play = p = Playbook(self, addr)

        def body():
            atomic()
            try:
                p.q.start()
            except Exception as e:
                self.c.log("playbook not connected", type(e).__name__)
                self.over(p)
                return
            self.life(p)

        self.c.s.spawn(body, "playbook", harness=True)

    def life(self, p):
        self.c.log("playbook connected")
        for i in range(self.before):
            p.send(M.dap.OutputEvent(category="stdout", output=f"early{i}"))
        self.c.wait(lambda: p.done or p.closed or not self.requests, "playbook running")
        if not p.closed:
            for i in range(self.burst):
                p.send(M.dap.OutputEvent(category="stdout", output=f"late{i}" + ODD_TEXT))
            self.c.log("playbook ends", self.ending)
            raw = endings.raw(p.q)
            try:
                if self.ending == "torn":
                    rsocket.socket.send(raw, b"\x10\x00\x00\x00abc")
                elif self.ending == "garbage":
                    rsocket.socket.send(raw, b"\x03\x00\x00\x00abc")
                elif self.ending == "half":
                    rsocket.socket.send(raw, b"\x10\x00")
            except OSError:
                pass
        p.q.stop()
        self.over(p)

    def over(self, p):
        """The launched command ends with its playbook."""
        if self.commands:
            self.commands[-1].end()

    def attach(self, **kw):
        args = {"address": self.listen(), **kw}
        return args

    def run_in_terminal(self, idx=0):
        self.until(lambda: [m for m in self.msgs if m.tag == "runInTerminal"], "runInTerminal")
        return [m for m in self.msgs if m.tag == "runInTerminal"][idx]

    def start_command(self, r):
        a = r.arguments
        req = M.dap.RunInTerminalRequest(kind=a.get("kind"), title=a.get("title"), cwd=a.get("cwd"), args=a.get("args"), env=a.get("env"))
        return Command(self, req)

    # ---- oracle
    must: tuple = ()  # (command, ok?) pairs that the answers must match
    before_end = True

    def check(self, c, s):
        v = []
        if "client_error" in c.data:
            v.append(("client", f"the client failed with {c.data['client_error']!r}"))
        stream = [("stream", x) for x in self.bad]
        if self.rest:
            stream.append(("stream", f"the stream ends inside a message: {self.rest[:60]!r}"))
        nums = [m.data.get("seq") for m in self.msgs]
        if nums != list(range(1, len(nums) + 1)):
            stream.append(("stream-numbers", f"messages are numbered {nums}"))
        if "stream" in self.cats:
            v += stream
        if s.failure:
            if s.failure.startswith(("deadlock", "livelock")) and "ending" not in self.cats and "launch" not in self.cats:
                pass
            return v
        resp: dict = {}
        for m in self.msgs:
            if m.type == "response":
                resp.setdefault(m.request_seq, []).append(m)
        tags = [m.tag for m in self.msgs]
        if "answers" in self.cats:
            last = self.last_counted()
            for n, cmd, kind in self.sent:
                got = resp.pop(n, [])
                if self.out_closed and not got:
                    continue
                if n > last and not got:
                    continue
                if len(got) != 1:
                    v.append((f"answers-{'none' if not got else 'many'}", f"{len(got)} answers to {cmd} ({kind or n}): {tags}"))
                for m in got:
                    if m.command != cmd:
                        v.append(("answers-command", f"{cmd} answered as {m.command}"))
                    want = {"fail": False, "ok": True}.get(kind)
                    if want is not None and m.success != want:
                        v.append(("answers-success", f"{cmd} answered with success={m.success}: {tags} {m.data.get('message', '')[-200:]}"))
                    if not m.success and not m.data.get("message"):
                        v.append(("answers-message", f"{cmd} answered with an error that says nothing"))
            for n, got in resp.items():
                v.append(("answers-unasked", f"answers to nothing: {got}"))
        if "ending" in self.cats:
            n = tags.count("terminated")
            if n != 1 and not self.out_closed:
                v.append(("ending-terminated", f"{n} terminated events: {tags}"))
            if n:
                i = tags.index("terminated")
                after = [m for m in self.msgs[i + 1 :] if m.type != "response"]
                if after:
                    v.append(("ending-after", f"sent after the terminated event: {after}"))
                for j, m in enumerate(self.msgs):
                    if m.type == "response" and m.command == "disconnect":
                        asked = self.asked_at(m.request_seq)
                        if j > i and asked is not None and asked < self.arrival(i) and not any(e[0] == "playbook ends" for e in c.ev):
                            # asked before the end was told
                            v.append(("ending-order", f"disconnect answered after the terminated event: {tags}"))
                        if j < len(self.msgs) - 1 and [k for k in self.msgs[j + 1 :] if k.tag != "terminated" and k.type != "response"]:
                            v.append(("ending-after", f"sent after the answer to disconnect: {self.msgs[j + 1 :]}"))
            if c.data.get("left"):
                v.append(("ending-threads", f"threads left: {c.data['left']}"))
            if c.data.get("files"):
                v.append(("ending-files", f"files left: {c.data['files']}"))
            if not self.fails and "exit" in c.data and not self.out_closed:
                v.append(("ending-exit", f"the adapter ended with {c.data['exit']!r}"))
        if "launch" in self.cats:
            if c.data.get("files"):
                v.append(("launch-files", f"files left: {c.data['files']}"))
            if c.data.get("left"):
                v.append(("launch-threads", f"threads left: {c.data['left']}"))
        return v + self.more(c, s, tags)

    def more(self, c, s, tags):
        return []

    def asked_at(self, n):
        for k, cmd, kind in self.sent:
            if k == n:
                i = -1
                for e in range(len(self.c.ev)):
                    if self.c.ev[e][0] == "client sent":
                        i += 1
                        if i == n - 1 - self.responses_before(n):
                            return e
        return None

    def responses_before(self, n):
        asked = {k for k, _, _ in self.sent}
        return sum(1 for k in range(1, n) if k not in asked)

    def arrival(self, i):
        k = -1
        for e, ev in enumerate(self.c.ev):
            if ev[0] == "client got":
                k += 1
                if k == i:
                    return e
        return 10**9

    def last_counted(self):
        """Requests after this one come too late to be answered."""
        for n, cmd, kind in self.sent:
            if cmd == "disconnect" or kind == "end":
                return n
        return 10**9

    def outcome(self, c, s):
        return (tuple(m.tag for m in self.msgs), tuple(e for e in c.ev if e[0] in ("exit",) or e[0].startswith("playbook")))
