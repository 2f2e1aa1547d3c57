"""What clients do with the debug adapter, and what playbooks do to it."""
from __future__ import annotations

import os

from . import h2
from .h2 import H2, Gone
from .scen import tmp

SIMPLE = {
    "threads": None,
    "stackTrace": {"threadId": 2},
    "continue": {"threadId": 2},
    "evaluate": {"expression": "1"},
    "configurationDone": None,
    "setBreakpoints": {"source": {"path": "/a"}, "breakpoints": []},
    "setExceptionBreakpoints": {"filters": []},
    "variables": {"variablesReference": 1},
    "terminate": {},
    "next": {"threadId": 2},
    "stepIn": {"threadId": 2},
    "stepOut": {"threadId": 2},
    "scopes": {"frameId": 1},
    "setVariable": {"variablesReference": 1, "name": "a", "value": "1"},
}
# (command, arguments): requests the adapter cannot make sense of
ODD = {
    "unknown": ("pause", {"threadId": 1}),
    "noargs": ("stackTrace", None),
    "badargs": ("stackTrace", {"nope": 1}),
    "empty": ("setVariable", {}),
    "list": ("evaluate", []),
}


class Session(H2):
    """Attached: requests (each waiting for its answer or not), then the end."""

    ops: tuple = ("configurationDone", "threads", "evaluate")
    wait = True
    end = "disconnect"  # or eof, gone, playbook
    terminate = None
    pipelined = False  # everything in one write
    start = "attach"

    def enter(self, c):
        self.initialize()
        if self.start == "attach":
            self.ask("attach", self.attach(), "ok")
            self.event("initialized")
        elif self.start == "launch":
            self.launched()

    def launched(self):
        n = self.post("launch", {"playbook": "main.yml", "cwd": self.dir}, "ok")
        r = self.run_in_terminal()
        k = self.start_command(r)
        self.connect(k.addr)
        self.respond(r.seq, "runInTerminal")
        self.until(lambda: self.got(n), "the answer to launch")
        self.event("initialized")

    def one(self, op):
        if op in ODD:
            return (*ODD[op], "fail")
        kind = ""
        name = op[0].upper() + op[1:]
        if self.answer.get(name) == "error":
            kind = "fail"
        elif self.answer.get(name) == "never":
            kind = "fail"
        elif self.end != "playbook" and self.requests > 99 and self.wait and not self.pipelined and "terminate" not in self.ops:
            kind = "ok"
        if op == "launch":
            return (op, {"playbook": "x"}, "fail")
        if op == "attach":
            return (op, {"address": "tcp://a:1"}, "fail")
        return (op, SIMPLE[op], kind)

    def script(self, c):
        self.enter(c)
        if self.pipelined:
            buf = b"".join(self.msg(*self.one(o)) for o in self.ops)
            if self.end == "disconnect":
                buf += self.msg("disconnect", {} if self.terminate is None else {"terminateDebuggee": self.terminate}, "ok")
            self.write(buf)
            if self.end == "disconnect":
                return
        else:
            for o in self.ops:
                a = self.one(o)
                self.c.point("client")
                if self.wait and self.answer.get(o[0].upper() + o[1:]) != "never":
                    self.ask(*a)
                else:
                    self.post(*a)
        self.finish(c)

    def finish(self, c):
        c.point("client ends")
        if self.end == "disconnect":
            self.post("disconnect", {} if self.terminate is None else {"terminateDebuggee": self.terminate}, "ok")
            # the adapter is given up on only when it has ended
            c.wait(lambda: self.finished, "client waiting for the adapter to end")
        elif self.end == "eof":
            self.inp.eof = True
        elif self.end == "gone":
            self.out_closed = True
            self.inp.eof = True
        elif self.end in ("playbook", "playbook-late"):
            self.event("terminated")
            if self.end == "playbook-late":
                for o in ("threads", "evaluate", "unknown"):
                    self.ask(*(ODD[o] if o in ODD else (o, SIMPLE[o])), "fail")
            self.ask("disconnect", {}, "ok")
            c.wait(lambda: self.finished, "client waiting for the adapter to end")

    def more(self, c, s, tags):
        v = []
        if "ending" in self.cats and self.terminate is not None and self.play and self.end == "disconnect" and not self.requests < 99:
            if ("playbook got", "DisconnectRequest", self.terminate) not in c.ev:
                v.append(("ending-passed", f"the playbook was not told to disconnect with terminate={self.terminate}"))
        if "stream" in self.cats and self.play and self.end in ("playbook", "playbook-late") and not self.out_closed:
            got = [m.data["body"]["output"] for m in self.msgs if m.tag == "output"]
            want = [f"early{i}" for i in range(self.before)] + [f"x{i + 1}" + h2.ODD_TEXT for i in range(self.play.n)] + [f"late{i}" + h2.ODD_TEXT for i in range(self.burst)]
            if got != want:
                v.append(("stream-relay", f"the playbook's events {want} reached the client as {got}"))
        return v


class Overlap(Session):
    """The client goes on sending while the playbook sends and ends."""

    wait = False


class NoDebuggee(H2):
    """No playbook: requests are refused one by one, then the end."""

    ops: tuple = ("threads", "unknown", "evaluate")
    end = "disconnect"
    first = True

    def script(self, c):
        if self.first:
            self.initialize()
        for o in self.ops:
            self.ask(*(ODD[o] if o in ODD else (o, SIMPLE[o])), "fail")
        if self.end == "disconnect":
            self.post("disconnect", {}, "ok")
            c.wait(lambda: self.finished, "client waiting for the adapter to end")
        elif self.end == "gone":
            self.out_closed = True


class BadStart(H2):
    """Attach or launch fails at once: the session ends."""

    how = "attach-missing"
    fails = True
    second = ()

    def script(self, c):
        self.initialize()
        args = {
            "attach-refused": ("attach", lambda: {"address": "uds://" + tmp("nobody")}),
            "attach-nothing": ("attach", lambda: {}),
            "attach-pid": ("attach", lambda: {"processId": 2**22 + 7}),
            "attach-bad": ("attach", lambda: {"address": "what://x"}),
            "attach-closed": ("attach", lambda: {"address": self.listen_closed()}),
            "attach-tls": ("attach", lambda: {"address": "uds://" + tmp("nobody"), "useTls": True, "tlsVerification": tmp("missing.pem")}),
            "attach-mapping": ("attach", lambda: {"address": "uds://" + tmp("nobody"), "pathMappings": [{}]}),
            "attach-slow": ("attach", lambda: {"address": self.listen_slow(), "connectTimeout": 1}),
            "launch-nothing": ("launch", lambda: {}),
            "launch-console": ("launch", lambda: {"playbook": "x", "console": "y"}),
            "launch-args": ("launch", lambda: {"playbook": "x", "args": None}),
        }[self.how]
        self.ask(args[0], args[1](), "fail")
        if self.how.startswith("attach"):
            self.event("terminated")

    def listen_slow(self):
        """Connects to the backlog, never accepted."""
        import socket as rs

        s = self.slow = rs.socket(rs.AF_UNIX)
        s.bind(tmp("p"))
        s.listen()
        return "uds://" + tmp("p")

    def listen_closed(self):
        import socket as rs

        s = rs.socket(rs.AF_UNIX)
        s.bind(tmp("p"))
        s.listen()

        def body():
            h2.atomic()
            self.c.wait(lambda: h2_readable(s), "a connection")
            a, _ = s.accept()
            a.close()
            s.close()

        self.c.s.spawn(body, "closing playbook", harness=True)
        return "uds://" + tmp("p")


def h2_readable(s):
    import select

    return bool(select.select([s], [], [], 0)[0])


def pairs(words):
    """Options with their values, in any order."""
    return sorted(zip(words[::2], words[1::2])) if len(words) % 2 == 0 else words


class Launch(H2):
    """A launch and what the client and the launched command make of it.

    how: connects, ends-first, timeout, refused (the client could not run it), disconnect (before it connected), eof,
    connect-end (the playbook connects and ends at once), kill (the command is ended by a signal before it connected)
    """

    how = "connects"
    args: dict = {}
    early: tuple = ()  # requests before the client answers runInTerminal
    late: tuple = ()  # requests afterwards
    order = "start-respond"
    code = 1

    def script(self, c):
        self.initialize()
        args = {"playbook": "play book.yml", "args": ["-i", "a b,", "--x='q\"$HOME"], "cwd": self.dir, "env": {"FOO": "b a r", "GONE": None}, "connectTimeout": 30, **self.args}
        self.want = args
        n = self.n = self.post("launch", args)
        r = self.r = self.run_in_terminal()
        c.log("asked to run")
        for o in self.early:
            self.post(*(ODD[o] if o in ODD else (o, SIMPLE[o])), "fail")
        k = None
        if self.how == "refused":
            # the client could not run it
            self.seq += 1
            self.write(self.frame({"seq": self.seq, "type": "response", "command": "runInTerminal", "success": False, "request_seq": r.seq, "message": "no terminal"}))
            c.log("client answered runInTerminal False")
            self.until(lambda: self.got(n), "the answer to launch")
        elif self.how == "disconnect":
            self.post("disconnect", {}, "ok")
            c.wait(lambda: self.finished, "end")
            return
        elif self.how == "eof":
            return
        elif self.how == "timeout":
            self.respond(r.seq, "runInTerminal")
            self.until(lambda: self.got(n), "the answer to launch")
        else:
            if self.order == "respond-start":
                self.respond(r.seq, "runInTerminal")
                c.point("client")
            k = self.k = self.start_command(r)
            if self.how in ("connects", "connect-end", "respond-late"):
                self.connect(k.addr)
            if self.how in ("ends-first", "kill"):
                c.point("client")
                k.end(self.code) if self.how == "ends-first" else k.kill()
                c.log("command ended")
            if self.order == "start-respond":
                c.point("client")
                self.respond(r.seq, "runInTerminal")
            if self.how in ("ends-first", "kill"):
                self.event("terminated")
            self.until(lambda: self.got(n), "the answer to launch")
        c.log("launch answered", self.got(n).success)
        if self.how == "connects":
            for o in self.late:
                self.ask(*(ODD[o] if o in ODD else (o, SIMPLE[o])))
        if self.how == "connect-end":
            self.event("terminated")
        if self.got(n).success:
            self.post("disconnect", {}, "ok")
            c.wait(lambda: self.finished, "end")

    def more(self, c, s, tags):
        v = []
        if "launch" not in self.cats or not hasattr(self, "r"):
            return v
        a = self.r.arguments
        w = self.want
        kind = {"integratedTerminal": "integrated", "externalTerminal": "external"}[w.get("console", "integratedTerminal")]
        if a["args"][1:] != [w["playbook"], *w["args"]]:
            v.append(("launch-args", f"asked to run {a['args'][1:]}"))
        if a.get("cwd") != w["cwd"]:
            v.append(("launch-cwd", f"asked to run in {a.get('cwd')!r}"))
        if a.get("env") != w["env"]:
            v.append(("launch-env", f"asked to run with {a.get('env')!r}"))
        if a.get("kind") != kind:
            v.append(("launch-kind", f"asked to run in {a.get('kind')!r}"))
        if tags.count("runInTerminal") != 1:
            v.append(("launch-once", f"asked {tags.count('runInTerminal')} times"))
        got = self.got(self.n)
        ok = self.how in ("connects", "connect-end")
        connected = any(e == ("playbook connected",) for e in c.ev)
        if got is None:
            if self.how != "eof":
                v.append(("launch-unanswered", f"the launch was never answered: {tags}"))
        elif self.how == "connects" and not got.success:
            v.append(("launch-answer", f"the launch failed: {got.data.get('message', '')[-300:]}"))
        elif got.success and not ok:
            v.append(("launch-answer", f"the launch succeeded although nothing connected: {tags}"))
        if got is not None and not got.success and tags.count("terminated") != 1:
            v.append(("launch-end", f"the session went on after a failed launch: {tags}"))
        if got is not None and got.success:
            i = self.arrival(self.msgs.index(got))
            j = next((k for k, e in enumerate(c.ev) if e[0] == "playbook connected"), 10**9)
            if not connected:
                v.append(("launch-early", "the launch was answered before the playbook connected"))
            sent = [m for m in self.play.seen if type(m).__name__ == "OutputEvent"]
            if self.how == "connects" and len(sent) != 1:
                v.append(("launch-config", f"the playbook received {len(sent)} configurations"))
        k = getattr(self, "k", None)
        if k is not None:
            if k.argv[:3] != ["-m", "ansibug", "connect"] or k.argv[-1 - len(w["args"]) :] != [w["playbook"], *w["args"]]:
                v.append(("launch-command", f"the script runs {k.argv}"))
            mid = k.argv[3 : len(k.argv) - 1 - len(w["args"])]
            wantmid = ["--addr", k.addr]
            if w.get("logFile"):
                wantmid += ["--log-file", w["logFile"], "--log-level", w.get("logLevel", "info")]
            if pairs(mid) != pairs(wantmid):
                v.append(("launch-command", f"the script runs {k.argv}"))
            if os.path.realpath(k.cwd) != os.path.realpath(self.dir):
                v.append(("launch-cwd", f"the command runs in {k.cwd!r}"))
            if self.how == "ends-first" and k.p.returncode != self.code:
                v.append(("launch-status", f"the script ends with {k.p.returncode} instead of {self.code}"))
        return v
