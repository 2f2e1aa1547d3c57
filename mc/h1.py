"""The playbook side (callback plugin, strategy plugin, debugger object, transport) under the controlled scheduler.

Ansible's own engine is replaced by a small driver that makes the calls Ansible makes, in the order it makes them; the client
is a script at the other end of a real connection.  The driver's thread, the debugger's send and receive threads are
preempted at every synchronisation operation and every source line within the bounds; the client only gives way when it waits.
"""
from __future__ import annotations

import collections
import json
import os
import sys
import types

from . import boot, shims, vsched
from .scen import Ctx, SchedScenario, tmp
from .vsched import Sched

M = None
FAILED_BREAK = 4
IDLE = 4000.0  # seconds


class Host:
    def __init__(self, name):
        self.name = name
        self.vars = {}

    def get_name(self):
        return self.name

    def __repr__(self):
        return self.name


PB = {
    "main.yml": """- hosts: all
  tasks:
  - name: t1
    debug: {msg: a}
  - name: t2
    debug: {msg: a}
  - name: t3
    debug: {msg: a}
  - name: i1
    include_tasks: inc.yml
  - name: t4
    debug: {msg: a}
- hosts: all
  tasks:
  - name: u1
    debug: {msg: a}
  - name: u2
    debug: {msg: a}
""",
    "inc.yml": """# included
- name: a1
  debug: {msg: a}
- name: blk
  block:
  - name: a2
    debug: {msg: a}

- name: a3
  debug: {msg: a}
""",
    "inc2.yml": """

- name: b1
  block:
  - block:
    - name: c1
      debug: {msg: a}

    - name: c2
      debug:
        msg: a
    rescue:
    - name: c3
      debug: {msg: a}
  always:
  - name: c4
    debug: {msg: a}
- debug: {msg: a}
  name: c5
""",
    "inc3.yml": """- name: d1
  debug: {msg: a}
""",
}
ROOT = ""
PLAYS: list = []
INC_DATA: dict = {}
VM = DL = None
TASKS: dict = {}


def load(line=True) -> None:
    """Imports the code under test with the stand-ins and parses the fixture once."""
    global M, ROOT, PLAYS
    if M is not None:
        return
    M = boot.load_shimmed()
    ROOT = os.path.join(boot.scratch(), "h1")
    os.makedirs(ROOT, exist_ok=True)
    for n, t in PB.items():
        with open(os.path.join(ROOT, n), "w") as f:
            f.write(t)
    from ansible.parsing.dataloader import DataLoader
    from ansible.playbook import Playbook

    dl = DataLoader()
    dl.set_basedir(ROOT)
    from ansible.inventory.manager import InventoryManager
    from ansible.vars.manager import VariableManager

    global VM, DL
    DL = dl
    VM = VariableManager(loader=dl, inventory=InventoryManager(loader=dl, sources=["h1,h2,"]))
    pb = Playbook.load(os.path.join(ROOT, "main.yml"), loader=dl, variable_manager=VM)
    PLAYS = pb.get_plays()
    for p in PLAYS:
        for b in p.compile():
            index(b)
    for n in PB:
        if n.startswith("inc"):
            INC_DATA[n] = dl.load_from_file(os.path.join(ROOT, n))
    import ansible.plugins.strategy as st
    from ansible.plugins.strategy import linear

    SB = st.StrategyBase
    L = linear.StrategyModule
    for cls in (SB, L):
        for k in ("__init__", "run", "_queue_task", "_process_pending_results", "_execute_meta", "_load_included_file", "cleanup"):
            if k in vars(cls):
                delattr(cls, k)
    SB.__init__ = s_init
    SB.run = s_run
    SB._queue_task = s_queue
    SB._process_pending_results = s_results
    SB._execute_meta = s_meta
    SB._load_included_file = s_load
    import ansible.utils.display as disp

    disp.Display.display = lambda self, msg, *a, **k: CUR.displayed.append(str(msg))
    # templating a condition first imports and compiles a lot
    from ansible.template import Templar

    Templar(loader=dl, variables={}).template("{{ 1 }}")
    if line:
        skip = ("to_dap", "__init__", "_format_exception", "get_canonicalized_variable_type")
        vsched.trace_code(boot.code_objects(M.debuggee, M.strategy, M.bps, M.callback, skip=skip))


def index(b):
    for t in b.block + b.rescue + b.always:
        if hasattr(t, "block"):
            index(t)
        else:
            TASKS[t.get_name()] = t


def load_inc(parent, name):
    """A fresh list of blocks as Ansible makes it for an include."""
    from ansible.playbook.helpers import load_list_of_blocks

    bs = load_list_of_blocks(INC_DATA[name], play=PLAYS[0], parent_block=parent, loader=DL, variable_manager=VM)
    for b in bs:
        index(b)
    return bs


CUR: "H1" = None  # type: ignore[assignment]


def s_init(self, tqm):
    self._tqm = tqm
    self._loader = tqm.loader
    self._variable_manager = tqm.vm


def tv(host):
    h = {"inventory_hostname": host.name}
    return {"inventory_hostname": host.name, "hostvars": {host.name: dict(h)}, "vars": dict(h), "x": 1}


def s_run(self, iterator, play_context):
    x = CUR
    self.pending = []
    for step in iterator:
        op, args = step[0], step[1:]
        if op == "task":
            host, name, kind = args
            t = TASKS[name]
            task_vars = tv(host)
            x.c.log("begin", host.name, name)
            self._queue_task(host, t, task_vars, play_context)
            self.pending.append((host, t, kind))
        elif op == "meta":
            host, name = args
            task_vars = tv(host)
            x.c.log("begin", host.name, name)
            self._execute_meta(META[name], play_context, iterator, host)
        elif op == "results":
            self._process_pending_results(iterator)
        elif op == "load":
            with vsched.atomic():
                x.inc = load_inc(TASKS["i1"], args[0])
            x.c.log("loading", args[0])
            self._load_included_file(None, iterator)
            x.c.log("loaded", args[0])
        else:
            raise AssertionError(op)
    return 0


META: dict = {}


def s_queue(self, host, task, task_vars, play_context):
    CUR.c.log("run", host.name, task.get_name())


def s_results(self, iterator, *a, **k):
    from ansible.executor.task_result import TaskResult

    out = []
    for host, t, kind in self.pending:
        res = {"ok": {}, "failed": {"failed": True, "msg": "bad"}, "skipped": {"skipped": True, "skip_reason": "x"}, "unreachable": {"unreachable": True, "msg": "u"}}[kind]
        out.append(TaskResult(host, t, dict(res), task_fields={}))
        CUR.c.log("result", host.name, t.get_name(), kind)
    self.pending = []
    return out


def s_meta(self, task, play_context, iterator, target_host):
    CUR.c.log("run", target_host.name, task.get_name())
    return []


def s_load(self, *a, **k):
    return CUR.inc


class Gone(Exception):
    pass


class Client:
    def __init__(self, h: "H1", listen=True, address=None) -> None:
        self.h = h
        self.c = h.c
        self.inbox = collections.deque()
        self.events = collections.deque()
        self.got: list = []
        self.seq = 0
        self.closed = False
        self.sent: dict = {}
        me = self

        class P(M.mp.MPProtocol):
            def on_msg_received(self, msg):
                atomic()
                me.receive(msg)

            def connection_closed(self, exp):
                atomic()
                me.closed = True
                me.c.log("closed", "client")

        self.token = M.sock.SocketCancellationToken()
        if listen:
            self.q = M.mp.ServerMPQueue("uds://" + tmp("c"), P, cancel_token=self.token)
        else:
            self.q = M.mp.ClientMPQueue(address, P, cancel_token=self.token)

    def receive(self, m):
        d = M.dap
        self.got.append(m)
        self.inbox.append(m)
        if isinstance(m, d.StoppedEvent):
            self.c.log("stopped", str(m.reason.value), self.h.host_of(m.thread_id))
        elif isinstance(m, d.ThreadEvent):
            if m.reason == "started":
                # the driver is at that host's first task
                self.h.tids[m.thread_id] = self.h.host_at_thread(m.thread_id)
            self.c.log("thread", m.reason)
        elif isinstance(m, d.Response):
            self.c.log("answer", m.command.value, "ok" if m.success else "error")
        else:
            self.c.log("event", type(m).__name__)

    def next(self):
        self.c.wait(lambda: self.inbox or self.closed, "client waiting for a message")
        if self.inbox:
            return self.inbox.popleft()
        raise Gone()

    def send(self, m):
        if self.seq == self.h.idle_at:
            self.c.s.block(lambda: False, "the user thinking", IDLE)
        self.seq += 1
        m.seq = self.seq
        self.sent[self.seq] = m
        self.c.log("sent", type(m).__name__.replace("Request", ""))
        try:
            self.q.send(m)
        except Exception as e:
            self.c.log("send failed", type(e).__name__)
            raise Gone()
        return self.seq

    def request(self, m):
        n = self.send(m)
        while True:
            r = self.next()
            if isinstance(r, M.dap.Response) and r.request_seq == n:
                return r
            self.events.append(r)

    def event(self, kind):
        while True:
            m = self.events.popleft() if self.events else self.next()
            if isinstance(m, kind):
                return m

    def stop_event(self):
        return self.event(M.dap.StoppedEvent)

    # -- common requests
    def config(self):
        D = M.debuggee
        self.send(M.dap.OutputEvent(category=D.DebugConfiguration.OUTPUT_CATEGORY, output="", data=D.DebugConfiguration()))

    def bp_msg(self, lines, file="main.yml"):
        d = M.dap
        return d.SetBreakpointsRequest(
            source=d.Source(name=file, path=os.path.join(ROOT, file)),
            breakpoints=[d.SourceBreakpoint(line=x[0], condition=x[1]) if isinstance(x, tuple) else d.SourceBreakpoint(line=x) for x in lines],
        )

    def exc_msg(self, filters):
        return M.dap.SetExceptionBreakpointsRequest(filters=list(filters), filter_options=[], exception_options=[])

    def done(self):
        return self.request(M.dap.ConfigurationDoneRequest())

    def setup(self, lines=(), filters=(), inc=()):
        self.config()
        self.event(M.dap.InitializedEvent)
        if lines:
            self.request(self.bp_msg(lines))
        if inc:
            self.request(self.bp_msg(inc, "inc.yml"))
        if filters:
            self.request(self.exc_msg(filters))
        self.done()

    def cont(self, e, single=False):
        return self.request(M.dap.ContinueRequest(thread_id=e.thread_id, single_thread=single))


def atomic():
    vt = Sched.cur()
    if vt is not None:
        vt.atomic = 1


def line_of(name: str) -> int:
    for text in PB.values():
        for i, t in enumerate(text.split("\n"), 1):
            if t.strip() == f"- name: {name}":
                return i
    raise KeyError(name)


def program(hosts, play0, play1):
    """Steps of two plays from lists of task names ('name' or 'name:kind'); results after each task's last host."""
    out = []
    for names in (play0, play1):
        steps = []
        for n in names:
            if n.startswith("load"):
                steps.append(("load", n.partition(":")[2] or "inc.yml"))
                continue
            n, _, kind = n.partition(":")
            for h in hosts:
                steps.append(("task", h, n, kind or "ok"))
            steps.append(("results",))
        out.append(steps)
    return [o for o in out if o]


class H1(SchedScenario):
    """One playbook process and one client."""

    line = True
    mode = "connect"
    nwait = False
    hosts = ("h1",)
    play0 = ("t1", "t2", "t3")
    play1 = ("u1",)
    dial = True
    serial = False  # the next play runs even if this one failed (batches)
    abort = False  # the playbook ends without its statistics
    horizon = 60000

    def main(self, c: Ctx) -> None:
        global CUR
        self.c = c
        CUR = self
        self.displayed: list = []
        self.inc = None
        self.tids: dict = {}
        self.exits: list = []
        boot.fresh_debugger(M)
        for t in list(TASKS):
            pass
        hs = [Host(h) for h in self.hosts]
        self.plays = program(hs, self.play0, self.play1)
        opts = {
            "mode": self.mode,
            "debug_addr": "uds://" + tmp("c" if self.mode == "connect" else "d"),
            "use_tls": False,
            "no_wait_for_config_done": self.nwait,
            "log_file": None,
        }
        c.data["rcs"] = []
        if self.mode == "connect" and self.dial:
            with vsched.atomic():
                cl = self.client = Client(self)
            self.start_client(c, cl)
        elif self.dial:
            self.start_client(c, None, opts["debug_addr"])
        cb = M.callback.CallbackModule()
        cb.get_option = opts.get
        pb = types.SimpleNamespace(get_plays=lambda: PLAYS[: len(self.plays)], _file_name="main.yml")
        try:
            cb.v2_playbook_on_start(pb)
            c.log("started")
            tqm = types.SimpleNamespace(loader=None, vm=types.SimpleNamespace(set_host_variable=lambda *a: None))
            for steps in self.plays:
                c.log("play")
                s = M.strategy.StrategyModule(tqm)
                rc = s.run(steps, None)
                c.data["rcs"].append(rc)
                c.log("play done", rc)
                if rc and not self.serial:
                    break
            if not self.abort:
                cb.v2_playbook_on_stats(None)
        finally:
            # the end of the process
            for v in list(c.s.threads):
                if not v.harness and not v.daemon and v is not Sched.cur():
                    c.wait(lambda: v.state == "done", f"end of {v.name}")
            boot.process_exit()
            c.log("playbook done")
        c.data["left"] = [v.name for v in c.s.threads if v.state != "done" and not v.harness and v is not Sched.cur()]
        c.data["pidfile"] = M.debuggee.get_pid_info_path(os.getpid()).exists()
        if self.mode == "listen":
            c.data["socket"] = os.path.exists(tmp("d"))
        if self.dial:
            if self.starting:
                # the playbook is over, nobody will connect anymore
                with vsched.atomic():
                    self.client.token.cancel()
            c.wait(lambda: self.cvt.state == "done", "client script")

    starting = False
    idle_at = None  # the client waits that long before this message

    def start_client(self, c, cl, address=None):
        def body():
            nonlocal cl
            atomic()
            try:
                if cl is None:
                    c.wait(lambda: self.reachable() or c.has("playbook done"), "client waiting for the playbook to listen")
                    if not self.reachable():
                        raise Gone()
                    cl = self.client = Client(self, False, address)
                self.starting = True
                try:
                    cl.q.start()
                except Exception as e:
                    if self.nwait or c.has("playbook done"):
                        # nothing obliges the playbook to wait for the connection
                        raise Gone() from e
                    raise
                self.starting = False
                self.script(c, cl)
                # keep the connection until the playbook ends it
                while not cl.closed:
                    m = cl.next()
            except Gone:
                pass
            except Exception as e:
                c.log("client failed", type(e).__name__, str(e)[:100])
                c.data["client_error"] = e
            finally:
                try:
                    if cl:
                        cl.q.stop()
                except Exception:
                    pass

        self.cvt = c.s.spawn(body, "client", harness=True)

    def reachable(self):
        """The process-information file is complete."""
        try:
            json.loads(M.debuggee.get_pid_info_path(os.getpid()).read_text())
        except (OSError, ValueError):
            return False
        return True

    def script(self, c: Ctx, cl: Client) -> None:
        raise NotImplementedError

    def host_of(self, tid):
        return self.tids.get(tid, str(tid))

    def host_at_thread(self, tid):
        # threads are numbered in the order the driver's hosts first run in each play
        return self.hosts[len(self.tids) % len(self.hosts)]

    # -- what every scenario requires
    def all_runs(self):
        out = []
        for steps in self.plays:
            for s in steps:
                if s[0] == "task":
                    out.append((s[1].name, s[2]))
        return out

    def runs(self, c):
        return [e[1:] for e in c.ev if e[0] == "run"]

    def finished(self, c):
        """Violations if the playbook did not end in good order."""
        v = []
        if c.data.get("left"):
            v.append(("threads", f"debugger threads left at the end of the playbook: {c.data['left']}"))
        if c.data.get("pidfile"):
            v.append(("pidfile", "the process-information file is left at the end of the playbook"))
        if c.data.get("socket"):
            v.append(("socket", "the listening socket file is left at the end of the playbook"))
        if "client_error" in c.data:
            v.append(("client", f"the client failed with {c.data['client_error']!r}"))
        return v

    def full(self, c):
        v = self.finished(c)
        if self.runs(c) != self.all_runs():
            v.append(("tasks", f"ran {self.runs(c)} instead of {self.all_runs()}"))
        if any(c.data["rcs"]):
            v.append(("rc", f"the plays ended with {c.data['rcs']}"))
        return v

    def cleanup(self, c: Ctx) -> None:
        for n in ("c", "d"):
            if os.path.exists(tmp(n)):
                os.unlink(tmp(n))
        p = M.debuggee.get_pid_info_path(os.getpid())
        if p.exists():
            p.unlink()
