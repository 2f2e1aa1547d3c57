"""Runs real playbooks with the real Ansible in this process, with or without the debugger.

Only the worker processes are replaced (tasks execute in the playbook process, one at a time), so that a run is
deterministic given the client's decisions; everything else is Ansible's and ansibug's own code.  The client talks to the
playbook over the real transport.  An execution is a function of the list of choices the client makes, explore() enumerates
all of them.
"""
from __future__ import annotations

import collections
import os
import queue
import signal
import sys
import threading
import time
import traceback

from . import boot

PROBE = """
import sys
from ansible.plugins.action import ActionBase
class ActionModule(ActionBase):
    TRANSFERS_FILES = False
    _requires_connection = False
    def run(self, tmp=None, task_vars=None):
        super().run(tmp, task_vars)
        return sys.modules["mc.play"].probe(self._task, dict(self._task.args), task_vars)
"""


class Hang(BaseException):
    pass


class World:
    """What the current execution records."""

    def __init__(self) -> None:
        self.log: list = []
        self.results: list = []
        self.display: list = []
        self.late = False
        self.strategy = None
        self.on_probe = None
        self.pending_workers: list = []
        self.debugging = False
        self.fails: list = []  # (host, path, name, kind, rescued, result, ignored, task fields, action)
        self.rescued: dict = {}


DONE = ("v2_runner_on_ok", "v2_runner_on_failed", "v2_runner_on_skipped", "v2_runner_on_unreachable")
W: World = World()
M = None  # the loaded modules
_patched = False
ROOT = ""


def chain_of(task) -> list:
    """The include statements that led to this task, innermost first."""
    from ansible.playbook.task_include import TaskInclude

    out = []
    p = task._parent
    while p is not None:
        # IncludeRole is a TaskInclude; a static import leaves no task in the chain
        if isinstance(p, TaskInclude) and not p.statically_loaded:
            out.append(p)
        p = p._parent
    return out


def ident(task) -> tuple:
    return (task.get_path() or "", task.get_name())


def probe(task, args, task_vars):
    w = W
    host = task_vars["inventory_hostname"]
    w.log.append(("run", host, task.get_path() or "", args.get("id", task.get_name())))
    args = dict(args)
    args.pop("id", None)
    see = args.pop("see", None)
    if see is not None:
        w.log.append(("see", host, see))
    w.log.append(("vars", host, own_vars(task_vars)))
    out = {"changed": False, "got": args}
    for k in ("failed", "unreachable", "skipped", "changed"):
        if k in args:
            v = args.pop(k)
            if isinstance(v, str):
                v = v.lower() in ("true", "1", "yes")
            out[k] = v
    if "result" in args:
        out.update(args.pop("result"))
    if out.get("failed") or out.get("unreachable"):
        out.setdefault("msg", f"{'failed' if out.get('failed') else 'unreachable'} on {host}")
    return out


KEPT = ("ansible_failed_task", "ansible_failed_result", "ansible_loop", "ansible_index_var", "ansible_check_mode", "ansible_diff_mode", "ansible_play_hosts", "ansible_play_batch", "ansible_play_hosts_all")
SKIPPED = ("hostvars", "vars", "STRAT", "playbook_dir", "inventory_dir", "inventory_file", "omit", "environment")


def own_vars(tv) -> str:
    return repr({k: norm(v) for k, v in sorted(tv.items()) if (k in KEPT or not k.startswith("ansible_")) and k not in SKIPPED})


class InlineWorker:
    """Stands in for WorkerProcess: runs the task in the playbook process."""

    exitcode = 0

    def __init__(self, final_q, task_vars, host, task, play_context, loader, variable_manager, shared_loader_obj, worker_id, *a, **k):
        self.a = (final_q, task_vars, host, task, play_context, loader, variable_manager, shared_loader_obj)

    def is_alive(self):
        return False

    def terminate(self):
        pass

    kill = join = lambda self, *a: None

    def start(self):
        # a forked worker has the task as it is now
        task = self.a[3]
        self.task = task.copy(exclude_parent=True)
        self.task._parent = task._parent
        self.task.args = dict(task.args)
        if W.late:
            W.pending_workers.append(self)
        else:
            self.go()

    def go(self):
        from ansible.executor.task_executor import TaskExecutor

        final_q, task_vars, host, task, play_context, loader, variable_manager, slo = self.a
        tcopy = self.task
        try:
            res = TaskExecutor(host, tcopy, dict(task_vars), play_context, None, loader, slo, final_q, variable_manager).run()
        except Exception as e:  # as the worker process does
            res = dict(failed=True, exception=traceback.format_exc(), stdout="", msg=str(e))
        before = W.strategy._results.added
        final_q.send_task_result(host.name, task._uuid, res, task_fields=tcopy.dump_attrs())
        deadline = time.monotonic() + 20
        while W.strategy._results.added == before:
            time.sleep(0.0002)
            if time.monotonic() > deadline:
                raise RuntimeError("result never arrived")


class CountingDeque(collections.deque):
    added = 0

    def append(self, x):
        super().append(x)
        self.added += 1


def _patch() -> None:
    global _patched
    if _patched:
        return
    _patched = True
    import ansible.plugins.strategy as st
    from ansible.plugins.strategy import linear  # noqa: F401

    st.WorkerProcess = InlineWorker
    SB = st.StrategyBase
    real_thread = st.results_thread_main

    def results_thread_main(strategy):
        real_thread(strategy)

    real_init = SB.__init__

    def init(self, tqm):
        real_init(self, tqm)
        W.strategy = self

    def rtm(strategy):
        strategy._results = CountingDeque(strategy._results)
        real_thread(strategy)

    st.results_thread_main = rtm
    SB.__init__ = init
    real_queue = SB._queue_task

    def q(self, host, task, task_vars, play_context):
        W.log.append(("start", host.name, task.get_path() or "", task.get_name(), tuple(c._uuid for c in chain_of(task)), task))
        return real_queue(self, host, task, task_vars, play_context)

    SB._queue_task = q
    real_meta = SB._execute_meta

    def m(self, task, play_context, iterator, target_host):
        W.log.append(("meta", target_host.name, task.get_path() or "", task.args.get("_raw_params"), tuple(c._uuid for c in chain_of(task)), task))
        r = real_meta(self, task, play_context, iterator, target_host)
        W.log.append(("end", task.args.get("_raw_params"), target_host.name))
        return r

    SB._execute_meta = m
    real_wait = SB._wait_on_pending_results

    def wait(self, iterator):
        for x in W.pending_workers:
            x.go()
        W.pending_workers = []
        return real_wait(self, iterator)

    SB._wait_on_pending_results = wait
    from ansible.utils.display import Display

    def show(self, msg, *a, **k):
        W.display.append(str(msg))

    Display.display = show
    Display.debug = lambda self, *a, **k: None


def setup(files: dict) -> str:
    """Writes the playbooks of all fixtures into the scratch directory and loads everything (before forking)."""
    global M, ROOT
    root = os.path.join(boot.scratch(), "pb")
    for name, text in files.items():
        p = os.path.join(root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        d = os.path.join(os.path.dirname(p), "action_plugins")
        if "hosts:" in text:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "probe.py"), "w") as f:
                f.write(PROBE)
    ROOT = root
    os.environ["ANSIBLE_FORKS"] = "5"
    os.environ["ANSIBLE_HOME"] = os.path.join(boot.scratch(), "home")
    os.environ["ANSIBLE_LOCAL_TEMP"] = os.path.join(boot.scratch(), "home", "tmp")
    if M is None:
        M = boot.load_plain()
        sys.modules["mc.play"] = sys.modules[__name__]
        boot.install_singleton_bypass(M)
        _patch()
    return root


class Closed(Exception):
    pass


class Client:
    """The debug adapter's side of the connection, driven by a script."""

    def __init__(self, run) -> None:
        self.run = run
        self.inbox: queue.Queue = queue.Queue()
        self.events: collections.deque = collections.deque()
        self.messages: list = []
        self.seq = 0
        self.closed = False
        self.close_error = None
        cl = self

        class P(M.mp.MPProtocol):
            def on_msg_received(self, msg):
                cl.messages.append(msg)
                cl.inbox.put(msg)

            def connection_closed(self, exp):
                cl.close_error = exp
                cl.inbox.put(None)

        self.q = M.mp.ServerMPQueue(f"uds://{boot.scratch()}/s-{os.getpid()}-{run.n}", P)
        self.address = self.q.address

    def _get(self, timeout=25.0):
        if self.closed:
            raise Closed()
        try:
            m = self.inbox.get(timeout=timeout)
        except queue.Empty:
            raise Hang("no message from the playbook")
        if m is None:
            self.closed = True
            raise Closed()
        return m

    def send(self, msg):
        self.seq += 1
        msg.seq = self.seq
        self.q.send(msg)
        return self.seq

    def request(self, msg):
        """Sends a request, gives its response (events that come before it are kept for event())."""
        n = self.send(msg)
        while True:
            m = self._get()
            if isinstance(m, M.dap.Response):
                if m.request_seq == n:
                    return m
                self.run.problem("response", f"unexpected response {m!r} while waiting for the one to {msg!r}")
            else:
                self.events.append(m)

    def event(self):
        if self.events:
            return self.events.popleft()
        while True:
            m = self._get()
            if isinstance(m, M.dap.Response):
                self.run.problem("response", f"response {m!r} without a request")
            else:
                return m

    def wait_stop(self):
        """The next StoppedEvent, None when the playbook has closed the connection."""
        while True:
            try:
                e = self.event()
            except Closed:
                return None
            if isinstance(e, M.dap.StoppedEvent):
                return e
            self.run.on_event(e)

    def configure(self, breakpoints=(), filters=(), mappings=()):
        """breakpoints: {path: [(line, condition)]}"""
        D = M.debuggee
        d = M.dap
        self.send(
            d.OutputEvent(
                category=D.DebugConfiguration.OUTPUT_CATEGORY,
                output="",
                data=D.DebugConfiguration(path_mappings=[D.PathMapping(*m) for m in mappings]),
            )
        )
        out = {}
        for path, bps in dict(breakpoints).items():
            out[path] = self.set_breakpoints(path, bps)
        if filters is not None:
            self.request(d.SetExceptionBreakpointsRequest(filters=list(filters), filter_options=[], exception_options=[]))
        self.request(d.ConfigurationDoneRequest())
        return out

    def set_breakpoints(self, path, bps):
        d = M.dap
        return self.request(
            d.SetBreakpointsRequest(
                source=d.Source(name=os.path.basename(path), path=path),
                breakpoints=[d.SourceBreakpoint(line=b[0], condition=b[1] if len(b) > 1 else None) for b in bps],
            )
        ).breakpoints


class Run:
    """One execution."""

    n = 0

    def __init__(self, prefix=()) -> None:
        Run.n += 1
        self.n = Run.n
        self.prefix = list(prefix)
        self.trail: list = []
        self.problems: list = []
        self.data: dict = {}
        self.rc = None

    def problem(self, key, msg):
        self.problems.append((key, msg))

    def on_event(self, e):
        pass

    def choose(self, n: int, label: str = "") -> int:
        i = len(self.trail)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            self.problem("diverged", f"choice {i} ({label}) has {n} options, {c} wanted")
            c = 0
        self.trail.append((c, n, label))
        return c


def execute(playbook: str, script=None, *, prefix=(), inventory="h1,", late=False, extra_vars=None, extra_args=(), run=None, limit_s=60):
    """Runs the playbook (with the debugger if there is a client script) and gives the Run and World."""
    global W
    import logging

    from ansible import constants as C
    from ansible import context
    from ansible.cli.playbook import PlaybookCLI
    from ansible.executor.playbook_executor import PlaybookExecutor
    from ansible.plugins.callback import CallbackBase
    from ansible.utils.display import Display

    with_log = (run.data.get("log") if run else None) or {}
    logging.disable(logging.NOTSET if with_log else logging.CRITICAL)
    for k in ("FILE", "LEVEL", "FORMAT"):
        os.environ.pop("ANSIBUG_LOG_" + k, None)
        if k in with_log:
            os.environ["ANSIBUG_LOG_" + k] = with_log[k]
    w = W = World()
    w.late = late
    run = run or Run(prefix)

    class Rec(CallbackBase):
        CALLBACK_TYPE = "stdout"
        CALLBACK_NAME = "rec"

        def set_options(self, *a, **k):
            pass

        def v2_on_any(self, *a, **k):
            pass

    def rec(name):
        def f(self, *a, **k):
            x = a[0] if a else None
            r = getattr(x, "_result", None)
            if r is not None:
                if name in DONE:
                    n = pbex._tqm._stats.rescued.get(x._host.name, 0)
                    w.fails.append((x._host.name, x._task.get_path() or "", x._task.get_name(), name[13:], n - w.rescued.get(x._host.name, 0), norm(r), bool(k.get("ignore_errors")), x._task_fields, x._task.action))
                    w.rescued[x._host.name] = n
                    w.log.append(("done", x._host.name, x._task.get_path() or "", x._task.get_name(), tuple(c._uuid for c in chain_of(x._task)), x._task, name[13:], x._task_fields))
                w.results.append((name, x._host.name, x._task.get_path() or "", x._task.get_name(), norm(r)))
            elif name == "v2_playbook_on_stats":
                w.results.append((name, {k: dict(getattr(x, k)) for k in ("processed", "failures", "ok", "dark", "changed", "skipped", "rescued", "ignored")}))
            else:
                if name == "v2_playbook_on_play_start":
                    w.log.append(("play", x.get_name()))
                w.results.append((name,) + tuple(getattr(y, "name", None) or (y.get_name() if hasattr(y, "get_name") else type(y).__name__) for y in a))

        return f

    for n in dir(CallbackBase):
        if n.startswith("v2_") and n != "v2_on_any":
            setattr(Rec, n, rec(n))

    args = ["ansible-playbook", "-i", inventory, playbook] + list(extra_args)
    context.CLIARGS = None
    cli = PlaybookCLI(args)
    from ansible.utils.context_objects import GlobalCLIArgs
    from ansible.utils.singleton import Singleton as ASingleton  # noqa: F401

    GlobalCLIArgs._Singleton__instance = None
    cli.parse()
    cli.setup_vault_secrets = lambda *a, **k: []
    loader, inv, vm = cli._play_prereqs()
    if extra_vars:
        vm._extra_vars = dict(vm._extra_vars, **extra_vars)
    pbex = PlaybookExecutor(playbooks=[playbook], inventory=inv, variable_manager=vm, loader=loader, passwords={"conn_pass": None, "become_pass": None})
    recorder = Rec()
    recorder.set_options()
    pbex._tqm._stdout_callback = recorder
    client = None
    th = None
    C.CALLBACKS_ENABLED = []
    dbg = None
    if script is not None:
        w.debugging = True
        dbg = boot.fresh_debugger(M)
        client = Client(run)
        C.CALLBACKS_ENABLED = ["ansibug.dap.debug"]
        os.environ["ANSIBUG_MODE"] = "connect"
        os.environ["ANSIBUG_DEBUG_ADDR"] = client.address

        def body():
            try:
                client.q.start(timeout=20)
                script(client)
            except Closed:
                pass
            except BaseException as e:  # noqa: B902
                run.problem("client", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
                signal.pthread_kill(main_id, signal.SIGALRM)

        th = threading.Thread(target=body, name="client", daemon=True)

    def alarm(*a):
        stack = "".join(traceback.format_stack(a[1])[-8:]) if len(a) > 1 else ""
        raise Hang("the playbook process does not get any further:\n" + stack)

    main_id = threading.get_ident()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit_s)
    try:
        if th:
            th.start()
        run.rc = pbex.run()
    except Hang as e:
        run.rc = "hang"
        run.problem("hang", str(e))
    except Exception as e:
        run.rc = f"{type(e).__name__}"
        run.data["exception"] = "".join(traceback.format_exception(e))
        if type(e).__module__.startswith("ansible"):
            run.rc += f": {e}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_IGN)  # the client's thread may still send one
        if client:
            if run.rc == "hang":
                try:
                    client.q.stop()
                except Exception:
                    pass
            try:
                boot.process_exit()
            except Exception as e:
                run.problem("exit", f"{type(e).__name__}: {e}")
            th.join(30)
            try:
                client.q.stop()
            except Exception:
                pass
        if with_log:
            boot.forget_logs()
    del Display
    run.world = w
    run.client = client
    return run


DROP = {"_ansible_parsed", "_ansible_no_log", "ansible_loop_var", "warnings", "deprecations"}


def norm(x, depth=0):
    """A comparable copy of a result."""
    if isinstance(x, dict):
        return {str(k): norm(v, depth + 1) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [norm(v, depth + 1) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        s = str(x) if isinstance(x, str) else x
        if isinstance(s, str) and "Traceback" in s:
            return "<traceback>"
        return s
    return type(x).__name__
