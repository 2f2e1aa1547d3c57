"""Runs a playbook under the debugger with a scripted client (real processes, scratch directory only)."""
import os, queue, shutil, subprocess, sys, tempfile, threading

sys.dont_write_bytecode = True
import ansibug
from ansibug import dap
from ansibug._debuggee import DebugConfiguration, PathMapping
from ansibug._mp_queue import MPProtocol, ServerMPQueue

D = tempfile.mkdtemp(prefix="demo-")
os.environ["TMPDIR"] = D


class Client:
    def __init__(self):
        self.box, self.pending, self.seq = queue.Queue(), [], 0
        me = self

        class P(MPProtocol):
            def on_msg_received(self, m):
                me.box.put(m)

            def connection_closed(self, e):
                me.box.put(None)

        self.q = ServerMPQueue(f"uds://{D}/s", P)
        self.ended = False

    def get(self, timeout=20):
        if self.ended:
            return None
        m = self.box.get(timeout=timeout)
        if m is None:
            self.ended = True
        return m

    def send(self, m):
        self.seq += 1
        m.seq = self.seq
        self.q.send(m)
        return self.seq

    def ask(self, m):
        n = self.send(m)
        while True:
            r = self.get()
            if r is None or (isinstance(r, dap.Response) and r.request_seq == n):
                return r
            self.pending.append(r)

    def event(self, kind=dap.StoppedEvent):
        while True:
            m = self.pending.pop(0) if self.pending else self.get()
            if m is None or isinstance(m, kind):
                return m

    def config(self, bps=(), filters=(), mappings=(), done=True):
        self.send(dap.OutputEvent(category=DebugConfiguration.OUTPUT_CATEGORY, output="", data=DebugConfiguration(path_mappings=[PathMapping(*x) for x in mappings])))
        out = [self.breakpoints(p, l) for p, l in dict(bps).items()]
        self.ask(dap.SetExceptionBreakpointsRequest(filters=list(filters), filter_options=[], exception_options=[]))
        if done:
            self.ask(dap.ConfigurationDoneRequest())
        return out

    def breakpoints(self, path, lines):
        return self.ask(dap.SetBreakpointsRequest(source=dap.Source(name="x", path=path), breakpoints=[dap.SourceBreakpoint(line=l[0], condition=l[1]) if isinstance(l, tuple) else dap.SourceBreakpoint(line=l) for l in lines])).breakpoints

    def over(self, e):
        self.ask(dap.NextRequest(thread_id=e.thread_id))

    def into(self, e):
        self.ask(dap.StepInRequest(thread_id=e.thread_id))

    def out(self, e):
        self.ask(dap.StepOutRequest(thread_id=e.thread_id))

    def cont(self, e, single=True):
        self.ask(dap.ContinueRequest(thread_id=e.thread_id, single_thread=single))

    def stack(self, e):
        return self.ask(dap.StackTraceRequest(thread_id=e.thread_id)).stack_frames

    def scopes(self, frame):
        return {s.name: s.variables_reference for s in self.ask(dap.ScopesRequest(frame_id=frame)).scopes}

    def variables(self, ref):
        return {v.name: v for v in self.ask(dap.VariablesRequest(variables_reference=ref)).variables}

    def evaluate(self, expr, frame, context="repl"):
        return self.ask(dap.EvaluateRequest(expression=expr, frame_id=frame, context=context))

    def here(self, e):
        return None if e is None else self.stack(e)[0].name


def write(files):
    for n, t in files.items():
        p = os.path.join(D, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t)


def play(files, script, inventory="localhost,", main="main.yml", timeout=45, args=()):
    """Gives (exit status, output, what the script returned)."""
    write(files)
    c = Client()
    env = dict(os.environ, ANSIBLE_HOME=D + "/home", ANSIBLE_NOCOLOR="1", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.Popen(
        [sys.executable, "-m", "ansibug", "connect", "--addr", c.q.address, os.path.join(D, main), "-i", inventory, "-c", "local", *args],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, cwd=D)
    out = []
    rd = threading.Thread(target=lambda: out.append(p.stdout.read()), daemon=True)
    rd.start()
    got = None
    try:
        c.q.start(timeout=20)
        got = script(c)
        p.wait(timeout)
    except Exception as e:
        got = f"{type(e).__name__}: {e}"
    finally:
        if p.poll() is None:
            p.kill()
        p.wait()
        rd.join(5)
        try:
            c.q.stop()
        except Exception:
            pass
    return p.returncode, "".join(out), got


def end(ok):
    shutil.rmtree(D, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0 if ok else 1)
