"""Everything a client can ask a playbook, in every state of the playbook: one answer each."""
from __future__ import annotations

import itertools

from . import fx, play

fx.fx(
    "asks",
    "h1,h2,",
    main=fx.HEAD
    + "  vars:\n    ps: text\n    ls: [1, [2]]\n    dd: {k: {n: 1}, 5: five}\n    broken: '{{ nosuch.x }}'\n  tasks:\n"
    + "  - name: t1\n    probe: {id: t1, o1: [1, {a: 2}], o2: '{{ ps }}'}\n"
    + "  - name: t2\n    probe: {id: t2, failed: true}\n"
    + "  - name: t3\n    probe: {id: t3}\n",
)
INTS = (-1, 0, 1, 2, 10**6, 2**40)
TEXTS = ("", "1", "ps", "ls[1]", "nosuch", "nosuch.x", "broken", "(", "'", "1 / 0", "[1][5]", "{}['a'].b", "'x' + 1", "ps | nosuch", "ps is nosuch", "lookup('nosuch')", "lookup('file', '/nowhere/at/all')", "'a' | from_json", "'(' | regex_search('(')", "undef()", "hostvars", "vars", "self", "namespace(a=1)", "range(3)", "'\u20ac\U0001f600'", "\x00", "'\\ud800'", "{{ 1 }}", "{% if %}", "not_a_var | default(1)", "'a' * 3000", "ls.append", "q('env', 'HOME')", "omit", "true", "none", "{1: 2}", "{(1, 2): 3}", "1.5", "'1' | int", "[[[[]]]]", "dict(a=1).items()", "now()", "'%s' % 1", "'100% %s %(x)d {0}'", "2 ** 100")
NAMES = ("o1", "", "0", "1", "9", "-1", "-9", "x", "a.b", "5", "k", "\u20ac", "ps", "1.0", "None", "1e3", " 1")
CONTEXTS = ("repl", "watch", "hover", "clipboard", "variables", "nosuch", "", None)


class At:
    """What there is to name at a stop."""

    def __init__(self, threads=(2, 3), frames=(1,), refs=(1,), path="/nowhere/x.yml"):
        self.threads, self.frames, self.refs, self.path = tuple(threads), tuple(frames), tuple(refs), path


def asks(at: At) -> list:
    """[(label, function that makes the request)], none of which lets the playbook go on."""
    d = play.M.dap
    out: list = []

    def add(label, cls, **kw):
        out.append((f"{label} {kw}"[:200], lambda: cls(**kw)))

    add("threads", d.ThreadsRequest)
    live = set(at.threads) | {1}
    for n in dict.fromkeys(at.threads + (1,) + INTS):
        add("stackTrace", d.StackTraceRequest, thread_id=n)
    for n in dict.fromkeys(at.frames + INTS):
        add("scopes", d.ScopesRequest, frame_id=n)
    for n in dict.fromkeys(at.refs + INTS):
        add("variables", d.VariablesRequest, variables_reference=n)
    for n, name in itertools.product(dict.fromkeys(at.refs + INTS[:3]), NAMES):
        add("setVariable", d.SetVariableRequest, variables_reference=n, name=name, value="1")
    for n, v in itertools.product(dict.fromkeys(at.refs), TEXTS):
        add("setVariable", d.SetVariableRequest, variables_reference=n, name="o1", value=v)
        add("setVariable", d.SetVariableRequest, variables_reference=n, name="0", value=v)
    for f in dict.fromkeys(at.frames[:1] + (None, 0, 10**6)):
        for c in CONTEXTS:
            for e in TEXTS if c in ("repl", "watch") else TEXTS[:8]:
                add("evaluate", d.EvaluateRequest, expression=e, frame_id=f, context=c)
        for e in TEXTS + NAMES:
            for w in ("!so o1 ", "!sh zz ", "!ro ", "!t ", "!set_option ", "!", "!so ", "!nosuch "):
                add("evaluate", d.EvaluateRequest, expression=w + e, frame_id=f, context="repl")
    for p in (at.path, None, "", "/", "/nowhere/x.yml", "rel.yml", at.path + "/", "\u20ac\x00", "a" * 5000):
        for ln in ((), (1,), (-1, 0), (10**9,), (1, 1, 2)):
            for cnd in (None, "false", "(") if p == at.path else (None,):
                add("setBreakpoints", d.SetBreakpointsRequest, source=d.Source(name="x", path=p), breakpoints=[d.SourceBreakpoint(line=n, condition="false" if cnd is None and p == at.path else cnd) for n in ln])
    for p in (at.path, "/nowhere/x.yml"):
        add("setBreakpoints", d.SetBreakpointsRequest, source=d.Source(name="x", path=p), lines=[1, 2], source_modified=True)
        add("setBreakpoints", d.SetBreakpointsRequest, source=d.Source(name="x", path=p), breakpoints=[d.SourceBreakpoint(line=1, column=3, condition="false", hit_condition="2", log_message="x")], source_modified=True)
    for f in ((), ("nosuch",), ("on_skipped",), ("on_skipped", "on_skipped"), ("",)):
        add("setExceptionBreakpoints", d.SetExceptionBreakpointsRequest, filters=list(f))
    add("setExceptionBreakpoints", d.SetExceptionBreakpointsRequest, filters=[], filter_options=[d.ExceptionFilterOptions(filter_id="on_skipped", condition="x")], exception_options=[d.ExceptionOptions(path=[], break_mode=list(d.ExceptionBreakMode)[0] if hasattr(d, "ExceptionBreakMode") else "always")])
    add("configurationDone", d.ConfigurationDoneRequest)
    for n in INTS:
        if n not in live:
            add("continue", d.ContinueRequest, thread_id=n, single_thread=True)
            add("next", d.NextRequest, thread_id=n)
            add("stepIn", d.StepInRequest, thread_id=n)
            add("stepOut", d.StepOutRequest, thread_id=n)
    return out


KINDS = 26


def one(job, prefix):
    phase, piped = job["phase"], job["piped"]
    base = fx.baseline("asks")
    run = play.Run(prefix)
    d = play.M.dap
    bad: list = []
    done: list = []
    seen: set = set()
    f = f"{play.ROOT}/asks/main.yml"
    text = fx.FX["asks"][1]["main.yml"].splitlines()
    line = text.index("  - name: t1") + 1
    where = f"{phase}{', without waiting for answers' if piped else ''}"

    def say(k, m):
        bad.append((k, f"{where}: {m}"))

    def work(c, at):
        todo = asks(at)
        if job.get("pairs"):
            some: dict = {}
            for lab, mk in todo:
                k = lab.split(" ")[0]
                if len(some.setdefault(k, [])) < (3 if k in ("evaluate", "setVariable", "variables") else 2):
                    some[k].append((lab, mk))
            reps = [x for v in some.values() for x in v]
            todo = [x for p in itertools.product(reps, reps) for x in p]
            n = len(todo) // job["step"] + 1
            todo = todo[job["from"] * n : (job["from"] + 1) * n]
        else:
            todo = todo[job["from"] :: job["step"]]
        sent: dict = {}
        todo.append(("threads, the last one", lambda: d.ThreadsRequest()))
        at0 = len(c.messages)
        for lab, mk in todo:
            m = mk()
            done.append(lab)
            if piped:
                sent[c.send(m)] = (lab, m)
            else:
                r = c.request(m)
                sent[m.seq] = (lab, m)
                seen.add((lab.split(" ")[0], type(r).__name__))
        want = set(sent)
        if piped:
            left = set(sent)
            while left:
                r = c._get()
                if isinstance(r, d.Response):
                    left.discard(r.request_seq)
                    if r.request_seq in sent:
                        seen.add((sent[r.request_seq][0].split(" ")[0], type(r).__name__))
                else:
                    c.events.append(r)
        got: dict = {}
        for r in c.messages[at0:]:
            if isinstance(r, d.Response):
                got.setdefault(r.request_seq, []).append(r)
        for n in sorted(set(got) - want):
            say("stray", f"an answer to request {n}, which was not sent")
        for n, (lab, m) in sent.items():
            a = got.get(n, [])
            if len(a) != 1:
                say("answers", f"{len(a)} answers to {lab}")
            elif a[0].command != m.command:
                say("command", f"{lab} is answered as {a[0].command}")
        if any(isinstance(e, d.StoppedEvent) for e in c.events):
            say("stop", "stopped while stopped")

    def script(c):
        if phase == "before":
            D = play.M.debuggee
            c.send(d.OutputEvent(category=D.DebugConfiguration.OUTPUT_CATEGORY, output="", data=D.DebugConfiguration()))
            # configurationDone is what lets the playbook go on: last
            real = asks

            def no_done(at):
                return [x for x in real(at) if not x[0].startswith("configurationDone")]

            globals()["asks"] = no_done
            try:
                work(c, At(path=f))
            finally:
                globals()["asks"] = real
            c.request(d.SetBreakpointsRequest(source=d.Source(name="x", path=f), breakpoints=[]))
            c.request(d.SetExceptionBreakpointsRequest(filters=[]))
            c.request(d.ConfigurationDoneRequest())
            done.append(None)
            return
        c.configure({f: [(line, "inventory_hostname == 'h2'")]} if phase != "exception" else {}, filters=("on_error",) if phase == "exception" else ())
        e = c.wait_stop()
        ths = [t.id for t in c.request(d.ThreadsRequest()).threads if t.id != 1]
        st = [x.id for x in c.request(d.StackTraceRequest(thread_id=e.thread_id)).stack_frames]
        refs: list = []
        if job.get("expand", True):
            for s in c.request(d.ScopesRequest(frame_id=st[0])).scopes:
                refs.append(s.variables_reference)
                if s.name.startswith(("Module", "Host")):
                    deep = [v.variables_reference for v in c.request(d.VariablesRequest(variables_reference=s.variables_reference)).variables if v.variables_reference and v.name in ("o1", "ls", "dd")]
                    refs += deep[:3]
        work(c, At(ths, st, refs or (1,), f))
        c.request(d.SetBreakpointsRequest(source=d.Source(name="x", path=f), breakpoints=[]))
        c.request(d.SetExceptionBreakpointsRequest(filters=[]))
        c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=True))
        done.append(None)
        while (e := c.wait_stop()) is not None:
            say("stop", f"stopped again at {e}")
            c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=True))

    fx.debug("asks", script, run=run, limit_s=60)
    if not done or done[-1] is not None:
        say("lost", f"the session was gone, or stuck, after {done[-1] if done else 'nothing'}")
    elif not bad and not run.problems and not job["piped"] and isinstance(run.rc, str):
        say("rc", f"exit status {run.rc} instead of {base.rc}")
    return run, (phase, tuple(sorted(seen))), bad[:3]


def jobs(quick):
    out: list = []
    for phase, piped in itertools.product(("before", "stopped", "exception"), (False, True)):
        n = 6
        out += [{"phase": phase, "piped": piped, "from": i, "step": n} for i in range(n)]
        if not quick or phase == "stopped":
            out += [{"phase": phase, "piped": piped, "pairs": True, "from": i, "step": 4} for i in range(4)]
    return out


def run(chk, quick):
    play.setup(fx.files(["asks"]))
    fx.run_jobs(chk, "playbook", jobs(quick), one, what="every request with ordinary, odd and impossible arguments, alone and in pairs, before configuration is done, at a breakpoint and at a failed task", cap_s=200 if quick else 600)
