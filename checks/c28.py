"""C28: a log only observes.

Sessions of the adapter and of playbooks run with the log on, at every level, and must do what they do without it; what the
file holds is compared with the records that were logged.
"""
from __future__ import annotations

import itertools
import logging
import os
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
import pathlib  # noqa: E402

from mc import boot, report  # noqa: E402

LEVELS = ["debug", "info", "warning", "error"]
NUM = {"debug": 10, "info": 20, "warning": 30, "error": 40}
ODD = "\u00e9\u20ac\U0001f600\u2028\x7f%s %(x)d {0} %"

faults: list = []


def watch():
    """What the logging system cannot write it would complain about on the user's terminal."""
    faults.clear()

    def fault(self, record):
        faults.append(f"{record.name}: {record.msg!r}: {sys.exc_info()[1]!r}")

    logging.Handler.handleError = fault


def logs():
    return [h for h in logging.getLogger("ansibug").handlers]


# ------------------------------------------------------------------------------------------------ the adapter


def adapter(ck, q):
    import json

    from mc import dascen, h2
    from mc.scen import tmp
    from mc.vsched import Bounds

    h2.load()

    class Logged:
        level = "debug"

        def options(self, c):
            watch()
            logging.disable(logging.NOTSET)
            os.makedirs(tmp("logs"), exist_ok=True)
            self.log_path = tmp("logs/l \u00e9.log")
            if os.path.exists(self.log_path):
                os.unlink(self.log_path)
            return {"log_file": pathlib.Path(self.log_path), "log_level": self.level}

        def frame(self, data):
            # not only ASCII
            t = json.dumps(data, ensure_ascii=False).encode()
            return b"Content-Length: %d\r\n\r\n" % len(t) + t

        def more(self, c, s, tags):
            v = super().more(c, s, tags)
            if faults:
                v.append(("log-fault", f"a record could not be written: {faults[0]}"))
            if self.level == "debug" and not (os.path.exists(self.log_path) and os.path.getsize(self.log_path)):
                v.append(("log-empty", f"nothing was logged at {self.level}"))
            return v

        def cleanup(self, c):
            boot.forget_logs()
            super().cleanup(c)

    def odd(base):
        return lambda self, op: ("evaluate", {"expression": ODD, "context": ODD}, "") if op == "odd" else base.one(self, op)

    class Session(Logged, dascen.Session):
        one = odd(dascen.Session)

    class Overlap(Logged, dascen.Overlap):
        one = odd(dascen.Overlap)

    class Launch(Logged, dascen.Launch):
        pass

    class NoDebuggee(Logged, dascen.NoDebuggee):
        pass

    class BadStart(Logged, dascen.BadStart):
        pass

    C = ("stream", "answers", "ending", "launch", "exit")
    B = Bounds(1, timeout=0)
    B0 = Bounds(0)
    s = []
    for level in LEVELS:
        lv = dict(cats=C, level=level)
        few = q and level != "debug"
        for end in ("disconnect", "eof", "gone", "playbook", "playbook-late"):
            kw = dict(lv, end=end, burst=1, before=1, ops=("configurationDone", "odd", "odd"))
            if end.startswith("playbook"):
                kw["requests"] = 3
            b = B if level == "debug" or not q else B0
            for chunk in (0, 1, 5, 7) if not few else (0, 1):
                n = f"{level}-{end}-{chunk}"
                if not q and level == "debug" and chunk == 0:
                    s.append(Session(f"deep-{n}", Bounds(2, timeout=0), chunk=chunk, **dict(kw, burst=0, before=0, ops=("configurationDone",), **({"requests": 1} if "requests" in kw else {}))))
                s.append(Session(f"wait-{n}", b if not chunk else B0, chunk=chunk, **kw))
                if end != "playbook-late":
                    s.append(Session(f"piped-{n}", b if not chunk else B0, chunk=chunk, pipelined=True, **kw))
                    s.append(Overlap(f"overlap-{n}", b if not chunk else B0, chunk=chunk, **kw))
            for ending in ("torn", "garbage", "half"):
                if end.startswith("playbook"):
                    s.append(Session(f"wait-{level}-{end}-{ending}", B0, ending=ending, **kw))
        for op in dascen.ODD:
            s.append(Session(f"odd-{level}-{op}", B0, ops=("threads", op, "odd"), **lv))
            s.append(NoDebuggee(f"alone-{level}-{op}", B0, ops=(op, "threads"), **lv))
        for how in ("attach-refused", "attach-nothing", "attach-pid", "attach-bad", "attach-closed", "attach-tls", "attach-mapping", "attach-slow", "launch-nothing", "launch-console", "launch-args"):
            s.append(BadStart(f"{level}-{how}", B0, how=how, **lv))
        for how in ("connects", "ends-first", "timeout", "refused", "disconnect", "eof", "connect-end", "kill"):
            s.append(Launch(f"launch-{level}-{how}", B0, how=how, fails=how == "timeout", requests=0 if how == "connect-end" else 10**9, args={"playbook": "p " + ODD + ".yml", "env": {"A": ODD}}, **lv))
    ck.explore("adapter", s, cap_s=200 if q else 600, what="sessions of the adapter with the log on at every level, input cut anywhere, text that is not ASCII")


# ------------------------------------------------------------------------------------------------ the file

NAMES = ["l", "l \u00e9'\"$%.log", "new/../l2"]
FORMATS = [None, "%(message)s", "%(levelname)s <%(name)s> %(message)s"]
TEXTS = [("plain", ()), ("%s and %d", ("\u20ac\U0001f600", 3)), ("100%", ()), ("two\nlines", ()), ("", ())]
WHO = ["ansibug", "ansibug._debuggee", "ansibug.strategy", "other", "ansible", None]


def file_case(job):
    level, name, fmt, before, twice = job
    import ansibug._logging as m

    watch()
    logging.disable(logging.NOTSET)
    d = os.path.join(boot.scratch(), f"f{os.getpid()}")
    os.makedirs(d + "/new", exist_ok=True)
    path = os.path.join(d, name)
    if os.path.exists(path):
        os.unlink(path)
    if before is not None:
        with open(path, "w", encoding="utf-8") as f:
            f.write(before)
    root = logging.getLogger()
    was = (root.level, list(root.handlers))
    logging.lastResort = None  # would write on the terminal what has no handler
    logging.raiseExceptions = False  # would complain that there is none
    bad = []
    want = []
    try:
        if fmt is None:
            m.configure_file_logging(path, level)
        else:
            m.configure_file_logging(path, level, fmt)
        if (root.level, list(root.handlers)) != was:
            bad.append(("global", "the loggers of others were changed"))
        for who, (text, args), lv in itertools.product(WHO, TEXTS, (10, 20, 30, 40, 50)):
            logging.getLogger(who).log(lv, text, *args)
            if who and who.startswith("ansibug") and lv >= NUM[level]:
                msg = text % args if args else text
                want.append((fmt or "A | %(name)s | %(message)s") % {"message": msg, "name": who, "levelname": logging.getLevelName(lv)})
    finally:
        boot.forget_logs()
        logging.getLogger().handlers[:] = []
    text = open(path, encoding="utf-8").read()
    if before is not None:
        if not text.startswith(before):
            bad.append(("append", "what the file held before is lost"))
        text = text[len(before) :]
    if fmt is None:
        # time | name | where message
        got = re.sub(r"(?m)^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} \| (\S+) \| \S+:\d+ \S+\(\) ", r"A | \1 | ", text)
    else:
        got = text
    if got != "".join(w + "\n" for w in want):
        a, b = got.splitlines(), "".join(w + "\n" for w in want).splitlines()
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        bad.append(("content", f"level {level}, format {fmt!r}: line {i} is {a[i] if i < len(a) else None!r}, expected {b[i] if i < len(b) else None!r} ({len(a)} lines instead of {len(b)})"))
    if faults:
        bad.append(("fault", faults[0]))
    return len(want), bad


def files(ck, q):
    boot.load_plain(plugins=False)
    jobs = [(lv, n, f, b, False) for lv in LEVELS for n in NAMES for f in FORMATS for b in (None, "", "earlier\n\u20ac\n")]

    ck.cases("file", jobs, _file, what="every level x file name x format x earlier content; records of every level, of our loggers and of others")


def _file(job):
    n, bad = file_case(job)
    return (job[0], job[3], n), n, bad


# ------------------------------------------------------------------------------------------------ the command


def command(job):
    """`ansibug dap`, its log as the options say, and one session."""
    import json
    import shutil
    import subprocess
    import tempfile

    level, form, order, launch = job
    d = os.path.realpath(tempfile.mkdtemp(prefix="c-", dir=boot.scratch()))
    os.makedirs(f"{d}/home")
    os.makedirs(f"{d}/temp")
    os.makedirs(f"{d}/cwd")
    given, where = {
        "absolute": (f"{d}/l.log", f"{d}/l.log"),
        "relative": ("l.log", f"{d}/cwd/l.log"),
        "home": ("~/l.log", f"{d}/home/l.log"),
        "variable": ("$WHERE/l \u00e9.log", f"{d}/home/l \u00e9.log"),
        "none": (None, None),
    }[form]
    opts = []
    if given:
        opts.append(["--log-file", given])
    if level:
        opts.append(["--log-level", level])
    opts.append(["--temp-dir", "../temp"])
    if order:
        opts.reverse()
    env = dict(os.environ, HOME=f"{d}/home", WHERE=f"{d}/home", PYTHONPATH=boot.SRC)

    def frame(*msgs):
        return b"".join(b"Content-Length: %d\r\n\r\n%s" % (len(t), t) for t in (json.dumps(m).encode() for m in msgs))

    def tree():
        return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)

    def session(opts):
        p = subprocess.Popen([sys.executable, "-m", "ansibug", "dap", *[x for o in opts for x in o]], env=env, cwd=f"{d}/cwd", stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        out, _ = p.communicate(frame({"seq": 1, "type": "request", "command": "initialize", "arguments": {"adapterID": "x\u00e9"}}, {"seq": 2, "type": "request", "command": "threads", "arguments": {}}, {"seq": 3, "type": "request", "command": "disconnect", "arguments": {}}), timeout=60)
        return p.returncode, out  # without a log, errors are told on stderr

    bad = []
    try:
        want = session([])
        before = tree()
        got = session(opts)
        if got != want:
            bad.append(("session", f"{opts}: {got} instead of {want}"))
        new = [f for f in tree() if f not in before]
        if new != ([os.path.relpath(where, d)] if where else []):
            bad.append(("where", f"{opts}: the files {new} were made"))
        elif where:
            text = open(where, encoding="utf-8").read()
            if not text and level == "debug":
                bad.append(("empty", f"{opts}: nothing was logged"))
            if level is None:
                session([["--log-file", f"{d}/other.log"], ["--log-level", "info"]])
                other = open(f"{d}/other.log", encoding="utf-8").read()
                if other.count("\n") != text.count("\n"):
                    bad.append(("default", f"{opts}: {text[:300]!r} instead of {other[:300]!r}"))
    finally:
        shutil.rmtree(d)
    return (form, level, got[0], len(got[1])), 1, bad


def commands(ck, q):
    boot.prepare()
    jobs = [(lv, form, order, 0) for lv in (*LEVELS, None) for form in ("absolute", "relative", "home", "variable", "none") for order in (0, 1)]
    ck.cases("command", jobs, command, what="real adapter processes: every level x form of the file name x order of the options, against the same session without a log")


# ------------------------------------------------------------------------------------------------ playbooks


MEM = re.compile(r"\b0x[0-9a-f]+|[0-9]{4}-[0-9]{2}-[0-9]{2}[T ][0-9:.+]+|__omit_place_holder__[0-9a-f]+|datetime.datetime\([^)]*\)|value='[0-9.]+'")


def said(run):
    """What the client was sent."""
    from checks import c26

    # events are sent by one thread, responses by another: one list after the other
    return [MEM.sub("*", c26.ID.sub("*", repr(m))) for m in sorted(run.client.messages, key=lambda m: hasattr(m, "request_seq"))]


_plain: dict = {}


def drive(job, log, prefix):
    """The playbook of the job under the script of the job."""
    from mc import asks, fx, play

    name, act = job["fx"], job["act"]
    run = play.Run(prefix)
    run.data["log"] = log
    d = play.M.dap
    watch()
    cmds = ["continue", "next", "stepIn", "stepOut"]

    def script(c):
        from checks import c26

        bps = {p: [(ln, None) for ln, t in ms if t] for p, ms in MARKS.items() if p.startswith(f"{play.ROOT}/{name}/")}
        c.configure(bps, filters=("on_error", "on_unreachable", "on_skipped"))
        n = 0
        while True:
            e = c.wait_stop()
            if e is None:
                return
            if act == "look" and n < 3:
                c26.inspect(c, d, e.thread_id, False)
            if act == "ask" and n == 1:
                st = c.request(d.StackTraceRequest(thread_id=e.thread_id))
                f = st.stack_frames[0].id
                sc = c.request(d.ScopesRequest(frame_id=f))
                at = asks.At((e.thread_id,), (f,), (sc.scopes[0].variables_reference,), f"{play.ROOT}/{name}/main.yml")
                every = asks.asks(at)
                for _, make in every[job["part"] :: job["of"]]:
                    c.request(make())
            n += 1
            cmd = "continue" if act == "ask" else cmds[n % 4]
            if cmd == "continue":
                c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=True))
            else:
                c.request({"next": d.NextRequest, "stepIn": d.StepInRequest, "stepOut": d.StepOutRequest}[cmd](thread_id=e.thread_id))

    play.execute(fx.main_of(name), script, inventory=fx.FX[name][0], extra_vars={"STRAT": job.get("strategy", "ansibug.dap.debug")}, run=run, limit_s=60)
    return run


def played(job):
    from checks import c26
    from mc import play

    k = repr(sorted((k, v) for k, v in job.items() if k not in ("level", "format")))
    if k not in _plain:
        run = drive(job, None, ())
        _plain[k] = (c26.picture(run), said(run), run.problems)
    want, words, problems = _plain[k]
    d = os.path.join(boot.scratch(), f"p{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "l \u00e9.log")
    if os.path.exists(path):
        os.unlink(path)
    log = {"FILE": path, "LEVEL": job["level"]}
    if job.get("format"):
        log["FORMAT"] = job["format"]
    root = logging.getLogger()
    was = (root.level, list(root.handlers))
    run = drive(job, log, ())
    if problems:
        return ("broken without a log", problems[0][0]), 0, []
    bad = list(run.problems)
    if (root.level, list(root.handlers)) != was:
        bad.append(("global", "the loggers of others were changed"))
    if not bad:
        got = c26.picture(run)
        for key, a, b in (("order", want[0], got[0]), ("results", want[1], got[1]), ("messages", words, said(run))):
            m = c26.diff(a, b)
            if m:
                bad.append((key, f"with a log at {job['level']} {m}"))
        if got[2] != want[2]:
            bad.append(("rc", f"exit status {got[2]} instead of {want[2]}"))
    if faults:
        bad.append(("fault", faults[0]))
    size = os.path.getsize(path) if os.path.exists(path) else -1
    if size < 0:
        bad.append(("none", "there is no log file"))
    elif not size and job["level"] == "debug":
        bad.append(("empty", f"nothing was logged at {job['level']}"))
    elif size:
        text = open(path, encoding="utf-8").read()
        if job.get("format"):
            # the level and the name are on every line that begins a record
            lines = [ln for ln in text.splitlines() if ln.startswith("#")]
            if not lines or not text.startswith("#"):
                bad.append(("format", f"not in the format: {text[:200]!r}"))
            for ln in lines:
                lv, who = ln[1:].split("|")[:2]
                if int(lv) < NUM[job["level"]]:
                    bad.append(("level", f"at {job['level']}: {ln[:200]!r}"))
                if not who.startswith("ansibug"):
                    bad.append(("who", f"of another logger: {ln[:200]!r}"))
    return (job["fx"], job["level"], run.rc, len(words), bool(size)), len(words), bad


MARKS: dict = {}


def playbook(ck, q):
    from mc import asks, fx, play, struct  # noqa: F401

    fx.use_more()
    fs = fx.files()
    play.setup(fs)
    for k, t in fs.items():
        if "/meta/" not in k:
            MARKS[f"{play.ROOT}/{k}"] = struct.marks(t)
    jobs = []
    F = "#%(levelno)d|%(name)s|%(message)s"
    for name in fx.FX:
        for level in LEVELS:
            for act in ("mix", "look") if level == "debug" or not q else ("mix",):
                jobs.append({"fx": name, "act": act, "level": level, "format": F})
        jobs.append({"fx": name, "act": "mix", "level": "debug", "format": None})
    n = 8 if q else 1
    of = 40
    jobs += [{"fx": "asks", "act": "ask", "level": "debug", "format": F, "part": i, "of": of} for i in range(0, of, n)]
    jobs.sort(key=lambda j: (j["act"] != "ask", j["fx"], j["act"]))
    ck.cases("playbook", jobs, played, what="all playbooks x level of the log, every breakpoint and filter, every command, looking at everything, every kind of request; against the same without a log")


def main():
    q = report.tier() == "quick"
    ck = report.Check("C28", assumptions=["deviations beyond the stated bound are not explored"])
    part = os.environ.get("C28_PART")
    {"adapter": adapter, "file": files, "command": commands, "playbook": playbook}[part](ck, q)
    return ck


if __name__ == "__main__":
    report.main_parts("C28", main, "C28_PART", ["adapter", "file", "command", "playbook"])
