"""C12: what the client knows of each breakpoint, whatever the order and timing of loading and requesting."""
import os
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import fx, h1, play, report, struct  # noqa: E402
from mc.h1 import H1  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


def expected(text, line):
    """(verified, first line, last line or None when anything at or after the first goes)"""
    r = struct.region(struct.marks(text), line)
    if r is None:
        return (False, None, None)
    return (r[2], r[0], r[1])


def wrong(b, text, line):
    ver, first, last = expected(text, line)
    if b.verified != ver:
        return f"{'accepted' if b.verified else 'refused'}"
    if first is not None and (b.line != first or (last is not None and b.end_line != last)):
        return f"on lines {b.line}-{b.end_line} instead of {first}-{last}"
    return None


class View:
    """What a client knows from the answers and events it received, in order."""

    def __init__(self, d):
        self.d = d
        self.asked = {}  # request number -> (file, lines)
        self.answered = set()
        self.current = {}  # file -> {id: [line, Breakpoint]}
        self.gone = set()
        self.bad = []

    def ask(self, seq, file, lines):
        self.asked[seq] = (file, lines)

    def take(self, m):
        d = self.d
        if isinstance(m, d.SetBreakpointsResponse):
            file, lines = self.asked[m.request_seq]
            self.answered.add(m.request_seq)
            self.gone |= set(self.current.get(file, {}))
            if len(m.breakpoints) != len(lines):
                self.bad.append(("count", f"{len(m.breakpoints)} answers for {len(lines)} breakpoints"))
            self.current[file] = {b.id: [ln, b] for ln, b in zip(lines, m.breakpoints)}
            if len(self.current[file]) != len(lines) or set(self.current[file]) & self.gone:
                self.bad.append(("ids", f"{file}: ids {[b.id for b in m.breakpoints]} are not new"))
        elif isinstance(m, d.BreakpointEvent):
            b = m.breakpoint
            for file, bps in self.current.items():
                if b.id in bps:
                    bps[b.id][1] = b
                    return
            self.bad.append(("stale", f"an update for breakpoint {b.id}, which the client {'has replaced' if b.id in self.gone else 'does not know'}"))

    def final(self, texts, loaded, maybe=()):
        out = list(self.bad)
        for file, bps in self.current.items():
            for ln, b in bps.values():
                if file in loaded:
                    w = wrong(b, texts[file], ln)
                    if w:
                        out.append(("view", f"the breakpoint at line {ln} of {file} is {w}"))
                    if b.source is None or os.path.basename(b.source.path) != os.path.basename(file):
                        out.append(("source", f"the breakpoint at line {ln} of {file} is said to be in {b.source}"))
                elif file not in maybe and b.verified:
                    out.append(("pending", f"the breakpoint at line {ln} of {file}, which was never loaded, is verified"))
        return out


class Race(H1):
    """Files are loaded while the client sets and replaces breakpoints in them."""

    play0 = ("t1", "load:inc.yml", "load:inc2.yml", "t2")
    play1 = ()
    before = ()  # sets asked for before configuration is done: (file, lines)
    after = ()  # sets sent without waiting, while files are loaded

    def script(self, c, cl):
        d = h1.M.dap
        view = c.data["view"] = View(d)
        real = cl.receive

        def receive(m):
            view.take(m)
            real(m)

        cl.receive = receive

        def ask(file, lines):
            m = cl.bp_msg(lines, file)
            view.ask(cl.seq + 1, file, lines)
            cl.send(m)

        cl.config()
        for x in self.before:
            ask(*x)
        cl.send(d.ConfigurationDoneRequest())
        for x in self.after:
            ask(*x)
        while True:
            m = cl.next()
            if isinstance(m, d.StoppedEvent):
                cl.send(d.ContinueRequest(thread_id=m.thread_id))

    def check(self, c, s):
        if s.failure:
            return []
        v = self.full(c)
        view = c.data["view"]
        loaded = {"main.yml"} | {x.partition(":")[2] for x in self.play0 if x.startswith("load")}
        if set(n for n, _ in self.before) - set(view.current):
            v.append(("answer", f"no answer for {set(n for n, _ in self.before) - set(view.current)}"))
        # a request that came too late, when the playbook had ended, is not answered by it
        for file in {f for n, (f, _) in view.asked.items() if n not in view.answered}:
            view.current.pop(file, None)
        return v + view.final(h1.PB, loaded)

    def outcome(self, c, s):
        vw = c.data.get("view")
        if vw is None:
            return ()
        return (tuple((f, tuple((i, ln, b.verified, b.line, b.end_line) for i, (ln, b) in x.items())) for f, x in vw.current.items()), tuple(e for e in c.ev if e[0] in ("event", "answer", "loading", "loaded")))


def one(job, prefix):
    """A whole playbook: breakpoints on all lines of all files; at stops a file's set may be sent again."""
    name = job["fx"]
    base = fx.baseline(name)
    run = play.Run(prefix)
    d = play.M.dap
    R = f"{play.ROOT}/{name}"
    ff = {k: t for k, t in fx.FX[name][1].items() if "/meta/" not in k}
    view = View(d)
    sent = []

    def script(c):
        def ask(f, lines):
            view.ask(c.seq + 1, f, lines)
            c.set_breakpoints(f"{R}/{f}", [(n,) for n in lines])

        real = c.messages.append

        class Tee(list):
            def append(self, m):
                view.take(m)
                list.append(self, m)

        c.messages = Tee(c.messages)
        D = play.M.debuggee
        c.send(d.OutputEvent(category=D.DebugConfiguration.OUTPUT_CATEGORY, output="", data=D.DebugConfiguration()))
        for f in ff:
            if f != job["skip"]:
                ask(f, list(range(1, ff[f].count("\n") + 3)))
        c.request(d.ConfigurationDoneRequest())
        while True:
            e = c.wait_stop()
            if e is None:
                return
            n = run.choose(1 + 2 * len(ff), "resend") if len(run.trail) < job["depth"] else 0
            if n:
                f = list(ff)[(n - 1) // 2]
                count = ff[f].count("\n") + 2
                lines = list(range(count, 0, -1)) if n % 2 else list(range(1, count, 2))
                ask(f, lines)
                sent.append((f, n % 2))
            c.request(d.ContinueRequest(thread_id=e.thread_id))

    fx.debug(name, script, run=run)
    ran = {e[2].rsplit(":", 1)[0][len(R) + 1 :] for e in base.world.log if e[0] in ("start", "meta") and e[2]}
    bad = [(k, f"{name}: {m} (sent again at stops: {sent})") for k, m in view.final(ff, ran, set(ff))]
    return run, (name, tuple((f, tuple((ln, b.verified, b.line, b.end_line) for ln, b in x.values())) for f, x in view.current.items())), bad[:3]


def main():
    q = report.tier() == "quick"
    ck = report.Check("C12", assumptions=["a driver that makes Ansible's calls into the plugins replaces Ansible's engine in the concurrent part", "the line of a static import and the rescue and always keywords belong to the task before them, as documented in the code"])
    # in the scheduler first: it loads the code with the stand-ins, so it gets a process of its own
    if os.environ.get("C12_PART") == "race":
        h1.load()
        some = {f: [2, 5, 7] for f in h1.PB}
        B = Bounds(1, timeout=0) if q else Bounds(2, timeout=0)
        sets = [
            ("pending", (("inc.yml", [1, 3]), ("inc2.yml", [7, 15])), ()),
            ("concurrent", (), (("inc2.yml", some["inc2.yml"]),)),
            ("replaced", (("inc2.yml", [3, 6]),), (("inc2.yml", [6, 12]),)),
            ("twice", (), (("inc2.yml", [9, 14]), ("inc2.yml", [14, 16]), ("inc.yml", [3]))),
            ("cleared", (("inc2.yml", [6, 16]), ("inc.yml", [2])), (("inc2.yml", []), ("inc2.yml", [6]))),
            ("others", (("main.yml", [1, 4, 20]), ("inc3.yml", [1])), (("inc2.yml", [6]), ("main.yml", [3, 9]))),
        ]
        scns = [Race(n, B, before=b, after=a) for n, b, a in sets]
        scns += [Race("again-" + n, B, before=b, after=a, play0=("load:inc2.yml", "t1", "load:inc2.yml", "load:inc.yml")) for n, b, a in sets[2:4]]
        ck.explore("races", scns, cap_s=200 if q else 600, what="loading files against requests, preempted at every line")
        return ck
    fs = fx.files()
    play.setup(fs)
    jobs = []
    for name in fx.FX:
        ff = [k for k in fx.FX[name][1] if "/meta/" not in k]
        for skip in [None] + (ff if not q or len(ff) > 1 else []):
            jobs.append({"fx": name, "skip": skip, "depth": (2 if len(ff) < 3 else 1) if q else 3})
    fx.run_jobs(ck, "playbooks", jobs, one, what="breakpoints on every line of every file, some files first asked for or asked for again at any of the first stops", cap_s=200 if q else 800, max_runs=3000)
    return ck


if __name__ == "__main__":
    report.main_parts("C12", main, "C12_PART", ["race", "play"])
