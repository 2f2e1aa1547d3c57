"""C11: the playbook side shuts down cleanly in every timing."""
import os
import queue
import sys
import time

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import h1, par, procs, report  # noqa: E402
from mc.endings import End  # noqa: E402
from mc.h1 import H1  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


class Clean(End):
    """A client that stays, leaves or is lost around the end of the playbook."""

    play0 = ("t1",)
    play1 = ()
    bps = ("t1",)
    filters = ()
    fails = False

    def end(self, c, cl):
        d = h1.M.dap
        if self.how == "busy":
            for _ in range(3):
                cl.send(d.ThreadsRequest())
        elif self.how != "stay":
            return super().end(c, cl)
        for m in cl.got:
            if isinstance(m, d.StoppedEvent):
                cl.send(d.ContinueRequest(thread_id=m.thread_id))
        while True:
            m = cl.next()
            if isinstance(m, d.StoppedEvent):
                cl.send(d.ContinueRequest(thread_id=m.thread_id))

    def check(self, c, s):
        if s.failure:
            return []
        v = self.finished(c)
        if not c.has("playbook done"):
            v.append(("end", "the playbook did not end"))
        if self.how in ("stay", "busy") and not self.nwait:
            got = self.client.got
            d = h1.M.dap
            th = [(m.reason, m.thread_id) for m in got if isinstance(m, d.ThreadEvent)]
            if sorted(t for r, t in th if r == "started") != sorted(t for r, t in th if r == "exited"):
                v.append(("unsent", f"the client was not told of all that happened: {th}"))
            if not self.abort and len(th) != 2 * len(self.hosts) * len(self.plays):
                v.append(("unsent", f"the client was not told of all that happened: {th}"))
            if self.when == "stop" and not c.has("answer", "setBreakpoints"):
                v.append(("unsent", "no answer"))
        return v


class Never(H1):
    """No client ever connects."""

    nwait = True
    dial = False
    play0 = ("t1",)
    play1 = ()

    def check(self, c, s):
        return [] if s.failure else self.finished(c)


PB = """- hosts: all
  gather_facts: false
  tasks:
  - name: one
    debug: {msg: a}
  - name: two
    command: touch started
    register: r
  - name: three
    command: sleep 25
    when: slow is defined
- hosts: "{{ bad | default('all') }}"
  gather_facts: false
  tasks:
  - debug: {msg: b}
"""


def real(job):
    """A real playbook process that ends early or normally; what is left of it."""
    mode, at, end = job
    pr = procs.Proc({"main.yml": PB}, mode, extra=(["-e", "slow=1"] if at == "task" else []) + (["-e", "{\"bad\": \"{{ undefined_thing }}\"}"] if end == "error" else []))
    bad = []
    try:
        if mode == "listen":
            pr.info()
        if at != "nobody":
            cl = pr.connect()
            if at != "silent":
                cl.config()
                cl.breakpoints(pr.d + "/main.yml", [4] if at == "stopped" else [])
            if at not in ("silent", "config"):
                cl.ask(procs.M.dap.ConfigurationDoneRequest())
            if at == "stopped":
                if cl.event(procs.M.dap.StoppedEvent) is None:
                    return job, [("never", "the playbook never stopped")]
                if end != "interrupt":
                    cl.send(procs.M.dap.ContinueRequest(thread_id=1, single_thread=False))
            if at == "task":
                until = time.monotonic() + 30
                while not os.path.exists(pr.d + "/started") and time.monotonic() < until:
                    time.sleep(0.05)
        if end == "interrupt":
            time.sleep(0.5)
            # Python can miss a signal that arrives just as it begins to wait for a lock
            for _ in range(4):
                pr.interrupt()
                if pr.wait(4) is not None or "interrupted" in pr.out():
                    break
        if pr.wait() is None:
            bad.append(("hang", "the process does not end"))
        elif pr.left():
            bad.append(("left", f"left behind: {pr.left()}"))
        if at != "nobody" and not bad:
            try:
                while pr.client.get(10) is not None:
                    pass
            except queue.Empty:
                bad.append(("open", "the client is not told that the connection is gone"))
        return job, [(k, m + "\n" + pr.out()[-400:]) for k, m in bad]
    finally:
        pr.close()


def reals(ck):
    jobs = []
    for mode in ("listen", "connect"):
        for at in ("nobody", "silent", "config", "running", "stopped", "task"):
            for end in ("interrupt", "error", "end"):
                if at == "nobody" and mode == "connect":
                    continue
                if end != "interrupt" and at in ("nobody", "silent", "config", "task"):
                    continue
                if end == "interrupt" and at == "running":
                    continue
                jobs.append((mode, at, end))
    t = time.monotonic()
    out = par.pmap(real, jobs)
    for job, bad in out:
        for k, m in bad:
            ck.add_violation(f"process:{k}:{'-'.join(job)}", f"{job}: {m}", {"scenario": list(job)})
    ck.count("processes", states=len(jobs), transitions=len(jobs), traces=len(jobs), distinct=len({str(o) for o in out}), samples=jobs[:3], what="real playbook processes, ended normally, by an error or by Ctrl+C at each stage", wall_s=round(time.monotonic() - t, 1))


def main():
    if os.environ["C11_PART"] == "process":
        ck = report.Check("C11")
        reals(ck)
        return ck
    h1.load()
    q = report.tier() == "quick"
    ck = report.Check("C11", assumptions=["a driver that makes Ansible's calls into the plugins replaces Ansible's engine", "deviations beyond the stated bound are not explored"])
    B1 = Bounds(1, timeout=0)
    B2 = Bounds(2, timeout=0)
    scns = []
    for mode in ("connect", "listen"):
        for abort in (False, True):
            a = "-abort" if abort else ""
            scns.append(Never(f"never-{mode}{a}", B1 if q else B2, mode=mode, abort=abort))
            for when in ("connected", "done", "stop", "last"):
                for how in ("stay", "busy", "disconnect", "close", "torn", "terminate", "disconnect1"):
                    if when == "connected" and how in ("stay", "busy"):
                        continue
                    scns.append(Clean(f"{how}-{when}-{mode}{a}", B1, how=how, when=when if when != "last" else "play1", mode=mode, abort=abort))
            # a client that shows up while the playbook ends by itself
            for how in ("stay", "disconnect", "close"):
                scns.append(Clean(f"late-{how}-{mode}{a}", B1 if q else B2, how=how, when="connected", nwait=True, mode=mode, abort=abort, bps=()))
    ck.explore("shutdown", scns, cap_s=400 if q else 850, what="the end of the playbook against what the client does, in every timing")
    return ck


if __name__ == "__main__":
    report.main_parts("C11", main, "C11_PART", ["shutdown", "process"])
