"""C26: the same playbooks with and without the debugger, under every kind of debugger activity."""
import os
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import boot, fx, par, play, procs, report, struct  # noqa: E402

CMDS = ["continue", "next", "stepIn", "stepOut", "all"]
MARKS: dict = {}
FILTERS = ("on_error", "on_unreachable", "on_skipped")
STRATS = {"linear": "ansibug.dap.debug"}
ID = re.compile(r"[0-9a-f]{8,12}-[0-9a-f-]{27,}|/dev/shm/mc-\w+|\b[0-9]+\.[0-9]{3,}\b")


def picture(run):
    """What the playbook did: tasks in order, values they saw, results, statistics, exit status."""
    w = run.world
    out = []
    for e in fx.canon(w.log):
        if e[0] == "done":
            out.append(e[:5])
        elif e[0] == "end":
            continue
        else:
            out.append(tuple(x for x in e if isinstance(x, (str, tuple, bool, int))))
    return [ID.sub("*", repr(x)) for x in out], [ID.sub("*", repr(x)) for x in w.results], run.rc


_base: dict = {}


def base_of(name, late, extra):
    k = (name, late, extra)
    if k not in _base:
        _base[k] = picture(play.execute(fx.main_of(name), None, inventory=fx.FX[name][0], late=late, extra_vars={"STRAT": "linear"}, extra_args=extra))
    return _base[k]


def short(x, y):
    """x from shortly before where it differs from y."""
    i = len(os.path.commonprefix([x, y]))
    return x if len(x) < 500 else f"{x[:200]} ... {x[max(i - 100, 200) : i + 300]}"


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"at {i}: {short(y, x)} instead of {short(x, y)}"
    if len(a) != len(b):
        longer = a if len(a) > len(b) else b
        return f"{len(b)} entries instead of {len(a)}; {longer[min(len(a), len(b))][:300]} is {'missing' if len(a) > len(b) else 'extra'}"
    return None


def inspect(c, d, tid, everything):
    """Looks at everything there is to see, changing nothing."""
    st = c.request(d.StackTraceRequest(thread_id=tid))
    c.request(d.ThreadsRequest())
    for f in st.stack_frames:
        for ctx, ex in (("watch", "inventory_hostname"), ("repl", "1 + 1"), ("clipboard", "nosuch"), ("repl", "!t play_hosts"), ("watch", "vars | length"), ("repl", "("), ("repl", "!help"), ("watch", "hostvars[inventory_hostname].keys() | list | length")):
            c.request(d.EvaluateRequest(expression=ex, frame_id=f.id, context=ctx))
        sc = c.request(d.ScopesRequest(frame_id=f.id))
        for s in sc.scopes:
            if not everything and s.name not in ("Module Options", "Module Result"):
                continue
            todo = [(s.variables_reference, 0)]
            while todo:
                ref, depth = todo.pop()
                r = c.request(d.VariablesRequest(variables_reference=ref))
                if depth < 2 and everything:
                    todo += [(v.variables_reference, depth + 1) for v in r.variables if v.variables_reference and v.name not in ("hostvars", "vars", "groups")][:6]
        c.request(d.ScopesRequest(frame_id=f.id))


def one(job, prefix):
    name, act, late, extra = job["fx"], job["act"], job.get("late", False), tuple(job.get("extra", ()))
    base = base_of(name, late, extra)
    run = play.Run(prefix)
    d = play.M.dap
    bad: list = []
    where = f"{name} ({act}{', late results' if late else ''}{' ' + ' '.join(extra) if extra else ''})"
    cmds = []

    def script(c):
        if act == "none":
            c.configure(filters=())
        else:
            bps = {}
            for p, ms in MARKS.items():
                if p.startswith(f"{play.ROOT}/{name}/"):
                    bps[p] = [(ln, None) for ln, t in ms if t]
            c.configure(bps if act != "filters" else {}, filters=FILTERS if act != "breakpoints" else ())
        k = 0
        while True:
            e = c.wait_stop()
            if e is None:
                return
            if act in ("inspect", "look"):
                inspect(c, d, e.thread_id, act == "inspect")
            if act in CMDS:
                cmd = act
            elif act in ("choose", "look") and k < job["depth"]:
                cmd = CMDS[run.choose(len(CMDS), "command")]
            else:
                cmd = "continue"
            k += 1
            cmds.append(cmd)
            if cmd in ("continue", "all"):
                c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=cmd == "continue"))
            elif cmd == "next":
                c.request(d.NextRequest(thread_id=e.thread_id))
            elif cmd == "stepIn":
                c.request(d.StepInRequest(thread_id=e.thread_id))
            else:
                c.request(d.StepOutRequest(thread_id=e.thread_id))

    inv = fx.FX[name][0]
    play.execute(fx.main_of(name), script, inventory=inv, late=late, extra_vars={"STRAT": "ansibug.dap.debug"}, extra_args=extra, run=run, limit_s=60)
    if not run.problems:
        log, res, rc = picture(run)
        for key, a, b in (("order", base[0], log), ("results", base[1], res)):
            m = diff(a, b)
            if m:
                bad.append((key, f"{where} after {cmds[:12]}: with the debugger {m}"))
        if rc != base[2]:
            bad.append(("rc", f"{where} after {cmds[:12]}: exit status {rc} instead of {base[2]} {run.data.get('exception', '')[-600:]}"))
    return run, (name, act, len(cmds), run.rc), bad[:2]


# ------------------------------------------------------------------------------------------------ real processes

REAL = {
    "loops": "- hosts: all\n  gather_facts: false\n  tasks:\n  - command: echo {{ item }}\n    loop: [1, 2]\n    register: r\n  - debug: {msg: \"{{ r.results | map(attribute='stdout') | list }}\"}\n  - include_tasks: a.yml\n  - command: \"false\"\n    ignore_errors: true\n  - block:\n    - command: \"false\"\n    rescue:\n    - debug: {msg: rescued}\n  - command: \"true\"\n    notify: h\n  handlers:\n  - name: h\n    debug: {msg: handler}\n",
    "fail": "- hosts: all\n  gather_facts: false\n  tasks:\n  - command: \"false\"\n    when: inventory_hostname == 'h1'\n  - include_tasks: a.yml\n- hosts: h2\n  gather_facts: false\n  strategy: free\n  tasks:\n  - debug: {msg: second}\n",
    "meta": "- hosts: all\n  gather_facts: false\n  serial: 1\n  tasks:\n  - include_role: {name: rr}\n  - meta: end_host\n    when: inventory_hostname == 'h1'\n  - set_fact: {x: 1}\n  - assert: {that: x == 1}\n",
    "imp": "- import_playbook: other.yml\n- hosts: h1\n  gather_facts: false\n  roles: [rr]\n  tasks:\n  - import_tasks: a.yml\n",
    "syntax": "- hosts: all\n  tasks:\n  - nosuchmodule: {}\n",
    "nohost": "- hosts: nobody\n  tasks: []\n- hosts: all\n  gather_facts: false\n  tasks:\n  - fail: {msg: the end}\n",
}
SIDE = {
    "a.yml": "- command: echo in a\n- include_tasks: b.yml\n- command: echo end of a\n  changed_when: false\n",
    "b.yml": "- debug: {msg: in b}\n",
    "other.yml": "- hosts: all\n  gather_facts: false\n  tasks:\n  - debug: {msg: other}\n",
    "roles/rr/tasks/main.yml": "- command: echo role\n- include_tasks: two.yml\n",
    "roles/rr/tasks/two.yml": "- debug: {msg: two}\n",
}
SECRET = re.compile(r"\"(start|end|delta)\": \"[^\"]*\"|'(start|end|delta)': '[^']*'|/dev/shm/mc-\w+/p-\w+|[0-9]:[0-9]{2}:[0-9]{2}\.[0-9]+")


def real(job):
    import json
    import subprocess
    import tempfile

    name, act = job
    files = dict(SIDE, **{"main.yml": REAL[name]})
    d0 = tempfile.mkdtemp(prefix="b-", dir=boot.scratch())
    for n, t in files.items():
        os.makedirs(os.path.dirname(f"{d0}/{n}") or d0, exist_ok=True)
        with open(f"{d0}/{n}", "w") as f:
            f.write(t)
    env = dict(os.environ, ANSIBLE_HOME=d0 + "/home", TMPDIR=d0)
    args = ["-i", "h1,h2,", "-c", "local", "-v", "-f", "1"]
    p = subprocess.run([sys.executable, "-m", "ansible", "playbook", f"{d0}/main.yml", *args], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d0, timeout=120)
    want = p.stdout.decode()
    pr = procs.Proc(files, inventory="h1,h2,", extra=("-v", "-f", "1"))
    bad = []
    stops = 0
    try:
        M = procs.M
        dd = M.dap
        try:
            cl = pr.connect()
        except Exception:
            cl = None  # the playbook ends before it gets that far
        if cl:
            cl.config()
            if act != "none":
                for n, t in files.items():
                    if n.endswith(".yml"):
                        cl.breakpoints(f"{pr.d}/{n}", [ln for ln, x in struct.marks(t) if x])
                cl.ask(dd.SetExceptionBreakpointsRequest(filters=list(FILTERS), filter_options=[], exception_options=[]))
            cl.ask(dd.ConfigurationDoneRequest())
            while True:
                e = cl.event(dd.StoppedEvent)
                if e is None:
                    break
                stops += 1
                st = cl.ask(dd.StackTraceRequest(thread_id=e.thread_id))
                for f in st.stack_frames:
                    for s in cl.ask(dd.ScopesRequest(frame_id=f.id)).scopes:
                        cl.ask(dd.VariablesRequest(variables_reference=s.variables_reference))
                if act == "step":
                    cl.send(dd.StepInRequest(thread_id=e.thread_id))
                else:
                    cl.send(dd.ContinueRequest(thread_id=e.thread_id, single_thread=True))
        rc = pr.wait(60)
        got = pr.out()
    finally:
        pr.close()
    clean = lambda s, d: [SECRET.sub("*", ln.replace(d, "D")) for ln in s.splitlines() if "DEPRECATION" not in ln]  # noqa: E731
    m = diff(clean(want, d0), clean(got, pr.d))
    if rc != p.returncode:
        bad.append(("rc", f"process {name} ({act}): exit status {rc} instead of {p.returncode}\n{got[-600:]}"))
    elif m:
        bad.append(("output", f"process {name} ({act}): with the debugger the output differs {m}"))
    if act != "none" and not stops and name not in ("syntax",):
        bad.append(("stops", f"process {name}: nothing stopped"))
    del json
    return job, stops, bad


def functional():
    quick = report.tier() == "quick"
    fx.use_more()
    fs = fx.files()
    play.setup(fs)
    for k, t in fs.items():
        if "/meta/" not in k:
            MARKS[f"{play.ROOT}/{k}"] = struct.marks(t)
    chk = report.Check("C26", assumptions=["in the part 'playbooks' tasks execute in the playbook process instead of forked workers"])
    jobs = []
    for name, (inv, _) in fx.FX.items():
        for late in (False, True) if inv.count(",") > 1 else (False,):
            for act in ("none", "filters", "breakpoints", "inspect", "next", "stepIn", "stepOut", "all"):
                jobs.append({"fx": name, "act": act, "late": late})
            jobs.append({"fx": name, "act": "choose", "late": late, "depth": 2 if quick else 4})
            if not quick:
                jobs.append({"fx": name, "act": "look", "late": late, "depth": 2})
        for extra in (["--check", "--diff"], ["--limit", "h1"], ["--start-at-task", "t2"], ["--force-handlers"], ["--tags", "x"], ["-e", "zzz=1"]):
            for act in ("none", "inspect", "stepIn") if not quick else ("inspect",):
                jobs.append({"fx": name, "act": act, "extra": extra})
    fx.run_jobs(chk, "playbooks", jobs, one, what="all playbooks x debugger activity (none, filters, breakpoints everywhere, inspecting everything, each step command, all command sequences up to a depth) against the run without the debugger", cap_s=300 if quick else 850)
    return chk


def processes():
    import time

    quick = report.tier() == "quick"
    ck = report.Check("C26")
    t = time.monotonic()
    jobs = [(n, a) for n in REAL for a in (("continue",) if quick and n not in ("loops",) else ("none", "continue", "step"))]
    out = par.pmap(real, jobs)
    for job, stops, bad in out:
        if bad:  # again: only what happens every time is reported
            keys = {k for k, _ in real(job)[2]}
            bad = [x for x in bad if x[0] in keys]
        for k, m in bad:
            ck.add_violation(f"process:{k}:{'-'.join(job)}", m, {"part": "processes", "scenario": list(job)})
    ck.count("processes", states=sum(s for _, s, _ in out) + len(jobs), transitions=sum(s for _, s, _ in out), traces=len(jobs) * 2, distinct=len({(j[0], s) for j, s, _ in out}), samples=[list(j) for j in jobs[:3]], what="real ansible-playbook processes with forked workers, output and exit status with and without the debugger", wall_s=round(time.monotonic() - t, 1))
    return ck


def main():
    return processes() if os.environ["C26_PART"] == "processes" else functional()


if __name__ == "__main__":
    report.main_parts("C26", main, "C26_PART", ["processes", "playbooks"])
