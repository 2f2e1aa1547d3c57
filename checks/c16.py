"""C16: every filter setting over every outcome of a task in every part of nested blocks, includes and roles."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import fx, play, report  # noqa: E402

# One host per outcome; a structure has one task ("hole") that ends differently on every host.
OUT = ["ok", "fail", "ign", "unr", "ignunr", "skip", "msk", "fwhen", "both", "exc"]
INV = ",".join(OUT) + ","
H = "inventory_hostname"
FILTERS = [f for n in range(4) for f in itertools.combinations(["on_error", "on_unreachable", "on_skipped"], n)]


def hole(ind=0, **kw):
    return fx.T(
        "hole",
        ind,
        args={
            "failed": f"\"{{{{ {H} in ['fail', 'ign', 'both'] }}}}\"",
            "unreachable": f"\"{{{{ {H} in ['unr', 'ignunr', 'both'] }}}}\"",
            "skipped": f"\"{{{{ {H} == 'msk' }}}}\"",
            "result": f"\"{{{{ {{'msg': 'the text of ' ~ {H}, 'stdout': 'not this', 'more': [1]}} }}}}\"",
            "x": f"\"{{{{ nosuch if {H} == 'exc' else 1 }}}}\"",
        },
        when=f"{H} != 'skip'",
        ignore_errors=f"\"{{{{ {H} == 'ign' }}}}\"",
        ignore_unreachable=f"\"{{{{ {H} == 'ignunr' }}}}\"",
        failed_when=f"\"{H} in ['fail', 'ign', 'both', 'fwhen']\"",
        **kw,
    )


FAIL = {"failed": "true"}


def ind(text, n):
    return "".join(" " * n + ln + "\n" for ln in text.splitlines())


def part(kind, inner, n):
    """A block with the inner text in one of its parts (text at indent 0)."""
    t = lambda name, **k: fx.T(f"{name}{n}", 2, **k)  # noqa: E731
    i = ind(inner, 2)
    return {
        "B": "- block:\n" + i + "  rescue:\n" + t("r"),
        "BA": "- block:\n" + i + "  rescue:\n" + t("r") + "  always:\n" + t("w"),
        "Bn": "- block:\n" + i + "  always:\n" + t("w"),
        "R": "- block:\n" + t("f", args=FAIL) + "  rescue:\n" + i,
        "RA": "- block:\n" + t("f", args=FAIL) + "  rescue:\n" + i + "  always:\n" + t("w"),
        "A": "- block:\n" + t("k") + "  rescue:\n" + t("r") + "  always:\n" + i,
        "Af": "- block:\n" + t("f", args=FAIL) + "  rescue:\n" + t("r") + "  always:\n" + i,
        "An": "- block:\n" + t("k") + "  always:\n" + i,
    }[kind]


PARTS = ["B", "BA", "Bn", "R", "RA", "A", "Af", "An"]
CORE = ["B", "Bn", "R", "A"]
LINKS = ["", "include_tasks", "import_tasks", "include_role", "import_role", "include_tasks loop"]
FS: dict = {}


def link(name, kind, inner, n, extra):
    if not kind:
        return inner
    word = kind.split()[0]
    if "role" in word:
        extra[f"roles/q{n}/tasks/main.yml"] = inner
        return f"- {word}:\n    name: q{n}\n"
    extra[f"x{n}.yml"] = inner
    return fx.I(f"i{n}", f"x{n}.yml", 0, kind=word, **({"loop": "[1, 2]"} if "loop" in kind else {}))


def build(name, outer, mid, inner, last, the_hole=None, head=fx.HEAD):
    """outer block part > link > inner block part > link > hole"""
    extra: dict = {}
    body = link(name, last, the_hole or hole(), 1, extra)
    if inner:
        body = part(inner, body, 2)
    body = link(name, mid, body, 2, extra)
    if outer:
        body = part(outer, body, 1)
    fs = {"main.yml": head + "  tasks:\n" + fx.T("t1") + ind(body, 2) + fx.T("t2")}
    fs.update(extra)
    FS[name] = fs


def build_all(quick):
    for lk in LINKS:
        build(f"p-{lk}", "", lk, "", "")
        for o in PARTS:
            build(f"{o}-{lk}", o, lk, "", "")
            for i in PARTS:
                if quick and (o not in CORE or i not in CORE):
                    continue
                build(f"{o}-{lk}-{i}", o, lk, i, "")
                if not quick:
                    for l2 in LINKS[1:]:
                        build(f"{o}-{lk}-{i}-{l2}", o, lk, i, l2)
    # ways of a task to end that are the same on all hosts
    odd = {
        "loop": hole(loop="[1, 2]"),
        "loopone": fx.T("hole", 0, args={"failed": "\"{{ item == 2 }}\""}, loop="[1, 2, 3]"),
        "looplastok": fx.T("hole", 0, args={"failed": "\"{{ item == 1 }}\""}, loop="[1, 2]", ignore_errors="true"),
        "loopskip": fx.T("hole", 0, loop="[1, 2]", when="item > 5"),
        "loopsome": fx.T("hole", 0, loop="[1, 2]", when="item > 1"),
        "loopempty": fx.T("hole", 0, loop="[]"),
        "until": fx.T("hole", 0, args=FAIL, until="false", retries="1", delay="0"),
        "once": fx.T("hole", 0, args=FAIL, run_once="true"),
        "onceskip": fx.T("hole", 0, run_once="true", when="false"),
        "delegate": hole(delegate_to="ok"),
        "incskip": fx.I("hole", "x9.yml", 0, when="false"),
        "incsome": fx.I("hole", "x9.yml", 0, when=f"{H} == 'ok'"),
        "incloopskip": fx.I("hole", "x9.yml", 0, loop="[1, 2]", when="item > 5"),
        "incfail": fx.I("hole", "\"{{ nosuch }}\"", 0),
        "roleskip": "- name: hole\n  include_role:\n    name: q9\n  when: false\n",
        "nostdout": fx.T("hole", 0, args={"failed": "true", "result": "{msg: null}"}),
        "subfail": fx.T("hole", 0, args={"result": "{msg: null, results: [{failed: true}]}"}),
        "subskip": fx.T("hole", 0, args={"result": "{msg: null, results: [{skipped: true}]}"}),
        "subsome": fx.T("hole", 0, args={"result": "{msg: null, results: [{skipped: true}, {}]}"}),
        "failedwhenfalse": fx.T("hole", 0, args=FAIL, failed_when="false"),
        "ignblock": "- block:\n" + fx.T("hole", 2, args=FAIL) + "  ignore_errors: true\n",
        "ignunrblock": "- block:\n" + fx.T("hole", 2, args={"unreachable": "true"}) + "  ignore_unreachable: true\n",
        "ignoff": "- block:\n" + fx.T("hole", 2, args=FAIL, ignore_errors="false") + "  ignore_errors: true\n",
        "whenblock": "- block:\n" + fx.T("hole", 2) + "  when: false\n",
        "assert": "- name: hole\n  assert:\n    that: false\n",
        "failmod": "- name: hole\n  fail:\n    msg: the text\n",
        "notify": fx.T("hole", 0, changed_when="true", notify="hd") + "- meta: flush_handlers\n",
    }
    for k, text in odd.items():
        for o in ["", "B", "R", "A"]:
            try:
                build(f"odd {k} {o}", o, "", "", "", text)
            finally:
                FS[f"odd {k} {o}"].update({"x9.yml": fx.T("z1", 0), "roles/q9/tasks/main.yml": fx.T("z1", 0)})
                if k == "notify":
                    FS[f"odd {k} {o}"]["main.yml"] += "  handlers:\n" + fx.T("hd", 2, args=FAIL)
    for k, v in {
        "any_errors_fatal": "  any_errors_fatal: true\n",
        "ignore_errors": "  ignore_errors: true\n",
        "serial": "  serial: 3\n",
        "max_fail": "  max_fail_percentage: 10\n",
        "force_handlers": "  force_handlers: true\n",
    }.items():
        for o in ["", "B", "R", "A"]:
            build(f"play {k} {o}", o, "", "", "", head=fx.HEAD + v)
    FS["odd missing include"] = {"main.yml": fx.HEAD + "  tasks:\n" + fx.T("t1") + fx.I("hole", "nothere.yml")}


def handled(name, task):
    """Whether a failure of the task is rescued, from the way the structure was built."""
    if task != "hole":
        return None
    p = name.split("-")
    return any(x in ("B", "BA") for x in p)


def expected(name, log, filters):
    out = []
    bad = []
    for host, path, task, kind, rescued, result, ignored, fields, action in log:
        if action == "meta":
            continue
        stop = None
        if kind == "failed":
            if not ignored and not rescued:
                stop = "on_error"
            if "-" in name and task == "hole" and not ignored and handled(name, task) != bool(rescued):
                bad.append(("oracle", f"{name}: Ansible says rescued={rescued} for {task} on {host}"))
        elif kind == "unreachable":
            if not fields.get("ignore_unreachable"):
                stop = "on_unreachable"
        elif kind == "skipped":
            stop = "on_skipped"
        if stop in filters:
            out.append((host, task, path, stop, result))
    return out, bad


WORDS = {"on_error": "failed", "on_unreachable": "unreachable", "on_skipped": "skipped"}


def one(job, prefix):
    name, filters, late = job["fx"], job["filters"], job.get("late", False)
    change = job.get("change")
    base = fx.baseline(name, late)
    run = play.Run(prefix)
    d = play.M.dap
    want, bad = expected(name, base.world.fails, filters)
    got = []
    where = f"{name} with {filters}{' (late results)' if late else ''}"

    def script(c):
        nonlocal want
        if change is None:
            c.configure(filters=filters)
        else:
            # the filters are changed while the playbook is stopped at its hole
            c.configure({f"{play.ROOT}/{name}/main.yml": [(job["line"], None)]}, filters=change)
        n = 0
        while True:
            e = c.wait_stop()
            if e and e.reason == d.StoppedReason.BREAKPOINT:
                n += 1
                if n == len(job["hosts"]):
                    c.request(d.SetExceptionBreakpointsRequest(filters=list(filters), filter_options=[], exception_options=[]))
                c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=True))
                continue
            k = len(got)
            if e is None:
                if k < len(want):
                    bad.append(("missed", f"{where}: after {len(got)} stops the playbook ended, {want[k][:4]} was to come"))
                return
            th = {t.id: t.name for t in c.request(d.ThreadsRequest()).threads}.get(e.thread_id)
            st = c.request(d.StackTraceRequest(thread_id=e.thread_id)).stack_frames
            top = st[0]
            got.append((th, top.name, str(e.reason)))
            if k >= len(want):
                bad.append(("extra", f"{where}: stop at {top.name} on {th} ({e.description}: {(e.text or '')[:80]!r}) after all {len(want)} expected"))
                c.q.stop()
                return
            host, task, path, kind, result = want[k]
            if (th, top.name, f"{top.source.path}:{top.line}") != (host, task, path):
                bad.append(("where", f"{where}: stop {k} is at {top.name} ({top.source.path}:{top.line}) on {th}, expected at {task} ({path}) on {host}"))
                c.q.stop()
                return
            if e.reason != d.StoppedReason.EXCEPTION:
                bad.append(("reason", f"{where}: stop at {task} on {host} has the reason {e.reason}"))
            if WORDS[kind] not in (e.description or "").lower():
                bad.append(("kind", f"{where}: stop at {task} on {host} for {kind} is described as {e.description!r}"))
            if kind != "on_skipped" and isinstance(result.get("msg"), str) and result["msg"] not in (e.text or ""):
                bad.append(("text", f"{where}: stop at {task} on {host}: the text {e.text!r} does not have {result['msg']!r}"))
            sc = c.request(d.ScopesRequest(frame_id=top.id)).scopes
            if sc[0].name != "Module Result":
                bad.append(("result", f"{where}: stop at {task} on {host} offers {[s.name for s in sc]}"))
            else:
                if any(x.named_variables != len(c.request(d.VariablesRequest(variables_reference=x.variables_reference)).variables) for x in sc[:2]):
                    bad.append(("count", f"{where}: stop at {task} on {host}: the number of variables is not the one of the scope {sc[:2]}"))
                vs = {v.name: v.value for v in c.request(d.VariablesRequest(variables_reference=sc[0].variables_reference)).variables}
                miss = [k2 for k2, v in result.items() if k2 not in vs or (isinstance(v, (int, bool)) and vs[k2] != repr(v)) or (isinstance(v, str) and v != "<traceback>" and v not in vs[k2] and repr(v) != vs[k2])]
                if miss:
                    bad.append(("result", f"{where}: stop at {task} on {host}: the result offered lacks {miss} of {result}: {vs}"[:700]))
            c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=run.choose(2, "single") == 0 if k < 1 and name.startswith("p-") else True))

    fx.debug(name, script, late=late, run=run)
    if not bad and not run.problems and run.rc != base.rc:
        bad.append(("rc", f"{where}: exit status {run.rc} instead of {base.rc}"))
    return run, (name, tuple(filters), tuple(got)), bad[:2]


def main():
    quick = report.tier() == "quick"
    build_all(quick)
    for n, fs in FS.items():
        fx.FX[n] = (INV, fs)
    play.setup(fx.files(set(FS)))
    chk = report.Check("C16", assumptions=["tasks execute in the playbook process instead of forked workers", "meta tasks, which have no result, are left out"])
    jobs = []
    n = "p-"
    line = FS[n]["main.yml"].split("- name: hole")[0].count("\n") + 1
    for f in FILTERS:
        for g in FILTERS:
            if f != g:
                jobs.append({"fx": n, "filters": f, "change": g, "line": line, "hosts": OUT, "late": True})
    jobs.append({"fx": "odd missing include", "filters": ("on_error",)})
    for n in FS:
        if n == "odd missing include":
            continue
        some = [FILTERS, FILTERS[1:4] + FILTERS[-1:], [FILTERS[1], FILTERS[6]]][0 if n.startswith("p-") else 1 if n.count("-") < 2 else 2]
        for f in FILTERS if not quick else some:
            jobs.append({"fx": n, "filters": f})
            if not quick or n.startswith("p-"):
                jobs.append({"fx": n, "filters": f, "late": True})
    fx.run_jobs(chk, "filters", jobs, one, what="8 filter settings x 10 outcomes (one host each) x every part of one and two nested blocks x direct, included, imported, role, loop", cap_s=300 if quick else 850, max_depth=1)
    return chk.finish()


if __name__ == "__main__":
    report.main("C16", main)
