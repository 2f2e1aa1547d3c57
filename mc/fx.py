"""Small playbooks the functional checks run, and the driver that enumerates client behaviour over them."""
from __future__ import annotations

import os
import time

from . import boot, play

# Every fixture: name -> (inventory, {file: text}); the playbook is main.yml.  STRAT is filled in by extra vars.
HEAD = "- hosts: all\n  gather_facts: false\n  strategy: \"{{ STRAT }}\"\n"


def P(tasks: str, head: str = HEAD, **extra) -> str:
    """A play: tasks is an indented list."""
    out = head
    for k, v in extra.items():
        out += f"  {k}:\n{v}"
    return out + "  tasks:\n" + tasks


def T(name: str, ind: int = 2, **kw) -> str:
    """A probe task."""
    s = " " * ind
    args = kw.pop("args", None)
    a = ", ".join([f"id: {name}"] + [f"{k}: {v}" for k, v in (args or {}).items()])
    out = f"{s}- name: {name}\n{s}  probe: {{{a}}}\n"
    for k, v in kw.items():
        out += f"{s}  {k}: {v}\n"
    return out


def I(name: str, file: str, ind: int = 2, kind="include_tasks", **kw) -> str:  # noqa: E743
    s = " " * ind
    out = f"{s}- name: {name}\n{s}  {kind}: {file}\n"
    for k, v in kw.items():
        out += f"{s}  {k}: {v}\n"
    return out


FX: dict = {}


def fx(name, inv, **files):
    FX[name] = (inv, {k.replace("__", "/") + ".yml": v for k, v in files.items()})


fx("flat", "h1,", main=P(T("t1") + T("t2") + T("t3")))
fx("flat2", "h1,h2,", main=P(T("t1") + T("t2", when="inventory_hostname == 'h1'") + T("t3")))
fx("inc", "h1,", main=P(T("t1") + I("i1", "a.yml") + T("t2")), a=T("a1", 0) + I("i2", "b.yml", 0) + T("a2", 0), b=T("b1", 0) + T("b2", 0))
fx("incend", "h1,", main=P(T("t1") + I("i1", "a.yml") + T("t2") + T("t3")), a=T("a1", 0) + I("i2", "b.yml", 0), b=T("b1", 0) + T("b2", 0))
fx("inclast", "h1,", main=P(T("t1") + I("i1", "a.yml")), a=T("a1", 0) + I("i2", "b.yml", 0), b=T("b1", 0))
fx("loop", "h1,", main=P(T("t1") + I("i1", "a.yml", loop="[1, 2]") + T("t2")), a=T("a1", 0) + T("a2", 0))
fx(
    "block",
    "h1,",
    main=P(
        T("t1")
        + "  - name: blk\n    block:\n"
        + T("k1", 4)
        + I("i1", "a.yml", 4)
        + "    - name: inner\n      block:\n"
        + T("k2", 6, args={"failed": "true"})
        + "      rescue:\n"
        + T("r1", 6)
        + "      always:\n"
        + T("w1", 6)
        + T("t2")
    ),
    a="- name: ablk\n  block:\n" + T("a1", 2) + I("i2", "b.yml", 2) + T("a2", 2),
    b="- block:\n" + T("b1", 2) + "  always:\n" + T("b2", 2),
)
fx(
    "role",
    "h1,",
    main=HEAD
    + "  roles:\n  - r1\n  tasks:\n"
    + T("t1")
    + "  - name: ir\n    include_role:\n      name: r2\n"
    + T("t2"),
    roles__r1__tasks__main=T("ra", 0, changed_when="true", notify="rh"),
    roles__r1__handlers__main=T("rh", 0),
    roles__r2__tasks__main=T("rb", 0) + I("ri", "more.yml", 0) + T("rc", 0),
    roles__r2__tasks__more=T("rd", 0),
)
fx(
    "hand",
    "h1,",
    main=P(
        T("t1", changed_when="true", notify="[hd1, hd2]") + "  - meta: flush_handlers\n" + T("t2"),
        handlers=T("hd1") + I("hd2", "a.yml"),
    ),
    a=T("a1", 0) + T("a2", 0),
)
fx("meta", "h1,", main=P(T("t1") + "  - name: m1\n    meta: noop\n" + I("i1", "a.yml") + T("t2")), a="- name: m2\n  meta: noop\n" + T("a1", 0) + "- meta: clear_facts\n")
fx("plays", "h1,", main=P(T("t1") + I("i1", "a.yml")) + "\n" + P(T("u1") + I("i2", "a.yml") + T("u2")), a=T("a1", 0) + T("a2", 0))
fx(
    "hosts",
    "h1,h2,",
    main=P(T("t1") + I("i1", "\"{{ inventory_hostname }}.yml\"") + T("t2")),
    h1=T("a1", 0) + T("a2", 0),
    h2=T("b1", 0),
)
fx("hostinc", "h1,h2,", main=P(T("t1") + I("i1", "a.yml", when="inventory_hostname == 'h2'") + T("t2")), a=T("a1", 0) + I("i2", "b.yml", 0), b=T("b1", 0))
fx("imp", "h1,", main=P(T("t1") + I("im1", "b.yml", kind="import_tasks") + I("i1", "a.yml") + T("t2")), a=T("a1", 0) + I("im2", "b.yml", 0, kind="import_tasks") + T("a2", 0), b=T("b1", 0) + T("b2", 0))
fx("once", "h1,h2,", main=P(T("t1", run_once="true") + I("i1", "a.yml") + T("t2", delegate_to="h1")), a=T("a1", 0, loop="[1, 2]") + T("a2", 0, run_once="true"))
fx("serial", "h1,h2,", main=P(T("t1") + I("i1", "a.yml"), head=HEAD + "  serial: 1\n"), a=T("a1", 0))
fx("fail", "h1,h2,", main=P(T("t1") + T("t2", args={"failed": "\"{{ inventory_hostname == 'h1' }}\""}) + I("i1", "a.yml") + T("t3")), a=T("a1", 0) + T("a2", 0, args={"failed": "true"}, ignore_errors="true"))

SK = {"when": "false"}
fx(
    "skip",
    "h1,",
    main=P(T("t1") + I("i1", "a.yml") + T("t2", **SK) + T("t3")),
    a=T("a1", 0, **SK) + I("i2", "b.yml", 0, **SK) + I("i3", "b.yml", 0) + T("a2", 0) + T("a3", 0, **SK),
    b=T("b1", 0, **SK) + T("b2", 0),
)
fx(
    "always",
    "h1,",
    main=P(T("t1") + "  - block:\n" + I("i1", "a.yml", 4) + "    always:\n" + T("w1", 4) + I("i2", "c.yml", 4) + T("t2")),
    a=T("a1", 0) + "- block:\n" + I("i3", "b.yml", 2) + "  always:\n" + T("w2", 2) + T("w3", 2) + T("a2", 0),
    b=T("b1", 0, args={"failed": "true"}) + T("b2", 0),
    c=T("c1", 0),
)

fx(
    "cond",
    "h1,h2,",
    main=P(T("t1", vars="{v: 1}", register="r") + T("t2", vars="{v: 2}") + T("t3") + I("i1", "a.yml", vars="{v: 1}") + T("t4", when="inventory_hostname == 'h2'")),
    a=T("a1", 0) + T("a2", 0, vars="{v: 3, u: 5}"),
)
fx(
    "roledep",
    "h1,",
    main=P(T("t1") + "  - name: ir\n    include_role:\n      name: r3\n" + T("t2") + "  - import_role:\n      name: r5\n" + T("t3")),
    roles__r3__meta__main="dependencies:\n- r4\n",
    roles__r3__tasks__main="- name: blk\n  block:\n" + T("ra", 2, changed_when="true", notify="rh") + T("rb", 0),
    roles__r3__handlers__main=T("rh0", 0) + T("rh", 0),
    roles__r4__tasks__main=T("rc", 0),
    roles__r5__tasks__main="#\n" + T("rd", 0, changed_when="true", notify="rj"),
    roles__r5__handlers__main=T("rj", 0),
)
# characters that separate things elsewhere, hosts that differ after a dot only
FX["o:d d#1"] = (
    "h.a,h.b,",
    {
        "main.yml": P(T("t1") + '  - name: "i:1 #"\n    include_tasks: {file: "x:7 y.yml"}\n' + '  - name: "t:2 @ h.b"\n    probe: {id: t2}\n'),
        "x:7 y.yml": T("a1", 0) + I("i2", "\u00e9.yml", 0) + '- probe: {id: "a2"}\n',
        "\u00e9.yml": T("b1", 0),
    },
)


def files(names=None) -> dict:
    return {f"{n}/{f}": t for n, (_, fs) in FX.items() if names is None or n in names for f, t in fs.items()}


def main_of(name: str) -> str:
    return f"{play.ROOT}/{name}/main.yml"


def split(path: str) -> tuple[str, int]:
    p, n = path.rsplit(":", 1)
    return p, int(n)


def canon(log: list) -> list:
    """The executions' log with unique ids replaced by numbers in order of appearance."""
    seen: dict = {}
    out = []
    for e in log:
        if e[0] in ("start", "meta", "done"):
            out.append(e[:4] + (tuple(seen.setdefault(u, len(seen)) for u in e[4]),))
        else:
            out.append(e)
    return out


_base: dict = {}


def baseline(name: str, late=False, inventory=None):
    k = (name, late)
    if k not in _base:
        r = play.execute(main_of(name), None, inventory=inventory or FX[name][0], late=late, extra_vars={"STRAT": "linear"})
        _base[k] = r
    return _base[k]


def debug(name: str, script, prefix=(), late=False, run=None, limit_s=40, **kw):
    return play.execute(
        main_of(name), script, prefix=prefix, inventory=FX[name][0], late=late, extra_vars={"STRAT": "ansibug.dap.debug"}, run=run, limit_s=limit_s, **kw
    )


class Outcome:
    """What one job covered."""

    def __init__(self) -> None:
        self.runs = self.choices = self.steps = 0
        self.outcomes: set = set()
        self.violations: list = []
        self.samples: list = []

    def add(self, run, outcome) -> None:
        self.runs += 1
        self.choices += len(run.trail)
        self.steps += len(run.world.log) + len(run.client.messages if run.client else ())
        self.outcomes.add(repr(outcome))
        if len(self.samples) < 1:
            self.samples.append({"outcome": repr(outcome)[:400]})


_stop = None


def run_jobs(check, part: str, jobs, one, *, what="", max_runs=20000, max_depth=10**6, cap_s=800):
    """one(job, prefix) -> (Run, outcome, [(key, message)]).  Explores all choices of each job, in parallel."""
    import multiprocessing as mp

    global _stop
    from . import par

    only = os.environ.get("MC_ONLY")
    if only:
        jobs = [j for j in jobs if only in repr(j)]
    t0 = time.monotonic()
    _stop = mp.get_context("fork").Value("i", 0)
    every = bool(os.environ.get("MC_ALL"))

    def go(job):
        o = Outcome()
        complete = True
        todo = [[]]
        while todo:
            if (_stop.value and not every) or time.monotonic() - t0 > cap_s:
                complete = False
                break
            prefix = todo.pop()
            r, outcome, bad = one(job, prefix)
            bad = list(bad) + r.problems
            if bad:
                # again, from scratch: only what happens every time is reported
                r2, _, bad2 = one(job, prefix)
                bad2 = list(bad2) + r2.problems
                keys = {k for k, _ in bad2}
                for k, m in bad:
                    if k in keys:
                        key = f"{k}:{job_name(job)}"
                        o.violations.append((key, m, {"part": part, "job": repr(job), "choices": [(a, c) for a, _, c in r.trail]}))
                if o.violations:
                    if not all(v[0] in check.known for v in o.violations):
                        _stop.value = 1
                        if not every or r.rc == "hang":
                            complete = False
                            o.add(r, outcome)
                            break
            o.add(r, outcome)
            for i in range(len(r.trail) - 1, len(prefix) - 1, -1):
                if i < max_depth:
                    for alt in range(1, r.trail[i][1]):
                        todo.append([x[0] for x in r.trail[:i]] + [alt])
            if o.runs >= max_runs and todo:
                complete = False
                break
        return o, complete

    res = par.pmap(go, jobs)
    outcomes: set = set()
    runs = choices = steps = 0
    samples: list = []
    complete = True
    seen: set = set()
    for o, c in res:
        runs += o.runs
        choices += o.choices
        steps += o.steps
        outcomes |= o.outcomes
        samples += o.samples
        complete = complete and c
        for k, m, rep in o.violations:
            if k not in seen:
                seen.add(k)
                check.add_violation(k, m, rep)
    check.count(
        part,
        states=runs + choices,
        transitions=steps,
        traces=runs,
        distinct=len(outcomes),
        samples=samples[:3],
        what=what,
        complete=complete or bool(seen),
        jobs=len(jobs),
        client_decisions=choices,
        max_depth=None if max_depth >= 10**6 else max_depth,
        wall_s=round(time.monotonic() - t0, 2),
    )


def job_name(job) -> str:
    if isinstance(job, dict):
        return ",".join(f"{v}" for k, v in job.items())
    return str(job)

# ---------------------------------------------------------------- more playbooks, for the checks that visit every position

MORE: dict = {}


def _more(name, inv, **files):
    MORE[name] = (inv, {k.replace("__", "/") + ".yml": v for k, v in files.items()})


_more(
    "deep",
    "h1,",
    main=P(T("t1") + I("i1", "a.yml") + T("t2") + I("i4", "c.yml") + I("i5", "a.yml")),
    a="- block:\n" + T("a1", 2) + I("i2", "b.yml", 2),
    b="- block:\n  - block:\n" + T("b1", 4) + I("i3", "c.yml", 4),
    c=T("c1", 0),
)
_more(
    "incimp",
    "h1,",
    main=P(I("i1", "a.yml") + I("im0", "d.yml", kind="import_tasks") + T("t2")),
    a=I("im1", "b.yml", 0, kind="import_tasks"),
    b="- block:\n" + I("i2", "c.yml", 2) + "  always:\n" + I("im2", "d.yml", 2, kind="import_tasks"),
    c=I("im3", "d.yml", 0, kind="import_tasks") + "- block:\n" + T("c1", 2),
    d="- block:\n" + T("d1", 2) + "  - block:\n" + T("d2", 4),
)
_more("onceinc", "h1,h2,", main=P(T("t1") + I("i1", "a.yml", run_once="true") + T("t2")), a=T("a1", 0) + I("i2", "b.yml", 0, run_once="true") + T("a2", 0), b=T("b1", 0))
_more(
    "oncerole",
    "h1,h2,",
    main=P("  - name: ir\n    include_role:\n      name: r6\n    run_once: true\n" + T("t2")),
    roles__r6__tasks__main=T("ra", 0) + I("ri", "x.yml", 0),
    roles__r6__tasks__x=T("rx", 0),
)
_more(
    "refresh",
    "h1,",
    main=P(T("t1") + "  - meta: refresh_inventory\n" + I("i1", "a.yml") + T("t2")),
    a=T("a1", 0) + "- name: rf\n  meta: refresh_inventory\n" + T("a2", 0) + I("i2", "b.yml", 0) + T("a3", 0),
    b=T("b1", 0) + "- meta: refresh_inventory\n",
)
_more("refresh2", "h1,h2,", main=P(T("t1") + I("i1", "a.yml") + T("t2")), a=T("a1", 0) + "- meta: refresh_inventory\n" + T("a2", 0, when="inventory_hostname == 'h2'") + T("a3", 0))
_more(
    "handinc",
    "h1,h2,",
    main=P(
        T("t1", changed_when="true", notify="[hd1, hd2]")
        + "  - meta: flush_handlers\n"
        + T("t2", changed_when="inventory_hostname == 'h2'", notify="hd2")
        + "  - name: ir\n    include_role:\n      name: r7\n",
        handlers=I("hd1", "a.yml") + I("hd2", "a.yml") + T("hd3"),
    ),
    a=T("a1", 0) + I("i9", "b.yml", 0),
    b=T("b1", 0),
    roles__r7__tasks__main=T("ra", 0, changed_when="true", notify="rh"),
    roles__r7__handlers__main=I("rh", "rhx.yml", 0),
    roles__r7__handlers__rhx=T("rhx", 0),
    roles__r7__tasks__rhx=T("rhx", 0),
)
_more(
    "rescinc",
    "h1,h2,",
    main=P(
        T("t1")
        + "  - block:\n"
        + I("i1", "a.yml", 4)
        + T("n1", 4)
        + "    rescue:\n"
        + T("r1", 4)
        + I("i3", "c.yml", 4)
        + "    always:\n"
        + I("i4", "c.yml", 4)
        + T("t2")
    ),
    a=T("a1", 0) + I("i2", "b.yml", 0) + T("a2", 0),
    b=T("b1", 0) + T("b2", 0, args={"failed": "\"{{ inventory_hostname == 'h2' }}\""}) + T("b3", 0),
    c=T("c1", 0),
)
_more(
    "unrinc",
    "h1,h2,",
    main=P(T("t1") + I("i1", "a.yml") + "  - meta: clear_host_errors\n" + T("t2")),
    a=T("a1", 0) + I("i2", "b.yml", 0) + "- meta: clear_host_errors\n" + T("a2", 0),
    b=T("b1", 0, args={"unreachable": "\"{{ inventory_hostname == 'h1' }}\""}) + T("b2", 0),
)
_more(
    "endhost",
    "h1,h2,h3,",
    main=P(T("t1") + I("i1", "a.yml") + T("t2")) + "\n" + P(T("u1") + "  - meta: end_play\n    when: inventory_hostname == 'h2'\n" + T("u2")) + "\n" + P(T("v1")),
    a=T("a1", 0) + "- meta: end_host\n  when: inventory_hostname == 'h2'\n" + I("i2", "b.yml", 0) + T("a2", 0),
    b=T("b1", 0),
)
_more("recur", "h1,", main=P(T("t1") + I("i1", "a.yml") + T("t2")), a=T("a1", 0) + I("i2", "a.yml", 0, when="m is not defined", vars="{m: 1}") + T("a2", 0, when="m is defined"))
_more("dynloop", "h1,h2,", main=P(I("i1", "a.yml", loop="[1, 2]", loop_control="{loop_var: x}") + T("t2")), a=T("a1", 0) + I("i2", "\"{{ 'b' if x == 1 else 'c' }}.yml\"", 0, loop="[1, 2]", when="inventory_hostname == 'h1' or x == 2"), b=T("b1", 0), c=T("c1", 0) + T("c2", 0))
_more("batches", "h1,h2,h3,", main=P(T("t1") + I("i1", "a.yml") + T("t2"), head=HEAD + "  serial: 2\n") + "\n" + P(I("i2", "a.yml") + T("u1")), a=T("a1", 0))
_more(
    "endrole",
    "h1,",
    main=HEAD + "  roles:\n  - r8\n  pre_tasks:\n" + T("p1") + I("i0", "a.yml") + "  tasks:\n" + "  - name: ir\n    include_role:\n      name: r8\n      tasks_from: two\n      apply: {tags: [x]}\n" + T("t2") + "  post_tasks:\n" + T("z1"),
    a=T("a1", 0),
    roles__r8__tasks__main=T("ra", 0) + I("ri", "two.yml", 0) + T("rb", 0),
    roles__r8__tasks__two=T("rc", 0) + "- block:\n" + I("rj", "three.yml", 2),
    roles__r8__tasks__three=T("rd", 0),
)
_more("emptyinc", "h1,", main=P(T("t1") + I("i1", "a.yml") + T("t2") + I("i2", "b.yml") + T("t3")), a="---\n", b=I("i3", "a.yml", 0))
_more("fatal", "h1,h2,h3,", main=P(T("t1") + I("i1", "a.yml") + T("t2"), head=HEAD + "  any_errors_fatal: true\n  force_handlers: true\n", handlers=T("hd")), a=T("a1", 0, changed_when="true", notify="hd") + T("a2", 0, args={"failed": "\"{{ inventory_hostname == 'h2' }}\""}) + T("a3", 0))
_more("maxfail", "h1,h2,h3,", main=P(T("t1", args={"failed": "\"{{ inventory_hostname == 'h2' }}\""}) + T("t2") + T("t3", args={"failed": "\"{{ inventory_hostname == 'h1' }}\""}) + T("t4"), head=HEAD + "  max_fail_percentage: 40\n"))
_more("facts", "h1,h2,", main=P("  - name: sf\n    set_fact:\n      zz: \"{{ inventory_hostname }}\"\n" + T("t2", args={"see": "\"{{ zz }} {{ hostvars['h1'].zz }}\""}, register="rr") + T("t3", args={"see": "\"{{ rr.changed }}\""}, when="zz == 'h2'") + "  - name: av\n    add_host:\n      name: h9\n      groups: gg\n" + "  - name: gb\n    group_by:\n      key: \"g_{{ inventory_hostname }}\"\n") + "\n" + P(T("u1", args={"see": "\"{{ groups.gg }} {{ zz }}\""}), head=HEAD.replace("all", "g_h1:gg")))
_more("vault", "h1,", main=P(T("t1", args={"see": "\"{{ lookup('vars', 'v1') }} {{ q('sequence', 'end=3') }}\""}) + T("t2", loop="\"{{ range(3) | list }}\"", loop_control="{index_var: ix, label: \"{{ item }}\"}", args={"see": "\"{{ ix }}{{ item }}\""}, until="true") + T("t3", args={"failed": "true"}, register="rz", ignore_errors="true") + T("t4", when="rz is failed", args={"see": "\"{{ rz.msg }}\""}), vars="    v1: \"{{ inventory_hostname }}!\"\n"))

_more(
    "incrole",
    "h1,",
    main=P(T("t1") + I("i1", "a.yml") + T("t2")),
    a="- name: ir\n  include_role:\n    name: r9\n" + T("a1", 0) + "- block:\n  - name: ir2\n    include_role:\n      name: r9\n      tasks_from: two\n" + T("a2", 2),
    roles__r9__tasks__main=T("ra", 0),
    roles__r9__tasks__two=T("rb", 0),
)


def use_more():
    FX.update(MORE)
