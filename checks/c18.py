"""C18: all sequences of edits at a stopped task against a model of what the task, later tasks and other hosts see."""
import ast
import copy
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import fx, play, report  # noqa: E402

OPTS = "o1: 1, o2: \"{{ ps }}\", o3: {x: {y: 1}, z: [1, 2]}, o4: \"{{ pd }}\", o5: \"{{ hd }}\", o6: \"{{ tv | default('none') }}\""
RAW = {"o1": 1, "o2": ("var", "ps"), "o3": {"x": {"y": 1}, "z": [1, 2]}, "o4": ("var", "pd"), "o5": ("var", "hd"), "o6": ("var", "tv")}
PLAYVARS = "    ps: text\n    pd: {k: {n: 1}, l: [1, [2, 3]], 5: five, t: a}\n"
TASKS = (
    "  - name: t0\n    set_fact:\n      hd: {a: [1, {z: 2}], s: hs}\n"
    + f"  - name: t1\n    probe: {{id: t1, {OPTS}}}\n    vars: {{tv: {{q: [1]}}}}\n"
    + f"  - name: t2\n    probe: {{id: t2, {OPTS}}}\n"
)
NEXT = fx.HEAD + "  tasks:\n" + f"  - name: t3\n    probe: {{id: t3, {OPTS.replace('{{ ps }}', '{{ ps | default(0) }}').replace('{{ pd }}', '{{ pd | default(0) }}')}}}\n"
fx.fx("vars", "h1,h2,", main=fx.HEAD + "  vars:\n" + PLAYVARS + "  tasks:\n" + TASKS + "\n" + NEXT)
fx.fx("vars1", "h1.x,h1.y,", main=fx.HEAD + "  serial: 1\n  vars:\n" + PLAYVARS + "  tasks:\n" + TASKS + "\n" + NEXT)
fx.fx(
    "varsh",
    "h1.x,",
    main=fx.HEAD
    + "  vars:\n"
    + PLAYVARS
    + "  handlers:\n"
    + f"  - name: t1\n    probe: {{id: t1, {OPTS}}}\n    vars: {{tv: {{q: [1]}}}}\n"
    + "  tasks:\n"
    + "  - name: t0\n    set_fact:\n      hd: {a: [1, {z: 2}], s: hs}\n    changed_when: true\n    notify: t1\n  - meta: flush_handlers\n"
    + "  - name: n2\n    set_fact: {qq: 1}\n    changed_when: true\n    notify: t1\n  - meta: flush_handlers\n"
    + f"  - name: t2\n    probe: {{id: t2, {OPTS}}}\n"
    + "\n"
    + NEXT,
)
VARS = {
    "ps": "text",
    "pd": {"k": {"n": 1}, "l": [1, [2, 3]], 5: "five", "t": "a"},
    "hd": {"a": [1, {"z": 2}], "s": "hs"},
    "tv": {"q": [1]},
}
SC = {"opt": "Module Options", "task": "Task Variables", "host": "Host Variables", "glob": "Global Variables"}

# (how, scope, path to the container, name, expression, value or ERR)
ERR = object()
SETS = [
    ("set", "opt", (), "o1", "7", 7),
    ("set", "opt", (), "o2", "ps ~ '!'", lambda tv: tv["ps"] + "!" if isinstance(tv["ps"], str) else str(tv["ps"]) + "!"),
    ("set", "opt", (), "new", "{'a': [1]}", {"a": [1]}),
    ("set", "opt", (), "o4", "'gone'", "gone"),
    ("set", "opt", ("o3",), "x", "5", 5),
    ("set", "opt", ("o3", "x"), "y", "[6]", [6]),
    ("set", "opt", ("o3", "z"), "1", "'six'", "six"),
    ("set", "opt", ("o4", "k"), "n", "2", 2),
    ("set", "opt", ("o5", "a", "1"), "z", "3", 3),
    ("set", "opt", ("o3", "z"), "9", "1", ERR),
    ("set", "opt", ("o3", "z"), "x", "1", ERR),
    ("set", "opt", (), "o1", "nosuch", ERR),
    ("set", "opt", (), "o1", "(", ERR),
    ("set", "opt", ("o3",), "new", "nosuch.x", ERR),
    ("set", "task", (), "ps", "'edited'", "edited"),
    ("set", "task", (), "pd", "[1]", [1]),
    ("set", "task", (), "tv", "ps", lambda tv: tv["ps"]),
    ("set", "task", ("pd",), "t", "'b'", "b"),
    ("set", "task", ("pd",), "5", "'six'", "six"),
    ("set", "task", ("pd", "k"), "n", "9", 9),
    ("set", "task", ("pd", "l", "1"), "0", "'in'", "in"),
    ("set", "task", ("hd", "a", "1"), "z", "4", 4),
    ("set", "task", ("hd",), "new", "4", 4),
    ("set", "task", ("pd", "l"), "2", "1", ERR),
    ("set", "task", (), "ps", "nosuch", ERR),
    ("set", "host", (), "ps", "'later'", "later"),
    ("set", "host", (), "hd", "{'s': 1}", {"s": 1}),
    ("set", "host", ("hd",), "s", "'hs2'", "hs2"),
    ("set", "host", ("hd", "a"), "0", "8", 8),
    ("set", "host", ("hd", "a", "1"), "z", "8", 8),
    ("set", "host", ("pd", "k"), "n", "'hn'", "hn"),
    ("set", "host", (), "tv", "{'t': 1}", {"t": 1}),
    ("set", "host", (), "hd", "1 +", ERR),
    ("set", "glob", (), "ps", "'g'", "g"),
    ("so", "opt", (), "o1", "70", 70),
    ("so", "opt", (), "o6", "[tv]", lambda tv: [copy.deepcopy(tv["tv"])]),
    ("ro", "opt", (), "o2", "", None),
    ("ro", "opt", (), "o3", "", None),
    ("sh", "host", (), "ps", "'both'", "both"),
    ("sh", "host", (), "hd", "[1]", [1]),
    ("sh", "host", (), "hd", "nosuch", ERR),
    ("so", "opt", (), "o1", "nosuch", ERR),
]


def key(ds, name):
    if isinstance(ds, list):
        return int(name)
    return next((k for k in ds if str(k) == name), name)


def dig(ds, path):
    for p in path:
        ds = ds[key(ds, p)]
    return ds


class Model:
    """What a stopped task and its successors use."""

    def __init__(self, host_vars):
        self.tv = copy.deepcopy({**VARS, **host_vars})
        self.raw = copy.deepcopy(RAW)
        self.later = {}  # what later tasks of the host see instead
        self.scopes()

    def scopes(self):
        """The client asks for the scopes, what it gets is of this moment."""
        self.o = copy.deepcopy(self.opts())
        self.h = self.host()

    def opts(self, tv=None):
        tv = self.tv if tv is None else tv
        return {k: (copy.deepcopy(tv.get(v[1], "none")) if isinstance(v, tuple) else v) for k, v in self.raw.items()}

    def host(self):
        # host variables proper, and what the task has besides them
        return {**copy.deepcopy(self.tv), **copy.deepcopy({"hd": VARS["hd"]}), **copy.deepcopy(self.later)}

    def view(self, scope):
        return self.o if scope == "opt" else self.tv if scope == "task" else self.h

    def apply(self, op):
        """False when the edit has to fail."""
        how, scope, path, name, _, val = op
        if how == "ro":
            self.raw.pop(name, None)
            self.o.pop(name, None)
            return True
        try:
            root = copy.deepcopy(self.view(scope)) if scope != "glob" else {}
            if path and not (path[0] in root):
                return None  # there is nothing to edit
            ds = dig(root, path)
            if not isinstance(ds, (dict, list)):
                return None
        except (KeyError, IndexError, TypeError, ValueError):
            return None
        if val is ERR:
            return False
        val = copy.deepcopy(val(self.tv)) if callable(val) else copy.deepcopy(val)
        if scope == "glob":
            return True
        try:
            k = key(ds, name)
        except ValueError:
            return False
        if isinstance(ds, list) and not -len(ds) <= k < len(ds):
            return False
        ds[k] = val
        top = path[0] if path else name
        if scope == "opt":
            self.o[top] = self.raw[top] = root[top]
        elif scope == "task":
            self.tv[top] = root[top]
        else:
            self.h[top] = self.later[top] = root[top]
            if how == "sh":
                self.tv[top] = copy.deepcopy(root[top])
        return True


def untyped(x):
    return ast.literal_eval(x)


def one(job, prefix):
    name, who, ops, late, again = job["fx"], job["host"], job["ops"], job.get("late", False), job["again"]
    base = fx.baseline(name, late)
    run = play.Run(prefix)
    d = play.M.dap
    bad: list = []
    where = f"{name}, {who}: {[(SETS[o][0], SETS[o][1], '/'.join(SETS[o][2] + (SETS[o][3],)), SETS[o][4]) for o in ops]}"
    model = Model({})
    old_refs: list = []
    old_frames: list = []
    stops: list = []

    def say(k, m):
        bad.append((k, f"{where}: {m}"))

    def script(c):
        nonlocal model
        f = f"{play.ROOT}/{name}/main.yml"
        text = fx.FX[name][1]["main.yml"].splitlines()
        lines = [i + 1 for i, ln in enumerate(text) if ln in ("  - name: t1", "  - name: t2")]
        c.configure({f: [(ln, f"inventory_hostname == '{who}'") for ln in lines]}, filters=())
        e = c.wait_stop()
        st = c.request(d.StackTraceRequest(thread_id=e.thread_id)).stack_frames
        stops.append(st[0].name)
        frame = st[0].id

        def scopes():
            r = c.request(d.ScopesRequest(frame_id=frame))
            for s in r.scopes:
                n = len(variables(s.variables_reference))
                if (s.named_variables or 0) + (s.indexed_variables or 0) != n:
                    say("count", f"{s.name} has {n} variables, said to be {s.named_variables} named and {s.indexed_variables} indexed ones")
            out = {k: next(s for s in r.scopes if s.name == n).variables_reference for k, n in SC.items()}
            old_refs.extend(out.values())
            return out

        def variables(ref):
            r = c.request(d.VariablesRequest(variables_reference=ref))
            if isinstance(r, d.ErrorResponse):
                say("reference", f"reference {ref} is refused: {r.message}")
                return {}
            out = {}
            for v in r.variables:
                if v.name in out:
                    say("twice", f"{v.name!r} is offered twice in {[x.name for x in r.variables][:20]}")
                out[v.name] = v
                if v.variables_reference:
                    old_refs.append(v.variables_reference)
            return out

        def exactly(label, ref, want, depth=0):
            """What the reference gives is want, all the way down."""
            got = variables(ref)
            names = [str(i) for i in range(len(want))] if isinstance(want, list) else [str(k) for k in want]
            if sorted(got) != sorted(names):
                say("names", f"{label} has {sorted(got)} instead of {sorted(names)}")
                return
            for n in names:
                value(f"{label}/{n}", got[n], dig(want, (n,)), depth)

        def value(label, v, want, depth=0):
            if untyped(v.value) != want:
                say("value", f"{label} is {v.value} instead of {want!r}")
                return
            n = len(want) if isinstance(want, (dict, list)) else 0
            if (v.named_variables, v.indexed_variables) != ((n, 0) if isinstance(want, dict) else (0, n)):
                say("count", f"{label} = {v.value} has {v.named_variables} named and {v.indexed_variables} indexed variables")
            kind = {str: "str", bool: "bool", int: "int", dict: "dict", list: "list"}[type(want)]
            if v.type != kind:
                say("type", f"{label} = {v.value} has the type {v.type}")
            if isinstance(want, (dict, list)):
                if not v.variables_reference:
                    say("expand", f"{label} = {v.value} cannot be expanded")
                else:
                    exactly(label, v.variables_reference, want, depth + 1)
            elif v.variables_reference:
                say("expand", f"{label} = {v.value} can be expanded")

        def all_right(sc, when):
            exactly(f"{when}: options", sc["opt"], {**model.o, "id": "t1"})
            tv = variables(sc["task"])
            for n in VARS:
                if n not in tv:
                    say("missing", f"{when}: {n} is not among the task variables")
                else:
                    value(f"{when}: task variable {n}", tv[n], model.tv[n])
                r = c.request(d.EvaluateRequest(expression=n, frame_id=frame, context="watch"))
                if untyped(r.result) != model.tv[n]:
                    say("evaluate", f"{when}: {n} evaluates to {r.result} instead of {model.tv[n]!r}")
            hv = variables(sc["host"])
            h = model.h
            for n in ("hd",) + tuple(model.later):
                if n not in hv:
                    say("missing", f"{when}: {n} is not among the host variables")
                else:
                    value(f"{when}: host variable {n}", hv[n], h[n])

        sc = scopes()
        for k in ("opt", "task"):
            if k == "opt" or job.get("full"):
                all_right(sc, "before")
        for i, o in enumerate(ops):
            how, scope, path, nm, ex, val = SETS[o]
            if again:
                sc = scopes()
                model.scopes()
            before = copy.deepcopy(model)
            want = model.apply(SETS[o])
            if want is None:
                model = before
                continue
            if how == "set":
                ref = sc[scope]
                for p in path:
                    ref = variables(ref)[p].variables_reference
                r = c.request(d.SetVariableRequest(variables_reference=ref, name=nm, value=ex))
                ok = not isinstance(r, d.ErrorResponse)
                if ok and want:
                    v = dig(model.view(scope), path + (nm,)) if scope != "glob" else val
                    if untyped(r.value) != v:
                        say("answer", f"edit {i} is answered with {r.value} instead of {v!r}")
                    now = variables(ref).get(nm)
                    if now is None or untyped(now.value) != v:
                        say("shown", f"after edit {i} {nm} is {now and now.value} in the same container instead of {v!r}")
                    if isinstance(v, (str, bool, int, dict, list)):
                        value(f"answer of edit {i}", r, v)
                    elif r.variables_reference:
                        exactly(f"answer of edit {i}", r.variables_reference, v)
            else:
                r = c.request(d.EvaluateRequest(expression=f"!{how} {nm} {ex}".strip(), frame_id=frame, context="repl"))
                ok = not isinstance(r, d.ErrorResponse) and r.result == ""
            if ok != want:
                say("outcome", f"edit {i} {'succeeded' if ok else 'failed'}: {getattr(r, 'message', None) or getattr(r, 'result', None) or r}"[-400:])
                return c.q.stop()
            if again:
                sc = scopes()
                model.scopes()
            all_right(sc, f"after edit {i}")
        # references stay valid while the task is stopped
        for ref in old_refs:
            if isinstance(c.request(d.VariablesRequest(variables_reference=ref)), d.ErrorResponse):
                say("reference", f"reference {ref} is no longer valid")
        gone = list(old_refs)
        old_frames.append(frame)
        c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=True))
        while True:
            e = c.wait_stop()
            if e is None:
                return
            st = c.request(d.StackTraceRequest(thread_id=e.thread_id)).stack_frames
            stops.append(st[0].name)
            r = c.request(d.ScopesRequest(frame_id=st[0].id))
            if set(s.variables_reference for s in r.scopes) & set(gone):
                say("reused", "a reference is used again")
            for ref in gone:
                if not isinstance(c.request(d.VariablesRequest(variables_reference=ref)), d.ErrorResponse):
                    say("stale", f"reference {ref} of the finished task is still valid")
                    break
            if st[0].name == "t2":
                got = variables(r.scopes[0].variables_reference)
                want = Model({}).tv
                want.pop("tv")
                want.update(copy.deepcopy(model.later))
                for k, v in RAW.items():
                    if isinstance(v, tuple) and untyped(got[k].value) != want.get(v[1], "none"):
                        say("later", f"t2 shows {k} = {got[k].value} instead of {want.get(v[1], 'none')!r}")
            c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=True))

    fx.debug(name, script, late=late, run=run)
    if not bad and not run.problems:
        # the results of every task on every host
        def results(r):
            n: dict = {}
            out = []
            for x in r.world.results:
                if x[0] == "v2_runner_on_ok" and x[3] in ("t1", "t2", "t3"):
                    k = (x[3], x[1])
                    n[k] = n.get(k, 0) + 1
                    out.append((x[3], x[1], n[k], x[4].get("got")))
            return out

        want = []
        edited = False
        for t, h, i, got in results(base):
            got = copy.deepcopy(got)
            if t == "t1":
                if h == who and i == 1:
                    edited = True
                    got = play.norm(model.opts())
                elif edited or h > who:
                    # the same task again or on another host has the edited options
                    got = play.norm(model.opts({**VARS, **(model.later if h == who else {})}))
                elif h == who:
                    got = None
            elif h == who and model.later:
                for k, v in RAW.items():
                    if isinstance(v, tuple) and v[1] in model.later:
                        got[k] = play.norm(model.later[v[1]])
            want.append((t, h, i, got))
        for a, b in zip(want, results(run)):
            if a != b:
                bad.append(("effect", f"{where}: {b[0]} on {b[1]} (run {b[2]}) ran with {b[3]} instead of {a[3]}"))
        if len(want) != len(results(run)) or run.rc != base.rc:
            bad.append(("tasks", f"{where}: {len(results(run))} results instead of {len(want)}, exit status {run.rc}"))
    return run, (name, who, repr(model.raw), repr(model.tv), repr(model.later)), bad[:3]


def main():
    quick = report.tier() == "quick"
    fs = fx.files(["vars", "vars1", "varsh"])
    play.setup(fs)
    chk = report.Check("C18", assumptions=["tasks execute in the playbook process instead of forked workers"])
    jobs = []
    n = range(len(SETS))
    for f, who in (("vars", "h1"), ("vars", "h2"), ("vars1", "h1.x"), ("varsh", "h1.x")):
        jobs.append({"fx": f, "host": who, "ops": (), "again": True, "full": True})
        for late in (False, True):
            if quick and late and (f, who) != ("vars", "h2"):
                continue
            for o in n:
                for again in (True, False):
                    jobs.append({"fx": f, "host": who, "ops": (o,), "late": late, "again": again})
    # quick: all pairs of kinds of edits, and all pairs that meet in the same variable
    kinds: dict = {}
    for o in n:
        kinds.setdefault((SETS[o][0], SETS[o][1], bool(SETS[o][2]), SETS[o][5] is ERR), o)
    for a, b in itertools.product(n, n):
        tops = [(SETS[o][1:2] + SETS[o][2] + SETS[o][3:4])[:2] for o in (a, b)]
        if quick and tops[0][1] != tops[1][1] and not {a, b} <= set(kinds.values()):
            continue
        jobs.append({"fx": "vars", "host": "h1", "ops": (a, b), "again": True})
        if not quick:
            jobs.append({"fx": "vars", "host": "h1", "ops": (a, b), "again": False})
            jobs.append({"fx": "vars1", "host": "h1.x", "ops": (a, b), "again": True})
    if not quick:
        some = [i for i in n if SETS[i][5] is not ERR]
        for abc in itertools.product(some[::2], some[::3], some[::2]):
            jobs.append({"fx": "vars", "host": "h1", "ops": abc, "again": True})
    fx.run_jobs(chk, "edits", jobs, one, what="all sequences of edits (every scope, top level and nested, console commands, failing ones) at a stopped task", cap_s=300 if quick else 850)
    return chk.finish()


if __name__ == "__main__":
    report.main("C18", main)
