"""C19: everything that can be evaluated: all command lines of a grammar, all short texts, all contexts and frames."""
import ast
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import fx, play, report  # noqa: E402

OPTS = 'o1: 1, o: "{{ ps }}", ps: 5, t: {a: 1}'
RAW = {"o1": 1, "o": ("var", "ps"), "ps": 5, "t": {"a": 1}}
fx.fx(
    "ev",
    "h1,h2,",
    main=fx.HEAD
    + "  vars:\n    ps: text\n    num: 3\n    ls: [1, 'x y']\n  tasks:\n"
    + "  - name: i1\n    include_tasks: inc.yml\n    vars: {iv: '{{ inventory_hostname }} in'}\n"
    + f"  - name: t2\n    probe: {{id: t2, {OPTS}}}\n",
    inc=f"- name: t1\n  probe: {{id: t1, {OPTS}}}\n",
)
VARS = {"ps": "text", "num": 3, "ls": [1, "x y"]}
ERR = object()
# (text, value): what a line can end with
EXPR = [
    ("7", 7),
    ("'a b'", "a b"),
    ('"it\'s"', "it's"),
    ('"a" ~ \'"\'', 'a"'),
    ("ps", lambda v: v["ps"]),
    ("num + 1", lambda v: v["num"] + 1),
    ("'o1 so ' ~ num", lambda v: f"o1 so {v['num']}"),
    ("{'a': 'x # y', 'o': [1]}", {"a": "x # y", "o": [1]}),
    ("[1,  'a   b']  ", [1, "a   b"]),
    ("'so'", "so"),
    ("-1", -1),
    ("--num", lambda v: v["num"]),
    ("'--help'", "--help"),
    ("ls[1]", lambda v: v["ls"][1]),
    ("inventory_hostname | upper", lambda v: v["inventory_hostname"].upper()),
    ("nosuch", ERR),
    ("nosuch.x", ERR),
    ("(", ERR),
    ("'", ERR),
    ("", ERR),
    ("1 / 0", ERR),
    ("num.x.y", ERR),
    ("ps | nosuchfilter", ERR),
]
# (text, name)
NAMES = [
    ("o1", "o1"),
    ("o", "o"),
    ("s", "s"),
    ("t", "t"),
    ("so", "so"),
    ("sh", "sh"),
    ("ps", "ps"),
    ("'o1'", "o1"),
    ('"o1"', "o1"),
    ('"new name"', "new name"),
    ("'new  name'", "new  name"),
    ("n\\ m", "n m"),
    ("o'1'", "o1"),
    ("template", "template"),
    ("set_option", "set_option"),
    ("e", "e"),
    ("n#m", "n#m"),
]
SO, SH, RO, T = ("so", "set_option"), ("sh", "set_hostvar"), ("ro", "remove_option"), ("t", "template")
BAD = ["!!so o1 9", "! !so o1 9", "!!sh ps 9", "!!ro o1", "!!t num", "!!", "! !", "!so! o1 9", "!", "! ", "!nosuch", "!sx o1 7", "!SO o1 7", "!so", "!sh", "!ro", "!so 'o1 7", '!sh "ps 7', "!ro 'o1", "!'so o1 7", "!so -x 7", "!ro --all", "!-x", "!--help", "!-h", "!so -h", "!sh --help", "!ro -h", "!t -h", "!\"", "!#", "!\\"]
CONTEXTS = ["repl", "watch", "clipboard", "variables"]


def lines():
    """(line, effect, value): effect is None, or (scope, name, remove)"""
    out = []
    for i, (w0, w1, w2) in enumerate((("", " ", " "), (" ", "  ", "\t"), ("\t", "\n", "   "))):
        for names, scope in ((SO, "opt"), (SH, "host")):
            for c in names:
                for (n, name), (e, v) in itertools.product(NAMES, EXPR):
                    if i and (n, e) != (NAMES[0][0], e) and (n, e) != (n, EXPR[0][0]):
                        continue
                    if scope == "host" and name in VARS and v is ERR and i:
                        continue
                    out.append((f"!{w0}{c}{w1}{n}{w2}{e}", (scope, name, False), v))
        for c in RO:
            for n, name in NAMES:
                out.append((f"!{w0}{c}{w1}{n}", ("opt", name, True), None))
        for c in T:
            for e, v in EXPR:
                out.append((f"!{w0}{c}{w1}{e}", None, v))
    out += [(b, None, ERR) for b in BAD]
    return out


ALPHA = ["{", "}", "%", "'", '"', "(", ")", "[", "]", "1", "a", " ", "!", "-", "|", "~", "\\", "#", ".", "\n", ":", ",", "\u20ac", "\x00"]


def texts(depth):
    for n in range(depth + 1):
        yield from ("".join(x) for x in itertools.product(ALPHA, repeat=n))


def untyped(x):
    try:
        return ast.literal_eval(x)
    except (ValueError, SyntaxError):
        return ERR


def one(job, prefix):
    base = fx.baseline("ev", False)
    run = play.Run(prefix)
    d = play.M.dap
    bad: list = []
    who, fresh = job["host"], job["fresh"]
    work = LINES if job["kind"] == "lines" else list(texts(job["depth"])) if job["kind"] == "text" else []
    work = work[job["from"] :: job["step"]]
    seen: set = set()
    tv = {**VARS, "iv": f"{who} in", "inventory_hostname": who}
    raw = dict(RAW)
    later: dict = {}

    def say(k, m):
        bad.append((k, f"{who}: {m}"))

    def script(c):
        c.configure({f"{play.ROOT}/ev/inc.yml": [(1, f"inventory_hostname == '{who}'")]}, filters=())
        e = c.wait_stop()
        frames = c.request(d.StackTraceRequest(thread_id=e.thread_id)).stack_frames
        frame = frames[0].id

        def views():
            r = c.request(d.ScopesRequest(frame_id=frame))
            out = {}
            for s in r.scopes:
                if s.name != "Global Variables":
                    out[s.name[0]] = {v.name: v.value for v in c.request(d.VariablesRequest(variables_reference=s.variables_reference)).variables if v.name not in ("vars", "hostvars")}
            return out

        def evaluate(ex, context="repl", f=frame):
            r = c.request(d.EvaluateRequest(expression=ex, frame_id=f, context=context))
            if isinstance(r, d.ErrorResponse):
                say("error", f"{ex!r} ({context}) is answered with an error: {r.message[-300:]}")
                return ""
            return r.result

        def opts():
            return {"id": "t1", **{k: (tv[v[1]] if isinstance(v, tuple) else v) for k, v in raw.items()}}

        def same(what, before, after, name, value):
            """Only name differs, and has the value."""
            for k in sorted(set(before) | set(after)):
                if k == name:
                    got = untyped(after[k]) if k in after else None
                    if got != value:
                        say("edit", f"{what}: {name!r} is {after.get(k)} instead of {value!r}")
                elif before.get(k) != after.get(k):
                    say("other", f"{what}: {k!r} went from {before.get(k)} to {after.get(k)}")

        if job["kind"] == "lines":
            for line, effect, v in work:
                before = None if fresh else views()
                want = v(tv) if callable(v) else v
                got = evaluate(line)
                if effect is None or want is ERR:
                    if want is ERR:
                        if not got.strip():
                            say("silent", f"{line!r} is not explained")
                    elif untyped(got) != want:
                        say("value", f"{line!r} gives {got} instead of {want!r}")
                    effect = None
                elif got:
                    say("refused", f"{line!r} is answered with {got[-300:]!r}")
                    effect = None
                after = views()
                seen.add((effect and effect[:1] + effect[2:], want is ERR))
                name = None
                if effect:
                    scope, name, remove = effect
                    if remove:
                        raw.pop(name, None)
                        want = None
                    elif scope == "opt":
                        raw[name] = want
                    else:
                        tv[name] = later[name] = want
                if before is None:
                    before = {**after, "M": {k: repr(x) for k, x in opts().items()}}
                    if {k: untyped(x) for k, x in after["M"].items()} != opts():
                        say("edit", f"{line!r}: the options are {after['M']} instead of {opts()}")
                    before["M"] = after["M"]
                host = effect and effect[0] == "host"
                if host and any(isinstance(x, tuple) and x[1] == name for x in raw.values()):
                    before["M"] = after["M"]
                same(f"{line!r}: option", before["M"], after["M"], name if effect and effect[0] == "opt" else None, want)
                for s in "TH":
                    same(f"{line!r}: variable", before[s], after[s], name if host else None, want)
                if {k: untyped(x) for k, x in after["M"].items()} != opts():
                    say("options", f"{line!r}: the options are {after['M']} instead of {opts()}")
                if bad:
                    break
        elif job["kind"] == "text":
            before = views()
            for ex in work:
                for context in CONTEXTS if len(ex) < 2 else CONTEXTS[:2]:
                    got = evaluate(ex, context)
                    try:
                        value = ast.literal_eval(ex.strip(" \n"))
                    except Exception:
                        continue
                    if isinstance(value, (str, int, list, tuple, dict)) and not ex.startswith("!") and "\n" not in ex and "\x00" not in ex and "\\" not in ex and "#" not in ex:
                        seen.add(type(value))
                        if untyped(got) != value:
                            say("value", f"{ex!r} ({context}) gives {got[-300:]} instead of {value!r}")
                if bad:
                    break
            if views() != before:
                say("other", "evaluating changed a variable")
        else:
            # every expression in every context for every frame of every host
            threads = c.request(d.ThreadsRequest()).threads
            for th in threads:
                for i, fr in enumerate(c.request(d.StackTraceRequest(thread_id=th.id)).stack_frames):
                    v = {**VARS, "inventory_hostname": th.name}
                    if fr.name == "t1":
                        v["iv"] = f"{th.name} in"
                    for (ex, want), context in itertools.product(EXPR + [("inventory_hostname", th.name), ("iv", v.get("iv", SKIP))], CONTEXTS):
                        want = want(v) if callable(want) else want
                        got = evaluate(ex, context, fr.id)
                        seen.add((fr.name, th.name))
                        if want is SKIP:
                            continue
                        if want is ERR:
                            if untyped(got) is not ERR or not got.strip():
                                say("value", f"{ex!r} ({context}, {fr.name}) gives {got!r} instead of an error")
                        elif untyped(got) != want:
                            say("value", f"{ex!r} ({context}, {fr.name} of {th.name}) gives {got[-300:]} instead of {want!r}")
            for context in ("hover", "nosuch", None):
                c.request(d.EvaluateRequest(expression="num", frame_id=frame, context=context))
            for context in CONTEXTS:
                for f in (None, 0, 9999):
                    c.request(d.EvaluateRequest(expression="!so o1 9", frame_id=f, context=context))
            for context in CONTEXTS[1:]:
                for line, effect, v in LINES[::7]:
                    if line != "!":
                        evaluate(line, context)
            now = views()
            if {k: untyped(x) for k, x in now["M"].items()} != opts():
                say("options", f"the options are {now['M']} instead of {opts()}")
        c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=True))
        while (e := c.wait_stop()) is not None:
            say("stop", f"stopped again: {e}")
            c.request(d.ContinueRequest(thread_id=e.thread_id, single_thread=True))

    fx.debug("ev", script, run=run)
    if not bad and not run.problems:

        def results(r):
            return {(x[3], x[1]): x[4].get("got") for x in r.world.results if x[0] == "v2_runner_on_ok" and x[3] in ("t1", "t2")}

        got = results(run)
        want = results(base)
        for (t, h), g in want.items():
            v = {**VARS, **(later if h == who else {})}
            # the options are those of the task, also on the hosts that run it later
            o = raw if t == "t1" and h >= who else RAW
            g = play.norm({k: (v[x[1]] if isinstance(x, tuple) else x) for k, x in o.items()})
            if got.get((t, h)) != g:
                bad.append(("effect", f"{who}: {t} on {h} ran with {got.get((t, h))} instead of {g}"))
        if run.rc != base.rc or set(got) != set(want):
            bad.append(("tasks", f"{who}: results of {sorted(got)}, exit status {run.rc}"))
    return run, tuple(sorted(map(repr, seen))), bad[:3]


SKIP = object()
LINES = lines()


def main():
    quick = report.tier() == "quick"
    fs = fx.files(["ev"])
    play.setup(fs)
    chk = report.Check("C19", assumptions=["tasks execute in the playbook process instead of forked workers"])
    jobs = []
    step = 24 if quick else 48
    for i in range(step):
        jobs.append({"kind": "lines", "host": "h1", "fresh": False, "from": i, "step": step})
    for i in range(0, len(LINES), 4 if quick else 1):
        # the first thing the client does at this stop
        jobs.append({"kind": "lines", "host": "h2" if i % 2 else "h1", "fresh": True, "from": i, "step": len(LINES)})
    for h in ("h1", "h2"):
        jobs.append({"kind": "frames", "host": h, "fresh": False, "from": 0, "step": 1})
    step = 16 if quick else 160
    for i in range(step):
        jobs.append({"kind": "text", "host": "h1", "fresh": False, "from": i, "step": step, "depth": 2 if quick else 4})
    fx.run_jobs(chk, "evaluate", jobs, one, what=f"all {len(LINES)} command lines of the grammar, all texts of up to 2 (thorough: 4) characters of the alphabet, all expressions in all contexts and frames", cap_s=300 if quick else 850)
    return chk.finish()


if __name__ == "__main__":
    report.main("C19", main)
