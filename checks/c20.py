"""C20: every list of path mappings over small sets of roots, in a session that stops in each of a chain of included files."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import fx, play, report  # noqa: E402

# file -> what it includes; the last one fails.  Each file's last task is on a line of its own, so a line tells the file.
CHAIN = ["proj/main.yml", "proj/sub/a.yml", "proj2/b.yml", "proj/sub-x/c.yml", "proj/sub.yml", "proj/sub/sub/d.yml"]


def files():
    out = {}
    for i, f in enumerate(CHAIN):
        pad = "#\n" * (i + 1)
        if i + 1 < len(CHAIN):
            up = "playbook_dir | dirname"
            t = "- name: i%d\n  include_tasks: \"{{ %s }}/%s\"\n" % (i, up, CHAIN[i + 1])
        else:
            t = fx.T("end", 0, args={"failed": "true"})
        if i == 0:
            t = fx.HEAD + "  tasks:\n" + "".join("  " + x + "\n" for x in t.splitlines())
        out["pm/" + f] = pad + t
    return out


def parts(p):
    return [x for x in p.split("/")]


def strip(root):
    return root.rstrip("/")


def inside(path, root):
    """The components of path below root, None if it is not in there."""
    a, b = parts(path), parts(strip(root))
    return a[len(b) :] if a[: len(b)] == b else None


def translate(path, pairs):
    for frm, to in pairs:
        rel = inside(path, frm)
        if rel is not None:
            return "/".join(parts(strip(to)) + rel) or "/"
    return path


def rels():
    return ["main.yml", "sub/a.yml", "a.yml", "b.yml", "sub-x/c.yml", "sub.yml", "sub/sub/d.yml", "sub/d.yml", "proj/main.yml", "proj2/b.yml"]


def client_paths(locals_):
    out = []
    for loc in locals_:
        s = strip(loc)
        for r in rels():
            out += [f"{s}/{r}"]
        out += [f"{s}2/main.yml", f"{s}-x/c.yml", f"{s}.yml", s or "/"]
    return list(dict.fromkeys(out))


def one(job, prefix):
    R = f"{play.ROOT}/pm"
    maps = [(lo.replace("@", R), re.replace("@", R)) for lo, re in job["maps"]]
    to_remote = [(lo, re) for lo, re in maps]
    to_local = [(re, lo) for lo, re in maps]
    real = [f"{R}/{f}" for f in CHAIN]
    run = play.Run(prefix)
    bad = []
    d = play.M.dap
    paths = client_paths([lo for lo, _ in maps] or ["/c/w"])
    paths += [p for p in real if p not in paths]
    want = {p: translate(p, to_remote) for p in paths}
    line_of = {}
    stops = []

    def script(c):
        got = c.configure({p: [(60,)] for p in paths}, filters=["on_error"], mappings=maps)
        ids = {bps[0].id: p for p, bps in got.items()}
        for p, bps in got.items():
            if bps[0].verified != (want[p] == real[0]):
                bad.append(("map", f"mappings {job['maps']}: a breakpoint in {p} was {'accepted for a loaded' if bps[0].verified else 'taken to be in an unknown'} file, it refers to {want[p]}"))
        while True:
            e = c.wait_stop()
            if e is None:
                break
            n = sum(1 for x in play.W.log if x[0] == "start")
            exc = e.reason == d.StoppedReason.EXCEPTION
            i = n - 1 if exc else n
            st = c.request(d.StackTraceRequest(thread_id=e.thread_id)).stack_frames
            exp = [translate(p, to_local) for p in reversed(real[: i + 1])]
            names = [f.source.path for f in st]
            stops.append((i, exc, tuple(names)))
            if names != exp:
                bad.append(("frames", f"mappings {job['maps']}: at {CHAIN[i]} the stack names the files {names} instead of {exp}"))
            for f in st:
                if f.source.name != f.source.path.rsplit("/", 1)[-1]:
                    bad.append(("name", f"mappings {job['maps']}: {f.source.path} is called {f.source.name}"))
            if not exc:
                for b in e.hit_breakpoint_ids:
                    if want.get(ids.get(b)) != real[i]:
                        bad.append(("hit", f"mappings {job['maps']}: the breakpoint in {ids.get(b)} stopped {CHAIN[i]}"))
            if i == len(real) - 1 and exc:
                # now every file is loaded
                for p in paths:
                    b = c.set_breakpoints(p, [(60,)])[0]
                    f = want[p]
                    ok = b.verified and b.line == line_of.get(f) if f in real else not b.verified
                    if not ok:
                        bad.append(("map", f"mappings {job['maps']}: a breakpoint in {p} refers to {f} but got {'line %s' % b.line if b.verified else 'no'} place (lines {({k[len(R)+1:]: v for k, v in line_of.items()})})"))
                # and back again, where the mapped directories do not overlap
                for p, q in zip(reversed(real), names):
                    if translate(translate(p, to_local), to_remote) == p:
                        b = c.set_breakpoints(q, [(60,)])[0]
                        if not b.verified or b.line != line_of[p]:
                            bad.append(("back", f"mappings {job['maps']}: {p} is shown as {q}, a breakpoint there does not go to the same file"))
                c.request(d.SetExceptionBreakpointsRequest(filters=[], filter_options=[], exception_options=[]))
            c.request(d.ContinueRequest(thread_id=e.thread_id))

    for i, f in enumerate(real):
        line_of[f] = i + 5 if i == 0 else i + 2
    line_of[real[0]] = LINES[real[0]]
    line_of.update(LINES)
    play.execute(f"{R}/{CHAIN[0]}", script, prefix=prefix, extra_vars={"STRAT": "ansibug.dap.debug"}, run=run, limit_s=40)
    hit = {i for i, exc, _ in stops if not exc}
    exp = {i for i, f in enumerate(real) if f in want.values()}
    if not run.problems and not bad and hit != exp:
        bad.append(("stops", f"mappings {job['maps']}: breakpoints stopped in {[CHAIN[i] for i in sorted(hit)]} instead of {[CHAIN[i] for i in sorted(exp)]}"))
    return run, (job["maps"], tuple(stops)), bad[:3]


LINES = {}


def main():
    quick = report.tier() == "quick"
    play.setup(files())
    for f in CHAIN:
        p = f"{play.ROOT}/pm/{f}"
        LINES[p] = next(i for i, t in enumerate(open(p).read().split("\n"), 1) if "name:" in t and "- name" in t)
    chk = report.Check("C20", assumptions=["tasks execute in the playbook process instead of forked workers", "trailing slashes of a root mean nothing; paths are POSIX paths without . and .. components"])
    remotes = ["@/proj", "@/proj/sub", "@/proj2", "@/pro", "@/proj/", "/", "@/proj/sub/a.yml", "@/nowhere"]
    locals_ = ["/c/w", "/c/w2", "/c/w/sub", "/c/w/", "/", "@/proj2"]
    singles = [(lo, re) for lo in locals_ for re in remotes]
    some = [(lo, re) for lo in ("/c/w", "/c/w2", "/c/w/sub/", "@/proj") for re in ("@/proj", "@/proj/sub", "@/proj2", "@/pro")]
    few = [("/c/w", "@/proj"), ("/c/w2", "@/proj2"), ("/c/w/sub", "@/proj/sub"), ("/c/w", "@/proj/sub"), ("@/proj", "@/proj2"), ("@/proj2", "@/proj"), ("/", "/"), ("/c", "/")]
    jobs = [()] + [(m,) for m in singles] + list(itertools.product(some, some))
    if not quick:
        jobs += list(itertools.product(singles, singles)) + list(itertools.product(few, repeat=3))
    jobs = [{"maps": j} for j in dict.fromkeys(jobs)]
    fx.run_jobs(chk, "mappings", jobs, one, what="all lists of up to 2 (thorough: 3) mappings over a small set of roots; every client path below and beside the roots as a breakpoint before and after the files are loaded, and the stack in every file", cap_s=300 if quick else 850)
    return chk.finish()


if __name__ == "__main__":
    report.main("C20", main)
