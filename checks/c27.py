"""C27: local debug endpoints are never open to other users.

Under each of the 512 file-creation masks every way an endpoint is made runs on the
real code with a tracer that looks, after every line and every call into C (so after
every system call), at every file there is and at the mask of the process.
"""
from __future__ import annotations

import errno
import json
import os
import re
import select
import stat
import sys
import tempfile
import threading

sys.path.insert(0, __file__.rsplit("/", 2)[0])
import shutil  # noqa: E402
import uuid  # noqa: E402

from mc import boot, procs, report  # noqa: E402

HERE = os.path.realpath(__file__)


def mask_now() -> int:
    """The mask of this process, without changing it."""
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("Umask:"):
                return int(line.split()[1], 8)
    raise RuntimeError("no Umask")


class Watch:
    """Looks at a directory at every event of the code under test."""

    def __init__(self, d, mask, fallback=False):
        self.d, self.mask, self.fallback = d, mask, fallback
        self.seen: set = set()
        self.bad: list = []
        self.events = 0
        self.skip = {e for e in os.listdir(d)}
        self.busy = threading.local()

    def look(self, where):
        self.events += 1
        if not self.fallback and (m := mask_now()) != self.mask:
            self.add("mask", f"the file-creation mask is {m:03o} instead of {self.mask:03o} at {where}")
        for n in os.listdir(self.d):
            if n in self.skip:
                continue
            try:
                st = os.lstat(os.path.join(self.d, n))
            except FileNotFoundError:
                continue
            kind = "socket" if stat.S_ISSOCK(st.st_mode) else "script" if n.startswith("ansibug-launch") else "other"
            if kind == "other":
                continue
            mode = stat.S_IMODE(st.st_mode)
            self.seen.add((kind, mode))
            if mode & 0o077:
                self.add("open", f"the {kind} has the mode {mode:03o} at {where}")

    def add(self, k, m):
        if len(self.bad) < 20 and not any(k == x for x, _ in self.bad):
            self.bad.append((k, m))

    def profile(self, frame, event, arg):
        if event in ("c_return", "c_exception", "return") and not getattr(self.busy, "on", False):
            f = frame.f_code.co_filename
            if f == HERE:
                return
            self.busy.on = True
            try:
                self.look(f"{os.path.basename(f)}:{frame.f_lineno} {getattr(arg, '__name__', event)}")
            finally:
                self.busy.on = False

    def __enter__(self):
        threading.setprofile(self.profile)
        sys.setprofile(self.profile)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        threading.setprofile(None)


def refuse(err):
    def fchmod(fd, mode):
        raise OSError(err, os.strerror(err))

    return fchmod


PRE = ("file", "dir", "fifo", "socket", "link", "dangling")


def put(path, what):
    """Something that is already there; how to see that it still is."""
    if what == "file":
        with open(path, "w") as f:
            f.write("mine")
        os.chmod(path, 0o644)
    elif what == "dir":
        os.mkdir(path, 0o755)
    elif what == "fifo":
        os.mkfifo(path, 0o644)
    elif what == "socket":
        import socket

        s = socket.socket(socket.AF_UNIX)
        s.bind(path)
        s.close()
    elif what == "link":
        with open(path + "-target", "w") as f:
            f.write("mine")
        os.symlink(path + "-target", path)
    elif what == "dangling":
        os.symlink(path + "-target", path)


def state(path):
    out: list = []
    for p in (path, path + "-target"):
        try:
            st = os.lstat(p)
            out.append((st.st_ino, st.st_mode, st.st_size, st.st_mtime_ns))
            if stat.S_ISREG(st.st_mode):
                out.append(open(p).read())
        except FileNotFoundError:
            out.append(None)
    return out


def queue(job):
    """A listening queue made in this process."""
    M = procs.load()
    bad: list = []
    old_tmp, old_dir = os.environ.get("TMPDIR"), tempfile.tempdir
    real, real_uuid = os.fchmod, uuid.uuid4
    d = tempfile.mkdtemp(prefix="u-", dir=boot.scratch())
    q = None
    before = None
    old = os.umask(0o022)
    try:
        os.environ["TMPDIR"] = d
        tempfile.tempdir = None
        tempfile.gettempdir()
        addr = {"random": "uds://", "named": "uds://sock", "path": f"uds:{d}/sock", "none": f"uds:{d}/nowhere/sock", "long": f"uds:{d}/" + "x" * 200}[job["addr"]]
        target = os.path.join(d, "sock")
        if job.get("pre"):
            if job["addr"] == "random":
                fixed = uuid.UUID(int=7)
                uuid.uuid4 = lambda: fixed
                target = os.path.join(d, f"ansibug-dap-{fixed}")
            put(target, job["pre"])
            before = state(target)
        if job["fchmod"]:
            os.fchmod = refuse(job["fchmod"])
        os.umask(job["mask"])
        err = None
        w = Watch(d, job["mask"], job["fchmod"] == errno.EINVAL)
        with w:
            try:
                q = M.mp.ServerMPQueue(addr, M.mp.MPProtocol)
            except Exception as e:
                err = e
        w.look("the end")
        bad += w.bad
        after = os.umask(0o022)
        if after != job["mask"]:
            bad.append(("mask-after", f"the mask is {after:03o} afterwards"))
        if before is not None and state(target) != before:
            bad.append(("replaced", f"the {job['pre']} that was there became {state(target)}"))
        fine = job["addr"] in ("random", "named", "path") and not job.get("pre") and job["fchmod"] in (0, errno.EINVAL)
        if fine and err is not None:
            bad.append(("failed", f"no endpoint is made: {type(err).__name__}: {err}"))
        if fine and err is None and not job["mask"] & 0o700 and {m & 0o600 for k, m in w.seen} - {0o600}:
            bad.append(("owner", f"the owner cannot use the socket: {[oct(m) for k, m in w.seen]}"))
        if job.get("pre") and job["addr"] != "random" and err is None:
            bad.append(("taken", f"an endpoint is made where there is a {job['pre']}"))
        return ((type(err).__name__, tuple(sorted(w.seen))), w.events, bad)
    finally:
        os.fchmod, uuid.uuid4 = real, real_uuid
        if q:
            try:
                q.stop()
            except Exception:
                pass
        if old_tmp is None:
            os.environ.pop("TMPDIR", None)
        else:
            os.environ["TMPDIR"] = old_tmp
        tempfile.tempdir = old_dir
        os.umask(old)
        shutil.rmtree(d, ignore_errors=True)


def frame(seq, kind, **k):
    b = json.dumps({"seq": seq, "type": kind, **k}).encode()
    return b"Content-Length: %d\r\n\r\n%s" % (len(b), b)


def launch(job):
    """A debug adapter asked to launch, in a process of its own."""
    M = procs.load()
    bad: list = []
    d = tempfile.mkdtemp(prefix="l-", dir=boot.scratch())
    t = tempfile.mkdtemp(prefix="t-", dir=boot.scratch()) if job["dir"] else d
    if job.get("pre"):
        put(os.path.join(t, "ansibug-launch-taken"), job["pre"])
        before = state(os.path.join(t, "ansibug-launch-taken"))
    in_r, in_w = os.pipe()
    out_r, out_w = os.pipe()
    res_r, res_w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.dup2(in_r, 0)
            os.dup2(out_w, 1)
            for fd in (in_w, out_r, res_r):
                os.close(fd)
            sys.stdin = open(0, "r", closefd=False)
            sys.stdout = open(1, "w", closefd=False)
            sys.stderr = open(os.devnull, "w")
            os.environ["TMPDIR"] = d
            tempfile.tempdir = None
            tempfile.gettempdir()
            if job["fchmod"]:
                real = os.fchmod
                no = refuse(job["fchmod"])
                # sockets only: on such platforms files are no problem
                os.fchmod = lambda fd, mode: no(fd, mode) if stat.S_ISSOCK(os.fstat(fd).st_mode) else real(fd, mode)
            if job.get("pre"):
                names = iter(["taken", "taken", "free", "free2"])
                tempfile._name_sequence = names
            os.umask(job["mask"])
            watches = [Watch(d, job["mask"], bool(job["fchmod"]))]
            if t != d:
                watches.append(Watch(t, job["mask"], bool(job["fchmod"])))

            def profile(*a):
                for w in watches:
                    w.profile(*a)

            threading.setprofile(profile)
            sys.setprofile(profile)
            try:
                M.adapter.start_dap(temp_dir=__import__("pathlib").Path(t) if t != d else None)
            finally:
                sys.setprofile(None)
                threading.setprofile(None)
                r = {"bad": [b for w in watches for b in w.bad], "events": sum(w.events for w in watches), "seen": sorted({s for w in watches for s in w.seen}), "mask": os.umask(0)}
                os.write(res_w, json.dumps(r).encode())
            code = 0
        except BaseException as e:
            if os.environ.get("MC_DEBUG"):
                import traceback

                open("/tmp/c27.err", "a").write(f"{job} " + traceback.format_exc())
        finally:
            os._exit(code)
    for fd in (in_r, out_w, res_w):
        os.close(fd)
    got = b""
    try:
        os.write(in_w, frame(1, "request", command="initialize", arguments={"adapterID": "x"}) + frame(2, "request", command="launch", arguments={"playbook": "main.yml"}))
        while b"runInTerminal" not in got and b'"success": false' not in got:
            if not select.select([out_r], [], [], 60)[0]:
                break
            b = os.read(out_r, 65536)
            if not b:
                break
            got += b
        asked = b"runInTerminal" in got
        try:
            if asked:
                while not (m := re.search(rb'\{[^\r]*"runInTerminal"[^\r]*\}(?=Content|$)', got)):
                    if not select.select([out_r], [], [], 60)[0] or not (b := os.read(out_r, 65536)):
                        break
                    got += b
                seq = json.loads(m.group())["seq"] if m else 0
                os.write(in_w, frame(3, "response", command="runInTerminal", request_seq=seq, success=False, message="no"))
            os.write(in_w, frame(4, "request", command="disconnect", arguments={}))
        except BrokenPipeError:
            pass  # it has ended
        os.close(in_w)
        in_w = -1
        data = b""
        while select.select([res_r], [], [], 60)[0] and (b := os.read(res_r, 65536)):
            data += b
        while select.select([out_r], [], [], 0)[0] and os.read(out_r, 65536):
            pass
        r = json.loads(data) if data else None
    finally:
        for fd in (in_w, out_r, res_r):
            if fd >= 0:
                os.close(fd)
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
    try:
        if r is None:
            return ("none", 1, [("harness", f"no result of the debug adapter: {got[-500:]!r}")])
        bad += [tuple(x) for x in r["bad"]]
        if r["mask"] != job["mask"]:
            bad.append(("mask-after", f"the mask is {r['mask']:03o} afterwards"))
        if not asked:
            bad.append(("failed", f"nothing is launched: {got[-500:]!r}"))
        kinds = {k for k, _ in r["seen"]}
        if asked and kinds != {"socket", "script"}:
            bad.append(("unseen", f"only {kinds} were seen being made"))
        if job.get("pre") and state(os.path.join(t, "ansibug-launch-taken")) != before:
            bad.append(("replaced", f"the {job['pre']} that was there became {state(os.path.join(t, 'ansibug-launch-taken'))}"))
        return ((asked, tuple(map(tuple, r["seen"]))), r["events"], bad)
    finally:
        for x in {d, t}:
            shutil.rmtree(x, ignore_errors=True)


def main():
    full = report.tier() == "thorough"
    procs.load()
    ck = report.Check("C27", assumptions=["a file is made with its mode in one system call (as the kernel does)", "masks that take the owner's own access are the owner's choice"])
    E = errno.EINVAL
    masks = range(512)
    jobs = [dict(addr=a, mask=m, fchmod=f) for a in ("random", "named", "path", "none", "long") for f in (0, E, errno.EPERM) for m in masks]
    few = (0o000, 0o002, 0o022, 0o027, 0o077, 0o177, 0o777)
    jobs += [dict(addr=a, mask=m, fchmod=f, pre=p) for a in ("named", "path", "random") for p in PRE for f in (0, E) for m in (masks if full else few)]
    ck.cases("listen", jobs, queue, "listening endpoints: address form x mask x whether the mode can be set beforehand x what is already there; the directory and the mask looked at after every call")
    jobs = [dict(mask=m, fchmod=f, dir=t) for t in (False, True) for f in (0, E) for m in (masks if full or (not t) else few)]
    jobs += [dict(mask=m, fchmod=0, dir=t, pre=p) for t in (False, True) for p in PRE for m in (few if full else (0o000, 0o022, 0o777))]
    ck.cases("launch", jobs, launch, "the two endpoints and the script of a launch: mask x whether the mode can be set beforehand x directory x what is already there", workers=12)
    return ck.finish()


if __name__ == "__main__":
    report.main("C27", main)
