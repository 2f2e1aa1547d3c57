"""C23: a listening playbook is found and reached at exactly the address it gives.

Every combination of address form, temporary directory, kind of host and way to
attach is run with real processes: a listening debugger and a real debug adapter
started in another directory, which is given the announced address or the
process number, unchanged.
"""
from __future__ import annotations

import json
import os
import socket

from mc import boot, endp, procs, report

CERTS = os.path.join(boot.VERIF, "mc", "certs")
# (form, whether it is acceptable); {d} the temporary directory, {p} a free port
TCP = ["tcp://", "tcp://:0", "tcp://127.0.0.1:0", "tcp://localhost:0", "tcp://0.0.0.0:0", "tcp://:{p}", "tcp://127.0.0.1:{p}", "TCP://127.0.0.1:0"]
TCP6 = ["tcp://[::1]:0", "tcp://[::]:0", "tcp://[::1]:{p}"]
UDS = ["uds:{d}/a..b", "uds:{d}/éééééééééééééééééééé", "uds://", "uds://name", "uds://Name.Sock", "uds://a b", "uds://a#b", "uds://a?b", "uds://a%20b", "uds://a@b", "uds://a:b", "uds://a;b&c", "uds://[x]", "uds://é", "uds:{d}/abs", "uds://{d}/abs", "uds:{d}/x#y?z", "uds://{d}/x#y?z", "uds:{d}/[x", "uds:rel", "uds:sub/rel", "UDS://Name", "uds:{d}/sub/../dots"]
BAD = ["", "x", "tcp", "uds", "{d}/abs", "tcp://localhost", "tcp://127.0.0.1", "tcp://127.0.0.1:x", "tcp://127.0.0.1:70000", "tcp://127.0.0.1:-1", "tcp://[::1:0", "tcp://[::1]", "http://127.0.0.1:1", "://", "uds://a/b", "unix://name", "127.0.0.1:1234"]
# well formed but nobody can listen there
CANNOT = ["uds:{d}/none/sock", "uds:{d}/sub", "tcp://192.0.2.7:0", "uds:{d}/" + "n" * 120]
DIRS = ["", "plain", "a#b", "a?b", "a b", "a%20b", "é", "a:b@c", "[x", "a\tb", "a\\b"]


def ipv6() -> bool:
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_STREAM) as s:
            s.bind(("::1", 0))
        return socket.has_dualstack_ipv6()
    except OSError:
        return False


def free_port() -> int:
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def fill(addr, d):
    return addr.replace("{d}", d).replace("{p}", str(free_port()) if "{p}" in addr else "")


def attach_args(job, listener, tls):
    if job["how"] == "pid":
        a = {"processId": listener.p.pid}
        if job.get("says") is not None:  # the process itself says whether it encrypts
            a["useTls"] = job["says"]
    else:
        a = {"address": listener.address, "useTls": tls}
    if tls:
        a["tlsVerification"] = "ignore"
    return dict(a, connectTimeout=20)


def serve(job, d, listener, bad, want, out):
    """Attaches and goes through a session; everything said about it holds all along."""
    da = endp.Adapter(d.d, cwd="/")
    try:
        err = da.attach(**attach_args(job, listener, bool(job["tls"])))
        out.append(err is None)
        if err:
            bad.append(("unreachable", f"attaching by {job['how']} to the announced address {listener.address!r} failed: {err}"))
            return
        if (i := listener.info()) != want:
            bad.append(("info-while-serving", f"the process information is {i} while serving a client, expected {want}"))
        da.send("configurationDone")
        if not listener.ask("configured").get("configured"):
            bad.append(("not-served", "a client attached but its requests do not reach the playbook"))
        if (i := listener.info()) != want:
            bad.append(("info-while-serving", f"the process information is {i} while serving a client, expected {want}"))
        if job["end"] == "leave":
            da.close()
        else:
            listener.ask("shutdown")
        if not listener.gone():
            bad.append(("info-after", f"the process information is still there after the end ({job['end']})"))
    finally:
        da.close()


def reach(job):
    bad: list = []
    out: list = []
    with endp.Dir(job["tmp"]) as d:
        os.makedirs(d.d + "/sub", exist_ok=True)
        addr = fill(job["addr"], d.d)
        tls = {"certfile": CERTS + "/good.pem"} if job["tls"] else None
        li = endp.Listener(d.d, addr, dual=job["dual"], tls=tls, playbook="the playbook.yml")
        try:
            if li.error:
                bad.append(("refused", f"the address {addr!r} is not accepted: {li.error}"))
                return ("refused", 1, bad)
            want = {"pid": li.p.pid, "address": li.address, "use_tls": bool(tls), "playbook_file": "the playbook.yml"}
            if (i := li.info()) != want:
                bad.append(("info", f"the process information is {i}, expected {want}"))
            serve(job, d, li, bad, want, out)
        finally:
            li.close()
    return (tuple(out), 6, bad)


def refused(job):
    """Malformed or impossible addresses to listen on."""
    bad: list = []
    with endp.Dir(job["tmp"]) as d:
        os.makedirs(d.d + "/sub", exist_ok=True)
        addr = fill(job["addr"], d.d)
        li = endp.Listener(d.d, addr, dual=job["dual"])
        try:
            if not li.error:
                bad.append(("accepted", f"the address {addr!r} is accepted, announcing {li.address!r}"))
            left = [n for n in os.listdir(d.d) if n != "sub"]
            if left:
                bad.append(("left", f"the refused address {addr!r} left {left}"))
        finally:
            li.close()
    return (bool(li.error), 2, bad)


def garbage(job):
    """Attaching to what is not there is refused with an error."""
    bad: list = []
    with endp.Dir() as d:
        os.makedirs(d.d + "/sub", exist_ok=True)
        li = None
        args: dict = {}
        what = job["what"]
        if what == "none":
            pass
        elif what == "empty":
            args = {"address": ""}
        elif what == "pid-missing":
            args = {"processId": 2**22 - 7}
        elif what == "pid-zero":
            args = {"processId": 0}
        elif what == "pid-text":
            args = {"processId": 12345}
            open(d.d + "/ansibug-pid-12345", "w").write("not json")
        elif what == "pid-empty":
            args = {"processId": 12345}
            open(d.d + "/ansibug-pid-12345", "w").write("")
        elif what == "pid-fields":
            args = {"processId": 12345}
            open(d.d + "/ansibug-pid-12345", "w").write("{}")
        elif what == "pid-stale":
            args = {"processId": 12345}
            open(d.d + "/ansibug-pid-12345", "w").write(json.dumps({"pid": 12345, "address": f"uds://{d.d}/gone", "use_tls": False, "playbook_file": None}))
        elif what == "pid-ended":
            li = endp.Listener(d.d, "uds://")
            args = {"processId": li.p.pid}
            li.ask("shutdown")
        elif what == "address-ended":
            li = endp.Listener(d.d, "tcp://")
            args = {"address": li.address}
            li.ask("shutdown")
        else:
            args = {"address": fill(what, d.d)}
        da = endp.Adapter(d.d, cwd="/")
        err = None
        try:
            err = da.attach(**args, connectTimeout=5)
            if err is None:
                bad.append(("attached", f"attaching with {args} succeeded"))
            elif "ended" in err:
                bad.append(("no-answer", f"attaching with {args} ended the debug adapter without an answer"))
        finally:
            da.close()
            if li:
                li.close()
    return (bool(err), 3, bad)


def pair(job):
    """Two playbooks given the same address: whatever is announced leads to the one that announced it."""
    bad: list = []
    with endp.Dir() as d:
        addr = fill(job["addr"], d.d)
        a = endp.Listener(d.d, addr)
        b = endp.Listener(d.d, addr)
        both = [x for x in (a, b) if not x.error]
        das = []
        try:
            if a.error:
                bad.append(("refused", f"the address {addr!r} is not accepted: {a.error}"))
            if len(both) == 2 and a.address == b.address:
                bad.append(("same-address", f"two playbooks listening on {addr!r} announce the same address {a.address!r}"))
            for x in both if job["order"] == "first" else both[::-1]:
                da = endp.Adapter(d.d, cwd="/")
                das.append(da)
                err = da.attach(**attach_args({"how": job["how"]}, x, False))
                which = "first" if x is a else "second"
                if err:
                    bad.append(("pair-unreachable", f"two playbooks listen on {addr!r}: the {which} cannot be reached at {x.address!r}: {err}"))
                    continue
                da.ask("setExceptionBreakpoints", {"filters": []})
                if "SetExceptionBreakpointsRequest" not in x.ask("got")["got"] and a.address != b.address:
                    bad.append(("wrong-playbook", f"two playbooks listen on {addr!r}: a client of the {which} did not reach it"))
            if b.error and os.path.exists(b.pidfile):
                bad.append(("left", "the refused playbook left its process information"))
        finally:
            for x in das:
                x.close()
            a.close()
            b.close()
    return (len(both), 4, bad)


PLAY = """
- hosts: localhost
  gather_facts: false
  tasks:
  - debug: {}
"""


def command(job):
    """`ansibug listen` itself."""
    bad: list = []
    args = [f"--addr={job['addr']}"] if job["addr"] is not None else []
    if job["tls"]:
        args += ["--wrap-tls", "--tls-cert", CERTS + "/good.pem"]
    p = procs.Proc({"main.yml": PLAY}, "listen", args=args)
    da = None
    rc = None
    try:
        try:
            info = p.info()
        except TimeoutError as e:
            return ("refused", 1, [("refused", f"ansibug listen {args} did not listen: {e}")])
        main = os.path.join(p.d, "main.yml")
        if info["pid"] != p.p.pid or info["use_tls"] != job["tls"] or os.path.join(p.d, info["playbook_file"] or "") != main:
            bad.append(("info", f"the process information is {info}"))
        da = endp.Adapter(p.d, cwd="/")
        err = da.attach(**({"processId": p.p.pid} if job["how"] == "pid" else {"address": info["address"], "useTls": job["tls"]}), tlsVerification="ignore", connectTimeout=20)
        if err:
            bad.append(("unreachable", f"attaching by {job['how']} to {info} failed: {err}"))
            return ("unreachable", 2, bad)
        if info["address"] not in p.out():
            bad.append(("announced", f"{info['address']} is not the announced address: {p.out()[:300]}"))
        now = json.load(open(p.pidfile))
        if now != info:
            bad.append(("info-while-serving", f"the process information changed from {info} to {now}"))
        da.send("configurationDone")
        rc = p.wait(60)
        if rc != 0:
            bad.append(("result", f"the playbook ended with {rc}: {p.out()[-300:]}"))
        if left := p.left():
            bad.append(("info-after", f"left behind: {left}"))
    finally:
        if da:
            da.close()
        p.close()
    return (rc, 5, bad)


def main() -> int:
    c = report.Check("C23", assumptions=["a playbook ended by a signal it cannot handle is not considered", "name resolution is that of this host: numeric addresses and localhost"])
    v6 = ipv6()
    full = report.tier() == "thorough"
    jobs = []
    tcp = TCP + (TCP6 if v6 else [])
    for dual in (True, False):
        if dual and not v6:
            continue
        for addr in tcp:
            for how in ("pid", "address"):
                for end in ("leave", "shutdown"):
                    for tls in (False, True):
                        if not full and (tls != (end == "leave")) ^ (how == "pid"):
                            continue
                        jobs.append(dict(addr=addr, tmp="", dual=dual, how=how, end=end, tls=tls))
    for addr in UDS:
        for how in ("pid", "address"):
            for end in ("leave", "shutdown"):
                if not full and (how == "pid") ^ (end == "leave"):
                    continue
                jobs.append(dict(addr=addr, tmp="", dual=v6, how=how, end=end, tls=end == "leave"))
    for tmp in DIRS:
        for addr in ("uds://", "uds://name", "tcp://", "uds:{d}/x", "uds:rel") if full else ("uds://", "uds:{d}/x"):
            for how in ("pid", "address"):
                jobs.append(dict(addr=addr, tmp=tmp, dual=v6, how=how, end="shutdown", tls=False))
    for addr in ("uds://", "tcp://127.0.0.1:0"):
        for tls in (False, True):
            for says in (False, True):
                jobs.append(dict(addr=addr, tmp="", dual=v6, how="pid", end="shutdown", tls=tls, says=says))
    c.cases("reach", jobs, reach, "address form x temporary directory x address families of the host x attach by number or address x encryption x ending, real processes")
    c.cases("refuse", [dict(addr=a, tmp="", dual=dual) for a in BAD + CANNOT for dual in ((True, False) if v6 and full else (v6,))], refused, "addresses nobody can listen on")
    gone = ["none", "empty", "pid-missing", "pid-zero", "pid-text", "pid-empty", "pid-fields", "pid-stale", "pid-ended", "address-ended", "uds:{d}/gone", "uds://gone", "uds:{d}/sub", "tcp://127.0.0.1:{p}", "tcp://localhost:{p}"] + [b for b in BAD if b]
    c.cases("missing", [dict(what=w) for w in gone], garbage, "attaching to missing processes and missing or malformed addresses")
    c.cases("pair", [dict(addr=a, order=o, how=h) for a in ("tcp://", "tcp://127.0.0.1:{p}", "tcp://:{p}", "uds://", "uds://name") for o in ("first", "second") for h in ("pid", "address")], pair, "two playbooks given one address")
    addrs = [None, "tcp://127.0.0.1:0", "uds://a#b", "uds:rel"] if not full else [None, *tcp, *UDS]
    c.cases("command", [dict(addr=a, how=h, tls=t) for a in addrs if a is None or "{p}" not in a and "sub/" not in a for h in ("pid", "address") for t in (False, True)], command, "the listen command")
    return c.finish()


if __name__ == "__main__":
    report.main("C23", main)
