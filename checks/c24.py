"""C24: an encrypted session exists only as configured, and bad peers never use it up."""
from __future__ import annotations

import itertools
import os
import socket
import struct
import sys
import threading
import time

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import boot, endp, procs, report, tlsx  # noqa: E402

# what trusts what
SERVERS = {"good": "good.pem", "misnamed": "misnamed.pem", "named": "named.pem", "numbered": "numbered.pem", "foreign": "foreign.pem", "expired": "expired.pem", "self": "self.pem"}
TRUST = {"ca.crt": "ca", "cadir": "ca", "other.crt": "other", "self.crt": "self"}
ISSUER = {"good": "ca", "misnamed": "ca", "named": "ca", "numbered": "ca", "foreign": "other", "expired": "ca", "self": "self"}
VERIFY = ["ca.crt", "cadir", "other.crt", "self.crt", "ignore", "verify", "verify+ca.crt", "verify+other.crt", "missing"]
CLIENTS = {
    "none": ({}, True, None),
    "good": ({"cert": "client.pem"}, True, "ca"),
    "apart": ({"cert": "client.crt", "key": "client.key"}, True, "ca"),
    "locked": ({"cert": "client.crt", "key": "client-enc.key", "password": "secret"}, True, "ca"),
    "wrong-password": ({"cert": "client.crt", "key": "client-enc.key", "password": "wrong"}, False, None),
    "other-key": ({"cert": "client.crt", "key": "good.key"}, False, None),
    "missing": ({"cert": "nothing.pem"}, False, None),
    "foreign": ({"cert": "clientforeign.pem"}, True, "other"),
    "expired": ({"cert": "clientexpired.pem"}, True, "expired"),
    "self": ({"cert": "self.pem"}, True, "self"),
}
DEMAND = {"no": None, "ca": "ca.crt", "cadir": "cadir"}
GOOD = {"tls": True, "verify": "ignore", "cert": "client.pem"}
PLAIN = {"tls": False}


def client_conf(job):
    if job["verify"] is None:
        return dict(PLAIN)
    v = job["verify"]
    out = dict(CLIENTS[job["client"]][0], tls=True, verify=v)
    if v.startswith("verify+"):
        out.update(verify="verify", system=v.split("+")[1])
    elif v == "missing":
        out.update(verify="nothing-here")
    return out


def expected(job) -> bool:
    """Whether the two configurations make a session."""
    if job["server"] is None or job["verify"] is None:
        return job["server"] is None and job["verify"] is None
    _, loads, signer = CLIENTS[job["client"]]
    if not loads:
        return False
    v = job["verify"]
    if v != "ignore":
        trusted = TRUST.get(v.split("+")[-1])
        if trusted != ISSUER[job["server"]] or job["server"] in ("misnamed", "expired"):
            return False
        # one certificate is for the name only, another for the addresses
        if job["server"] == ("numbered" if job.get("net") == "name" else "named"):
            return False
    return not (job["demand"] != "no" and signer != "ca")


def server_conf(job):
    if job["server"] is None:
        return {"cert": None}
    if job["server"] == "apart":
        return {"cert": "good.crt", "key": "good-enc.key", "password": "secret"}
    return {"cert": SERVERS[job["server"]], "ca": DEMAND[job["demand"]]}


def name_of(family):
    return {"4": (socket.AF_INET, "127.0.0.1", "127.0.0.1"), "6": (socket.AF_INET6, "::1", "[::1]"), "name": (socket.AF_INET, "127.0.0.1", "localhost")}[family]


def matrix(job):
    bad: list = []
    conf = server_conf(job)
    fam, host, shown = name_of(job["net"])
    server = tlsx.Server(conf, None if fam == socket.AF_INET else f"tcp://[{host}]:0")
    relay = tlsx.Relay(fam, host, server.where())
    want = expected(job)
    first = second = None
    steps = 1
    try:
        mixed = (job["server"] is None) != (job["verify"] is None)
        first = tlsx.Client(client_conf(job), f"tcp://{shown}:{relay.port}", timeout=0.5 if mixed else 20)
        ok = first.error is None
        if ok != want:
            bad.append(("session", f"a session is {'established' if ok else 'refused: ' + str(first.error)}, it should be {'established' if want else 'refused'}"))
        if job["server"] is not None:
            for way, data in relay.bytes.items():
                if w := tlsx.records(data):
                    bad.append(("wire", f"something else than TLS records is sent ({way}) {w}"))
        if ok:
            steps += 2
            if m := tlsx.talk(server, first):
                bad.append(("talk", f"after the client was accepted: {m}"))
            seen = tlsx.MARK.encode() in relay.bytes["c2s"] + relay.bytes["s2c"]
            if seen != (job["server"] is None):
                bad.append(("wire", f"the messages are {'readable' if seen else 'not readable'} on the wire"))
        else:
            first.close()
            if server.got or not first.box.empty():
                bad.append(("message", f"a message was exchanged although the attach failed: {server.got} {list(first.box.queue)}"))
            # without encryption there is no handshake the peer could have failed
            second = tlsx.Client(GOOD, server.address) if conf["cert"] else None
            steps += 3
            if not second:
                pass
            elif second.error:
                bad.append(("used-up", f"after a client failed with {first.error}, a valid one fails: {second.error} (server: {server.error!r})"))
            elif m := tlsx.talk(server, second):
                bad.append(("used-up", f"after a client failed with {first.error}: {m}"))
            elif len(server.got) != 1:
                bad.append(("message", f"messages of the failed client were delivered: {server.got}"))
    finally:
        for x in (first, second):
            if x:
                x.close()
        relay.close()
        server.close()
    return ((ok, (first.error or "").split(":")[0]), steps, bad)


def full_lengths(conf, client):
    """Bytes in each direction of a whole handshake up to the confirmation."""
    server = tlsx.Server(conf)
    relay = tlsx.Relay(socket.AF_INET, "127.0.0.1", server.where())
    c = tlsx.Client(client, f"tcp://127.0.0.1:{relay.port}")
    try:
        server.started.wait(10)
        return dict(relay.n)
    finally:
        c.close()
        relay.close()
        server.close()


ABORT = {
    "plain": ({"cert": None}, PLAIN),
    "tls": ({"cert": "good.pem"}, {"tls": True, "verify": "ca.crt"}),
    "mutual": ({"cert": "good.pem", "ca": "ca.crt"}, dict(GOOD, verify="ca.crt")),
}


def abort(job):
    """A valid client is cut off, then another comes."""
    bad: list = []
    conf, cl = ABORT[job["kind"]]
    server = tlsx.Server(conf)
    relay = tlsx.Relay(socket.AF_INET, "127.0.0.1", server.where(), (job["way"], job["n"], job["how"]))
    first = tlsx.Client(cl, f"tcp://127.0.0.1:{relay.port}", timeout=20)
    second = None
    out = "?"
    try:
        if first.error:
            relay.done.wait(10)
        # lengths differ a little from one handshake to another
        whole = relay.n["c2s"] >= job["whole"] - 6
        if first.error is None:
            out = "attached"
            if not server.started.wait(10):
                bad.append(("unknown", "the client was accepted but the server does not know"))
        else:
            second = tlsx.Client(dict(GOOD) if conf["cert"] else PLAIN, server.address, timeout=3 if whole else 20)
            if second.error is None:
                out = "retried"
                if m := tlsx.talk(server, second):
                    bad.append(("used-up", f"after a client was cut off: {m}"))
                elif len(server.got) != 1:
                    bad.append(("message", f"messages of the lost client were delivered: {server.got}"))
            elif not whole or not server.started.wait(10) or server.error:
                bad.append(("used-up", f"after a client was cut off with {relay.n} bytes exchanged, a valid one fails: {second.error} (server: {server.error!r})"))
            else:
                out = "used"  # the server had a complete session with the client that was lost
            if server.got and out != "retried":
                bad.append(("message", f"a message came from a client that never attached: {server.got}"))
    finally:
        for x in (first, second):
            if x:
                x.close()
        relay.close()
        server.close()
    return ((out, (first.error or "").split(":")[0]), 3, bad)


def stopping(job):
    """A side is stopped while it sends; what it still sends, wherever the stop is, is encrypted."""
    bad: list = []
    server = tlsx.Server({"cert": "good.pem"})
    relay = tlsx.Relay(socket.AF_INET, "127.0.0.1", server.where())
    client = tlsx.Client({"tls": True, "verify": "ca.crt"}, f"tcp://127.0.0.1:{relay.port}")
    orig = socket.socket.shutdown
    M = procs.load()
    me, way = (client, "c2s") if job["side"] == "client" else (server, "s2c")
    calls = [0]

    def drain():
        relay.hold.discard(way)
        last, same = -1, 0
        while same < 6:
            time.sleep(0.02)
            same = same + 1 if relay.n[way] == last else 0
            last = relay.n[way]

    def shutdown(sock, how):
        r = orig(sock, how)
        if threading.current_thread() is stopper:
            calls[0] += 1
            if calls[0] == job["at"]:
                drain()
        return r

    def send():
        try:
            for _ in range(2):
                me.q.send(M.dap.OutputEvent(category="console", output=tlsx.MARK * 100_000))
        except Exception as e:
            errors.append(type(e).__name__)

    errors: list = []
    sender = threading.Thread(target=send, daemon=True)
    stopper = threading.Thread(target=me.q.stop, daemon=True)
    try:
        if client.error or tlsx.talk(server, client):
            return ("none", 1, [("setup", f"no session: {client.error}")])
        relay.hold.add(way)
        sender.start()
        n = -1
        while relay.n[way] != n:
            n = relay.n[way]
            time.sleep(0.1)
        socket.socket.shutdown = shutdown
        stopper.start()
        stopper.join(20)
        if stopper.is_alive():
            bad.append(("hang", "the side that sends cannot be stopped"))
        relay.hold.discard(way)
        sender.join(10)
        relay.done.wait(2)
        for w in ("c2s", "s2c"):
            if tlsx.MARK.encode() in relay.bytes[w] or tlsx.records(relay.bytes[w]):
                bad.append(("wire", f"stopping the {job['side']} while it sends, with the peer reading after step {job['at']}, sends messages without encryption ({w}, {tlsx.records(relay.bytes[w])})"))
    finally:
        socket.socket.shutdown = orig
        client.close()
        relay.close()
        server.close()
    return ((calls[0], tuple(errors)), 4, bad)


RAW = {
    "nothing": [b""],
    "http": [b"GET / HTTP/1.1\r\n\r\n"],
    "record": [b"\x16\x03\x01", b"\x16\x03\x01\x00\x05\x01\x00\x00\x01\x00", b"\x16\x03\x01\xff\xff" + b"\x00" * 64],
    "alert": [b"\x15\x03\x03\x00\x02\x02\x28", b"\x15\x03\x01\x00\x02\x01\x00"],
    "data": [b"\x17\x03\x03\x00\x05hello", b"\x00" * 600],
    "pickle": [b"\x08\x00\x00\x00\x80\x04N.\x00\x00\x00\x00"],
}


def peer(kind, server, tls):
    """One peer that does not become a client; a word for how it ended."""
    if kind.startswith("raw-"):
        _, name, i, how = kind.split("-")
        s = socket.create_connection(server.where())
        try:
            s.sendall(RAW[name][int(i)])
            if how == "rst":
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif how == "fin":
                s.shutdown(socket.SHUT_WR)
                s.settimeout(10)
                while s.recv(4096):
                    pass
        except OSError:
            pass
        finally:
            s.close()
        return how
    conf = {
        "no-cert": {"tls": True, "verify": "ignore"},
        "bad-cert": {"tls": True, "verify": "ignore", "cert": "clientforeign.pem"},
        "distrust": dict(GOOD, verify="other.crt"),
        "plain": PLAIN,
    }[kind]
    c = tlsx.Client(conf, server.address, timeout=0.3 if kind == "plain" else 20)
    c.close()
    return "attached" if c.error is None else c.error.split(":")[0]


def sequence(job):
    bad: list = []
    server = tlsx.Server({"cert": "good.pem", "ca": "ca.crt"})
    out = []
    good = None
    try:
        for k in job["peers"]:
            r = peer(k, server, True)
            out.append(r)
            if r == "attached":
                bad.append(("session", f"the peer {k} has a session"))
        relay = tlsx.Relay(socket.AF_INET, "127.0.0.1", server.where())
        good = tlsx.Client(dict(GOOD, verify="ca.crt"), f"tcp://127.0.0.1:{relay.port}")
        if good.error:
            bad.append(("used-up", f"after the peers {job['peers']}, a valid client fails: {good.error} (server: {server.error!r})"))
        elif m := tlsx.talk(server, good):
            bad.append(("used-up", f"after the peers {job['peers']}: {m}"))
        elif len(server.got) != 1:
            bad.append(("message", f"messages of other peers were delivered: {server.got}"))
    finally:
        if good:
            good.close()
            relay.close()
        server.close()
    return (tuple(out), len(job["peers"]) + 2, bad)


PLAY = """
- hosts: localhost
  gather_facts: false
  tasks:
  - debug: {}
"""
C = tlsx.cert
# the listen command's options, and what attaches to it
LISTEN = {
    "off": ([], False, "no"),
    "one-file": (["--wrap-tls", "--tls-cert", C("good.pem")], "good", "no"),
    "two-files": (["--wrap-tls", "--tls-cert", C("good.crt"), "--tls-key", C("good.key")], "good", "no"),
    "locked": (["--wrap-tls", "--tls-cert", C("good.crt"), "--tls-key", C("good-enc.key"), "--tls-key-pass", "secret"], "good", "no"),
    "mutual": (["--wrap-tls", "--tls-cert", C("good.pem"), "--tls-client-ca", C("ca.crt")], "good", "ca"),
    "mutual-dir": (["--wrap-tls", "--tls-cert", C("good.pem"), "--tls-client-ca", C("cadir")], "good", "ca"),
    "foreign": (["--wrap-tls", "--tls-cert", C("foreign.pem")], "foreign", "no"),
    "misnamed": (["--wrap-tls", "--tls-cert", C("misnamed.pem"), "--tls-client-ca", C("ca.crt")], "misnamed", "ca"),
}
NEVER = {
    "no-cert": ["--wrap-tls"],
    "bad-password": ["--wrap-tls", "--tls-cert", C("good.crt"), "--tls-key", C("good-enc.key"), "--tls-key-pass", "wrong"],
    "no-such-ca": ["--wrap-tls", "--tls-cert", C("good.pem"), "--tls-client-ca", C("nothing.crt")],
    "no-such-cert": ["--wrap-tls", "--tls-cert", C("nothing.pem")],
    "other-key": ["--wrap-tls", "--tls-cert", C("good.crt"), "--tls-key", C("client.key")],
}


def attach_arguments(job, info, pid):
    conf = client_conf(job)
    a = {"processId": pid} if job["how"] == "pid" else {"address": info["address"], "useTls": conf["tls"]}
    if conf["tls"]:
        a["tlsVerification"] = conf["verify"] if conf["verify"] in ("verify", "ignore") else C(conf["verify"])
        for k, n in (("cert", "tlsCertificate"), ("key", "tlsKey")):
            if conf.get(k):
                a[n] = C(conf[k])
        if conf.get("password"):
            a["tlsKeyPassword"] = conf["password"]
    return a, {"SSL_CERT_FILE": C(conf["system"])} if conf.get("system") else {}


def command(job):
    """The listen command and real debug adapters: one as configured, then a valid one."""
    bad: list = []
    args, server, demand = LISTEN[job["listen"]]
    p = procs.Proc({"main.yml": PLAY}, "listen", args=["--addr", "tcp://127.0.0.1:0", *args])
    das: list = []
    out = []
    try:
        info = p.info()
        if info["use_tls"] != bool(server):
            bad.append(("info", f"the process information is {info}"))
        a, env = attach_arguments(job, info, p.p.pid)
        da = endp.Adapter(p.d, **env)
        das.append(da)
        err = da.attach(**a, connectTimeout=1 if bool(server) != (job["verify"] is not None) else 20)
        want = expected(dict(job, server=server or None, demand=demand))
        if job["how"] == "pid" and (not server or job["verify"] is None):
            want = not server  # the setting of the playbook is used
        out.append(err is None)
        if (err is None) != want:
            bad.append(("session", f"attaching with {a} {'succeeded' if err is None else 'failed: ' + err}, it should {'succeed' if want else 'fail'}"))
        if err is not None and not server:
            p.wait(60)
            return (tuple(out), 2, bad)
        if err is not None:
            g = {"address": info["address"], "useTls": True, "tlsVerification": "ignore", "tlsCertificate": C("client.pem")}
            da = endp.Adapter(p.d)
            das.append(da)
            e2 = da.attach(**g, connectTimeout=20)
            if e2:
                bad.append(("used-up", f"after attaching with {a} failed, a valid client fails: {e2}"))
                return (tuple(out), 3, bad)
        da.send("configurationDone")
        rc = p.wait(60)
        if rc != 0:
            bad.append(("result", f"the playbook ended with {rc}: {p.out()[-300:]}"))
    finally:
        for x in das:
            x.close()
        p.close()
    return (tuple(out), 4, bad)


def never(job):
    """Encryption settings that cannot be used never make a session."""
    bad: list = []
    p = procs.Proc({"main.yml": PLAY}, "listen", args=["--addr", "tcp://127.0.0.1:0", *NEVER[job["listen"]]])
    try:
        try:
            info = p.info(60)
            bad.append(("listens", f"ansibug listen {NEVER[job['listen']]} listens: {info}"))
        except TimeoutError:
            pass
        rc = p.p.poll()
    finally:
        p.close()
    return (rc, 1, bad)


def main():
    full = report.tier() == "thorough"
    procs.load()
    ck = report.Check("C24", assumptions=["the cryptography of OpenSSL is taken as it is", "a peer that neither completes, fails nor drops its handshake is not considered", "a peer cut after the server holds its complete handshake is a session that was lost, not one that failed"])
    v6 = True
    try:
        with socket.socket(socket.AF_INET6) as s:
            s.bind(("::1", 0))
    except OSError:
        v6 = False
    jobs = []
    for net in ("4", "name", "6") if v6 else ("4", "name"):
        if net != "4" and not full:
            some = [("good", "no", "ca.crt", "none"), ("misnamed", "no", "ca.crt", "none"), ("good", "ca", "cadir", "good"), ("named", "no", "ca.crt", "none"), ("numbered", "no", "ca.crt", "none"), ("named", "ca", "cadir", "good"), ("numbered", "no", "ignore", "none"), ("foreign", "ca", "ignore", "foreign")]
            jobs += [dict(net=net, server=s, demand=d, verify=v, client=c) for s, d, v, c in some]
            continue
        for s in (None, *SERVERS):
            for d in DEMAND if s else ("no",):
                for v in (None, *VERIFY):
                    for c in CLIENTS if v and s not in ("named", "numbered") else ("none",):
                        jobs.append(dict(net=net, server=s, demand=d, verify=v, client=c))
    ck.cases("matrix", jobs, matrix, "server certificate x client certificate demanded x client verification x client certificate, with a valid client after every refused one", workers=16)
    jobs = []
    for kind in ("plain", "tls", "mutual"):
        whole = full_lengths(*ABORT[kind])
        for how in ("fin", "rst"):
            for way in ("c2s", "s2c"):
                for n in range(0, whole[way] + 1):
                    jobs.append(dict(kind=kind, way=way, n=n, how=how, whole=whole["c2s"]))
    ck.cases("abort", jobs, abort, "a valid client's connection closed or reset after every number of bytes in either direction, then another client", workers=32)
    ck.cases("stopping", [dict(side=s, at=n) for s in ("client", "server") for n in range(0, 5)], stopping, "a side stopped while it sends, the peer reading after each step of the stop")
    raws = [f"raw-{k}-{i}-{how}" for k, v in RAW.items() for i in range(len(v)) for how in ("fin", "close", "rst")]
    peers = ["no-cert", "bad-cert", "distrust", "plain", *raws]
    few = ["no-cert", "bad-cert", "distrust", "raw-nothing-0-rst", "raw-nothing-0-close", "raw-record-0-close", "raw-record-2-rst", "raw-alert-0-fin"]
    seqs = [(p,) for p in peers] + list(itertools.product(few, repeat=2)) + (list(itertools.product(peers, repeat=2)) + list(itertools.product(few, repeat=3)) if full else [])
    ck.cases("peers", [dict(peers=s) for s in dict.fromkeys(seqs)], sequence, "sequences of peers that fail, abort or send other things before a valid client")
    jobs = []
    for li in LISTEN if full else ("off", "one-file", "locked", "mutual", "misnamed"):
        for how in ("pid", "address"):
            for v, c in ((None, "none"), ("ca.crt", "none"), ("ca.crt", "locked"), ("other.crt", "good"), ("ignore", "foreign"), ("verify", "good"), ("verify+ca.crt", "apart")):
                jobs.append(dict(listen=li, how=how, verify=v, client=c))
    ck.cases("command", jobs, command, "the listen command's options x attach arguments of real debug adapters, with a valid one after every refused one")
    ck.cases("never", [dict(listen=x) for x in NEVER], never, "settings that cannot be used")
    return ck.finish()


if __name__ == "__main__":
    report.main("C24", main)
