from mc import cancel as C, report, transport as T
from mc.vsched import Bounds


def go() -> int:
    T.load()
    ck = report.Check(
        "C04",
        assumptions=[
            "kernel sockets (unix and loopback TCP) give the blocking semantics; an operation is 'blocked' when the "
            "kernel reports it not ready",
            "encrypted handshakes are represented by a one-byte exchange each way with the same failure types",
            "deviations beyond the stated bound are not explored",
        ],
    )
    q = report.tier() == "quick"
    d = 2 if q else 3
    ops = []
    for fam in ("unix", "tcp"):
        for op in ("recv", "send", "accept", "connect"):
            peers = ["idle", "act", "close", "reset"]
            if op == "connect":
                peers = ["idle"]
            if fam == "unix":
                peers = [p for p in peers if p != "reset"]
            for peer in peers:
                ops.append(C.Op(f"{fam}-{op}-{peer}-cancel", Bounds(d), op=op, peer=peer, family=fam))
                if peer != "idle" or op == "connect":
                    ops.append(C.Op(f"{fam}-{op}-{peer}", Bounds(d), op=op, peer=peer, family=fam, cancel=False))
        ops.append(C.Op(f"{fam}-accept-timeout", Bounds(d), op="accept", family=fam, cancel=False, timeout=5))
        ops.append(C.Op(f"{fam}-accept-timeout-cancel", Bounds(d), op="accept", family=fam, timeout=5))
        ops.append(C.Op(f"{fam}-accept-timeout-act", Bounds(d), op="accept", peer="act", family=fam, cancel=False, timeout=5))
    ops.append(C.Op("tcp-connect-stuck-cancel", Bounds(d), op="connect-stuck", family="tcp"))
    ops.append(C.Op("tcp-connect-stuck-timeout", Bounds(d), op="connect-stuck", family="tcp", cancel=False, timeout=5))
    for s in ops:
        if s.name.startswith(("tcp-accept-timeout-act", "unix-accept-timeout-act")):
            s.bounds = Bounds(d, timeout=1)
        else:
            s.bounds = Bounds(d, timeout=0)
    ck.explore("single operations", ops, what="one operation, a peer and a canceller; then one operation after the cancellation")
    qs = []
    for side in ("server", "client"):
        for fam in ("unix", "tcp"):
            for tls in (False, True):
                for via in ("stop", "cancel"):
                    for peer in ("idle", "connect-silent", "connect", "chat", "vanish", "reset"):
                        if peer == "reset" and fam == "unix":
                            continue
                        if fam == "unix" and q and tls and peer not in ("idle", "connect-silent", "vanish"):
                            continue
                        if via == "stop" and fam == "unix" and q:
                            continue
                        qs.append(
                            C.StopQueue(
                                f"queue-{side}-{fam}-{'tls-' if tls else ''}{via}-{peer}",
                                Bounds(1 if q else 2, timeout=0),
                                side=side,
                                family=fam,
                                tls=tls,
                                via=via,
                                peer=peer,
                            )
                        )
                for peer in ("idle", "connect-silent", "connect"):
                    if side == "server" and peer == "connect-silent":
                        continue  # the client did connect
                    qs.append(
                        C.StopQueue(
                            f"queue-{side}-{fam}-{'tls-' if tls else ''}timeout-{peer}",
                            Bounds(1, timeout=0),
                            side=side,
                            family=fam,
                            tls=tls,
                            peer=peer,
                            timeout=5,
                            concurrent=False,
                        )
                    )
    ck.explore("whole connections", qs, what="a connection stopped while being set up, in use, or lost")
    return ck.finish()


if __name__ == "__main__":
    report.main("C04", go)
