from mc import report, transport as T
from mc.vsched import Bounds


def measure() -> tuple:
    m = T.Cut("measure", Bounds(0), how="measure")
    r = m.run([], m.bounds)
    return r.outcome[0]


def go() -> int:
    T.load()
    ck = report.Check(
        "C03",
        assumptions=[
            "unix-domain stream sockets of the running kernel stand for all transports; a reset is provoked by "
            "closing with unread data",
            "preemption at synchronisation and socket operations (the transport shares no other mutable state)",
            "deviations beyond the stated bound are not explored",
        ],
    )
    q = report.tier() == "quick"
    d = 2 if q else 3
    scns = []
    for closer in ("client", "server"):
        for back in (0, 2):
            scns.append(T.Flow(f"flow-{closer}-{back}", Bounds(d), closer=closer, back=back, short_reads=True))
    for closer in ("client", "server"):
        scns.append(
            T.Flow(f"flow-big-{closer}", Bounds(1 if q else 2), kind="big", closer=closer, back=1, short_reads=True, sndbuf=2048)
        )
    for after in (0, 1, 2):
        scns.append(T.Race(f"race-{after}", Bounds(d), after=after))
    ck.explore("whole histories and stop races", scns, what="two peers, histories of up to 5 messages, one side stops")
    crowd = []
    for family in ("uds", "tcp"):
        for n in (2, 3):
            for closer in ("client", "server"):
                crowd.append(T.Crowd(f"crowd-{family}-{n}-{closer}", Bounds((2 if n == 2 else 1) if q else 4 - n + 1, timeout=0), clients=n, family=family, closer=closer))
    ck.explore("several clients", crowd, what="two or three clients want one playbook")
    total = measure()
    cuts = []
    for how in ("close", "half", "reset"):
        for k in range(total[0] + 1):
            cuts.append(T.Cut(f"cut-{how}-{k}", Bounds(0 if q else 1), cut=k, how=how, total=total, short_reads=True))
    step = 1
    deep = [c for c in cuts if any(abs(c.cut - b) <= 5 for b in (0, *total[1]))]
    for c in deep if q else []:
        c.bounds = Bounds(1)
    ck.explore("stream cut at every byte", cuts, what=f"connection closed, half-closed or reset after each of {total[0]} bytes")
    return ck.finish()


if __name__ == "__main__":
    report.main("C03", go)
