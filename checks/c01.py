import itertools
import logging

from mc import boot, framing as F, report
from mc.par import pmap


def go() -> int:
    m = boot.load_plain(plugins=False)
    ck = report.Check(
        "C01",
        assumptions=[
            "two connection objects with equal attribute values behave the same (fresh-object enumeration does not rely on it)",
            "streams are the six fixed ones; the read size of the adapter's own loop is not varied beyond 4096",
        ],
    )
    q = report.tier() == "quick"
    tot = [0, 0, 0]
    names = list(F.streams(not q).items())
    for (name, st), r in zip(names, pmap(lambda j: F.graph(m.dap, j[0], j[1], 10**9 if not q else 40), names)):
        if r is None:
            tot = None
            break
        tr, n, bad = r
        tot[0] += n
        tot[1] += tr
        tot[2] += 1
        if bad:
            ck.add_violation(f"graph:{name}", f"stream '{name}': {bad}", {"part": "graph"})
    if tot:
        ck.count(
            "state graph",
            states=tot[0],
            transitions=tot[1],
            traces=tot[2],
            distinct=tot[0],
            samples=[name + ": " + repr(st[0])[:300] for name, st in F.streams(False).items()][:2],
            what="all states of the connection object reachable by feeding any number of bytes (quick: up to 40 at a time) or polling, in any order",
        )
    runs, outs = 0, 0
    names = list(F.streams(False).items())
    for (name, st), (n, o, bad) in zip(names, pmap(lambda j: F.chunkings(m.dap, j[0], j[1], 2), names)):
        runs += n
        outs += len(o)
        if bad:
            ck.add_violation(f"chunks:{name}", f"stream '{name}': {bad}", {"part": "chunks"})
    ck.count("chunkings", states=runs, transitions=3 * runs, traces=runs, distinct=outs, what="fresh connections, all cuts at up to 2 places, polled between pieces or not, three buffer types")
    n, bad = F.refusals(m.dap)
    for name, b in bad:
        ck.add_violation(f"refusal:{name}", b, {"part": "refusals"})
    ck.count("refusals", states=n, transitions=2 * n, traces=n, distinct=10, what="missing length and wrong numbers, every split in two")
    n, o, bad = F.outgoing(m.dap, 5 if q else 6)
    if bad:
        ck.add_violation("outgoing", bad, {"part": "outgoing"})
    ck.count("outgoing", states=n, transitions=5 * n, traces=n, distinct=len(o), what="all sequences of queueing and draining of this length")
    # the adapter's own loop, with and without debug logging
    data, _ = F.server_stream()
    jobs = []
    for debug in (False, True):
        for r in (0, 1, 2):
            step = 1 if r < 2 or not q else 5
            allcuts = list(itertools.combinations(range(1, len(data), step), r))
            for k in range(0, len(allcuts), 500):
                jobs.append((debug, allcuts[k : k + 500]))

    def some(job):
        debug, lst = job
        log = logging.getLogger("ansibug")
        logging.disable(logging.CRITICAL)
        if debug:
            logging.disable(logging.NOTSET)
            log.setLevel(logging.DEBUG)
            log.propagate = False
            log.handlers = [logging.NullHandler()]
        bad = [(debug, cuts, p) for cuts in lst for p in F.through_server(m, cuts)[:1]]
        logging.disable(logging.CRITICAL)
        return len(lst), bad[:5]

    n = 0
    for k, bad in pmap(some, jobs):
        n += k
        for debug, cuts, p in bad:
            ck.add_violation(f"server:{'debug' if debug else 'plain'}", f"adapter loop, debug logging {debug}, cuts {cuts}: {p}", {"part": "server", "cuts": list(cuts)})
    ck.count("adapter loop", states=n, transitions=3 * n, traces=n, distinct=3 * len(jobs), what="DAServer.start fed with one byte stream cut at up to 2 places, with and without debug logging")
    return ck.finish()


if __name__ == "__main__":
    report.main("C01", go)
