"""C06: every request gets exactly one matching response."""
import os
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import asks, dascen, h2, report  # noqa: E402
from mc.dascen import ODD, SIMPLE, BadStart, Launch, NoDebuggee, Overlap, Session  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


def main():
    q = report.tier() == "quick"
    ck = report.Check("C06", assumptions=["whole writes to stdout are atomic, as io.BufferedWriter makes them", "deviations beyond the stated bound are not explored"])
    # each part loads the code in its own way, in a process of its own
    if os.environ.get("C06_PART") == "playbook":
        ck.assumptions = ["tasks execute in the playbook process instead of forked workers"]
        asks.run(ck, q)
        return ck
    h2.load()
    C = ("answers",)
    B = Bounds(1, timeout=0) if q else Bounds(2, timeout=0)
    B1 = Bounds(1, timeout=0)
    B0 = Bounds(0)
    s = []
    # every request, answered and refused by the playbook, and unknown ones in between
    for op in SIMPLE:
        n = op[0].upper() + op[1:]
        for how in ("ok", "error"):
            s.append(Session(f"each-{op}-{how}", B0 if q else B1, cats=C, ops=("threads", op, "threads"), answer={n: how}))
        s.append(NoDebuggee(f"alone-{op}", B0, cats=C, ops=(op, "threads")))
        s.append(Session(f"each-{op}-never", B1, cats=C, ops=(op,), answer={n: "never"}))
    for op in (*ODD, "launch", "attach"):
        s.append(Session(f"odd-{op}", B0 if q else B1, cats=C, ops=("threads", op, "evaluate")))
        s.append(Session(f"odd-{op}-piped", B0 if q else B1, cats=C, ops=("threads", op, "evaluate"), pipelined=True))
        if op in ODD:
            s.append(NoDebuggee(f"alone-{op}", B0, cats=C, ops=(op, "threads")))
    for end in ("disconnect", "playbook", "playbook-late"):
        for burst in (0, 1):
            for ending in ("stop", "torn", "garbage"):
                if ending != "stop" and end == "disconnect":
                    continue
                if end == "playbook-late" and burst:
                    continue
                for req in (1, 2, 3):
                    kw = dict(cats=C, end=end, burst=burst, ending=ending)
                    if end != "disconnect":
                        kw["requests"] = req
                    elif req > 1:
                        continue
                    s.append(Session(f"piped-{end}-{ending}-{burst}-{req}", B1 if ending != "stop" else B, pipelined=True, **kw))
                    s.append(Overlap(f"overlap-{end}-{ending}-{burst}-{req}", B1 if ending != "stop" else B, **kw))
    for ending in ("stop", "torn"):
        s.append(Overlap(f"unanswered-{ending}", B, cats=C, end="playbook", ending=ending, requests=3, answer={"Threads": "never", "Evaluate": "never"}))
    for how in ("attach-refused", "attach-nothing", "attach-pid", "attach-bad", "attach-closed", "attach-tls", "attach-mapping", "attach-slow", "launch-nothing", "launch-console", "launch-args"):
        s.append(BadStart(how, B0 if how != "attach-closed" else B1, cats=C, how=how))
    for how in ("connects", "ends-first", "timeout", "refused", "disconnect", "connect-end"):
        for early in ((), ("threads",), ("unknown",), ("threads", "evaluate")):
            s.append(Launch(f"launch-{how}-{len(early)}{'u' if 'unknown' in early else ''}", B1 if not early and how in ("connects", "connect-end") else B0, cats=C, how=how, early=early, fails=how == "timeout", requests=0 if how == "connect-end" else 10**9, late=("threads", "unknown", "evaluate")))
    ck.explore("requests", s, cap_s=300 if q else 850, what="every request in every part of a session, with failures and ends in every timing")
    return ck


if __name__ == "__main__":
    report.main_parts("C06", main, "C06_PART", ["adapter", "playbook"])
