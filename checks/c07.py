"""C07: however a session ends, the client is told once and the adapter finishes."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import dascen, h2, report  # noqa: E402
from mc.dascen import ODD, SIMPLE, BadStart, Launch, NoDebuggee, Overlap, Session  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


def main():
    h2.load()
    q = report.tier() == "quick"
    ck = report.Check("C07", assumptions=["whole writes to stdout are atomic, as io.BufferedWriter makes them", "deviations beyond the stated bound are not explored"])
    C = ("ending",)
    B = Bounds(1, timeout=0) if q else Bounds(2, timeout=0)
    B1 = Bounds(1, timeout=0)
    B0 = Bounds(0)
    s = []
    for start in ("attach", "launch"):
        for end in ("disconnect", "eof", "gone", "playbook", "playbook-late"):
            for ending in ("stop", "torn", "garbage", "half"):
                if ending != "stop" and not end.startswith("playbook"):
                    continue
                if ending in ("garbage", "half") and (start == "launch" or end == "playbook-late"):
                    continue
                for burst in (0, 1):
                    kw = dict(cats=C, end=end, burst=burst, ending=ending, start=start, ops=("configurationDone", "threads"))
                    if end.startswith("playbook"):
                        kw["requests"] = 2
                    b = B if start == "attach" and ending == "stop" else B1
                    if start == "launch" and (q and (burst or ending != "stop")):
                        b = B0
                    n = f"{start}-{end}-{ending}-{burst}"
                    s.append(Session(f"wait-{n}", b, **kw))
                    s.append(Overlap(f"overlap-{n}", b, **kw))
                    if end == "disconnect":
                        s.append(Session(f"piped-{n}", b, pipelined=True, **kw))
                        # the playbook ends at the same time
                        for term in (True, False):
                            s.append(Session(f"both-{n}-{term}", b, terminate=term, **{**kw, "requests": 2}))
                            s.append(Session(f"terminate-{n}-{term}", b, terminate=term, **kw))
    for end in ("disconnect", "eof", "gone"):
        s.append(NoDebuggee(f"nothing-{end}", B1, cats=C, end=end))
        s.append(NoDebuggee(f"nothing-first-{end}", B1, cats=C, end=end, first=False, ops=()))
        s.append(Session(f"unanswered-{end}", B, cats=C, end=end, wait=False, answer={"Threads": "never"}, ops=("threads",)))
    for how in ("attach-refused", "attach-nothing", "attach-pid", "attach-bad", "attach-closed", "attach-tls", "attach-mapping", "attach-slow", "launch-nothing", "launch-console", "launch-args"):
        s.append(BadStart(how, B0 if how != "attach-closed" else B1, cats=C, how=how))
    for how in ("connects", "ends-first", "timeout", "refused", "disconnect", "eof", "connect-end", "kill"):
        for early in ((), ("threads",)):
            s.append(Launch(f"launch-{how}-{len(early)}", B1 if not early and how in ("ends-first", "disconnect", "connect-end") else B0, cats=C, how=how, early=early, fails=how == "timeout", requests=0 if how == "connect-end" else 10**9))
    ck.explore("endings", s, cap_s=300 if q else 850, what="every way a session ends, in every timing")
    return ck.finish()


if __name__ == "__main__":
    report.main("C07", main)
