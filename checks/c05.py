"""C05: the client's stream is whole and contiguous."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import dascen, h2, report  # noqa: E402
from mc.dascen import BadStart, Launch, NoDebuggee, Overlap, Session  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


def main():
    h2.load()
    q = report.tier() == "quick"
    ck = report.Check("C05", assumptions=["whole writes to stdout are atomic, as io.BufferedWriter makes them", "deviations beyond the stated bound are not explored"])
    C = ("stream",)
    B = Bounds(1, timeout=0) if q else Bounds(2, timeout=0)
    s = []
    for end in ("disconnect", "eof", "playbook"):
        for burst in (0, 1, 2):
            kw = dict(cats=C, end=end, burst=burst, before=burst)
            if end == "playbook":
                kw["requests"] = 3
            s.append(Session(f"wait-{end}-{burst}", B, **kw))
            s.append(Session(f"piped-{end}-{burst}", B, pipelined=True, **kw))
            s.append(Overlap(f"overlap-{end}-{burst}", B, **kw))
    ck.explore("overlap", s, cap_s=200, what="the adapter's own messages, relayed messages and the end overlapping")
    return ck.finish()


if __name__ == "__main__":
    report.main("C05", main)
