"""C08: the client leaves or is lost at every moment; the playbook runs on to its normal end."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import h1, report  # noqa: E402
from mc.endings import DETACH, WHENS, Detach  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


def main():
    h1.load()
    q = report.tier() == "quick"
    ck = report.Check("C08", assumptions=["a driver that makes Ansible's calls into the plugins replaces Ansible's engine", "deviations beyond the stated bound are not explored"])
    scns = []
    for when in WHENS:
        for how in DETACH + ("late",):
            for hosts in (("h1",), ("h1", "h2")):
                for mode in ("connect", "listen"):
                    if q and (mode, len(hosts)) != ("connect", 1) and (how != "disconnect" or (mode == "listen" and len(hosts) == 2) or when in ("running", "step", "play1")):
                        continue
                    if q and how in ("disconnect0", "torn", "late") and when not in ("done", "stop"):
                        continue
                    scns.append(Detach(f"{how}-{when}-{len(hosts)}-{mode}", Bounds(1, timeout=0), how=how, when=when, hosts=hosts, mode=mode))
    ck.explore("leaving", scns, cap_s=400 if q else 850, what="every way to leave at every moment, in every timing")
    return ck.finish()


if __name__ == "__main__":
    report.main("C08", main)
