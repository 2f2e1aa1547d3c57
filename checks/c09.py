"""C09: the client ends the playbook at every moment."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import h1, report  # noqa: E402
from mc.endings import END, WHENS, Terminate  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


def main():
    h1.load()
    q = report.tier() == "quick"
    ck = report.Check("C09", assumptions=["a driver that makes Ansible's calls into the plugins replaces Ansible's engine", "deviations beyond the stated bound are not explored"])
    scns = []
    for when in WHENS:
        for how in END + ("terminate-disconnect",):
            for hosts in (("h1",), ("h1", "h2")):
                for mode in ("connect", "listen"):
                    if q and (mode == "listen" or len(hosts) == 2) and (how not in ("terminate",) or (mode == "listen" and len(hosts) == 2)):
                        continue
                    scns.append(Terminate(f"{how}-{when}-{len(hosts)}-{mode}", Bounds(1, timeout=0), how=how, when=when, hosts=hosts, mode=mode))
    ck.explore("terminating", scns, cap_s=400 if q else 850, what="every way to terminate at every moment, in every timing")
    return ck.finish()


if __name__ == "__main__":
    report.main("C09", main)
