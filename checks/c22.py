"""C22: a launch connects or fails clearly, and leaves nothing behind."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import dascen, h2, report  # noqa: E402
from mc.dascen import Launch  # noqa: E402
from mc.scen import tmp  # noqa: E402
from mc.vsched import Bounds  # noqa: E402


def main():
    h2.load()
    q = report.tier() == "quick"
    ck = report.Check("C22", assumptions=["the Python interpreter the script starts is replaced by one that waits to be told how to end", "deviations beyond the stated bound are not explored"])
    C = ("launch",)
    B0 = Bounds(0)
    B1 = Bounds(1, timeout=0)
    B = B1 if q else Bounds(2, timeout=0)
    s = []
    for how in ("connects", "ends-first", "timeout", "refused", "disconnect", "eof", "connect-end", "kill"):
        for order in ("start-respond", "respond-start"):
            if order == "respond-start" and how in ("refused", "disconnect", "eof", "timeout"):
                continue
            kw = dict(cats=C, how=how, order=order, fails=how == "timeout", requests=0 if how == "connect-end" else 10**9)
            s.append(Launch(f"{how}-{order}", B if how not in ("timeout", "refused", "eof") else B1, **kw))
            for code in (0, 2, 250):
                if how == "ends-first":
                    s.append(Launch(f"{how}-{order}-{code}", B0, **{**kw, "code": code}))
            s.append(Launch(f"{how}-{order}-early", B0 if q else B1, early=("threads", "unknown"), **kw))
    n = 0
    base = {"logFile": "", "logLevel": ""}
    for args in ([], ["--check"], ["-e", '{"a": "b\'c"}', "*", "$(x)", "`y`", "", "\\n", "é"]):
        for console in ("integratedTerminal", "externalTerminal"):
            for log in (None, "/nonexistent/l o'g"):
                for level in ("info", "debug"):
                    for env in ({}, {"A": "1", "B": "x y\n'", "C": None}):
                        if log is None and level == "debug":
                            continue
                        a = {"args": args, "console": console, "env": env, "playbook": "a'b $c.yml", "connectTimeout": 0 if n % 2 else 3}
                        if log:
                            a["logFile"] = log
                            a["logLevel"] = level
                        n += 1
                        s.append(Launch(f"args-{n}", B0, cats=C, args=a))
    ck.explore("launches", s, cap_s=300 if q else 850, what="ends of a launch in every timing; requested commands, terminals and environments")
    return ck.finish()


if __name__ == "__main__":
    report.main("C22", main)
