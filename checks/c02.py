import os

from mc import boot, codec, report


def run_all(dap, jobs):
    bad, seen = [], set()
    n = 0
    for i, job in enumerate(jobs):
        n += 1
        rseq = 1000 + i
        try:
            p = codec.check_job(dap, job, rseq)
        except Exception as e:  # the code under test failed
            p = [f"{type(e).__name__}: {e}"]
        seen.add((job[0], frozenset(job[3])))
        if p:
            bad.append((job, p))
    return n, seen, bad


def go() -> int:
    m = boot.load_plain(plugins=False)
    ck = report.Check(
        "C02",
        assumptions=[
            "the reference table of protocol field names (mc/dap_table.json) is a transcription of the protocol, reviewed by hand",
            "subsets beyond the stated size and values outside the three value sets are not covered",
        ],
    )
    q = report.tier() == "quick"
    full = 8 if q else 12
    jobs = list(codec.jobs(full))
    # the codec caches what it learns about a class: try first-use orders both ways, in fresh processes
    for order in ("forwards", "backwards"):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            import pickle

            try:
                n, seen, bad = run_all(m.dap, jobs if order == "forwards" else jobs[::-1])
                with os.fdopen(w, "wb") as f:
                    pickle.dump((n, len(seen), bad[:50]), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            import pickle

            n, distinct, bad = pickle.load(f)
        os.waitpid(pid, 0)
        for job, p in bad:
            ck.add_violation(f"{job[0]}:{p[0].split(' is ')[0].split(' = ')[0][:80]}", f"{job[0]} in {job[1]}, fields {sorted(job[3])}, values {job[4]}: {p}"[:2500], {"job": [job[0], job[1], job[2], sorted(job[3]), job[4]], "order": order})
        ck.count(
            f"all kinds, {order}",
            states=n,
            transitions=3 * n,
            traces=n,
            distinct=distinct,
            samples=[repr(jobs[len(jobs) // 3])],
            what=f"every subset of up to {full} optional fields (else all up to 2 present or absent), three value sets, encode, decode and both",
        )
    return ck.finish()


if __name__ == "__main__":
    report.main("C02", go)
