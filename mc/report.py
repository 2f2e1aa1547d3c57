"""Check entry points: evidence, replay files, known findings, exit status."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

from . import boot, explore

OUT = os.path.join(boot.VERIF, "evidence")
KNOWN = os.path.join(boot.VERIF, "known_findings.json")


def job_key(job) -> str:
    return ",".join(f"{v}" for v in job.values()) if isinstance(job, dict) else str(job)


def tier() -> str:
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def seed() -> int:
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known_for(prop: str) -> dict:
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in data.get("findings", []) if e["property"] == prop}


class Check:
    """Collects what the parts of one property's check covered and concludes."""

    def __init__(self, prop: str, level: str = "model_checking", assumptions=()) -> None:
        self.prop = prop
        self.level = level
        self.t0 = time.monotonic()
        self.parts: list[dict] = []
        self.violations: list[dict] = []
        self.known_hit: dict[str, str] = {}
        self.samples: list = []
        self.states = self.transitions = self.traces = 0
        self.evaluations = self.distinct = 0
        self.exhaustive = True
        self.assumptions = list(assumptions)
        self.known = known_for(prop)

    def add_violation(self, key: str, message: str, replay: dict) -> None:
        if key in self.known:
            self.known_hit[key] = self.known[key]["what"]
            return
        self.violations.append({"key": key, "message": message, **replay})

    def explore(self, part: str, scns, cap_s: float = 600.0, what: str = "") -> None:
        if os.environ.get("MC_ONLY"):
            scns = [s for s in scns if os.environ["MC_ONLY"] in s.name]
            if not scns:
                return
        if os.environ.get("MC_REPLAY"):
            self._replay(scns)
            return
        t = time.monotonic()
        st, complete = explore.explore(scns, cap_s, known=set(self.known), stop_on=10**9 if os.environ.get("MC_ALL") else 1, progress=bool(os.environ.get("MC_PROGRESS")))
        self.states += st.nodes
        self.transitions += st.steps
        self.traces += st.executions
        self.evaluations += st.executions
        self.distinct += len(st.outcomes)
        self.exhaustive = self.exhaustive and (complete or bool(st.violations))
        for v in sorted(st.violations, key=lambda v: (v["deviations"], len(v["choices"]))):
            self.add_violation(
                v["key"],
                v["message"],
                {"part": part, "scenario": v["scenario"], "choices": v["choices"]},
            )
        self.samples += list(st.samples.values())[:3]
        self.parts.append(
            {
                "part": part,
                "what": what,
                "scenarios": len(scns),
                "bounds": sorted({json.dumps(s.bounds.to_json()) for s in scns if s.bounds is not None}),
                "executions": st.executions,
                "choice_nodes": st.nodes,
                "steps": st.steps,
                "distinct_outcomes": len(st.outcomes),
                "executions_by_deviations": {str(k): v for k, v in sorted(st.deviations.items())},
                "longest_choice_sequence": st.max_points,
                "completed_within_bounds": complete,
                "retried_schedules": st.retries,
                "diverged": st.diverged[:5],
                "unreproduced_violations": st.unreproduced,
                "wall_s": round(time.monotonic() - t, 2),
            }
        )

    def _replay(self, scns) -> None:
        with open(os.environ["MC_REPLAY"]) as f:
            v = json.load(f)
        for s in scns:
            if s.name == v["scenario"]:
                r = s.run([(a, b) for a, b in v["choices"]], s.bounds, True)
                print("\n".join(r.trace or []))
                print("divergence:", r.divergence)
                for k, m in r.violations:
                    print(f"REPRODUCED {k}: {m}")
                    self.violations.append({"key": k, "message": m, "scenario": s.name, "choices": v["choices"]})
                return

    def count(self, part: str, *, states: int, transitions: int, traces: int, distinct: int, samples=(), what="", complete=True, **extra):
        """Records an explicit-state search or enumeration done by the check itself."""
        self.states += states
        self.transitions += transitions
        self.traces += traces
        self.evaluations += transitions
        self.distinct += distinct
        self.exhaustive = self.exhaustive and complete
        self.samples += list(samples)[:3]
        self.parts.append(
            {
                "part": part,
                "what": what,
                "states": states,
                "transitions": transitions,
                "implementation_runs": traces,
                "distinct_outcomes": distinct,
                "completed_within_bounds": complete,
                **extra,
            }
        )

    def cases(self, part: str, jobs, one, what: str = "", workers: int | None = None, **extra) -> None:
        """Enumerates jobs in parallel: one(job) -> (outcome, steps, [(key, message)]).  What fails is done again."""
        from . import par

        jobs = list(jobs)
        if os.environ.get("MC_ONLY"):
            jobs = [j for j in jobs if os.environ["MC_ONLY"] in repr(j)]
        if os.environ.get("MC_REPLAY"):
            with open(os.environ["MC_REPLAY"]) as f:
                v = json.load(f)
            jobs = [j for j in jobs if v.get("part") == part and repr(j) == v.get("job")]
        t = time.monotonic()
        outcomes: set = set()
        steps = 0
        samples: list = []
        for job, (outcome, n, bad) in zip(jobs, par.pmap(one, jobs, workers)):
            if bad:
                keys = {k for k, _ in one(job)[2]}
                for k, m in bad:
                    if k in keys:
                        self.add_violation(f"{k}:{job_key(job)}", m, {"part": part, "job": repr(job)})
                    else:
                        print(f"{self.prop} {part}: not confirmed by doing it again: {k}:{job_key(job)}: {m[:300]}", flush=True)
            steps += n
            if outcome not in outcomes and len(samples) < 3:
                samples.append({"case": repr(job)[:300], "outcome": repr(outcome)[:300]})
            outcomes.add(outcome)
        self.count(part, states=len(jobs), transitions=steps, traces=len(jobs), distinct=len(outcomes), samples=samples, what=what, wall_s=round(time.monotonic() - t, 2), **extra)
        print(f"{self.prop} {part}: cases={len(jobs)}, steps={steps}, distinct_outcomes={len(outcomes)}, wall_s={time.monotonic() - t:.1f}", flush=True)

    def finish(self) -> int:
        os.makedirs(OUT, exist_ok=True)
        lines = []
        if os.environ.get("MC_REPLAY"):
            return 1 if self.violations else 0
        best: dict = {}
        for v in self.violations:
            best.setdefault(v["key"], v)
        self.violations = list(best.values())
        for i, v in enumerate(self.violations[: 200 if os.environ.get("MC_ALL") else 3]):
            d = os.path.join(OUT, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, **v}, f, indent=1, default=repr)
            lines.append((v, path))
        ev = {
            "property": self.prop,
            "tier": tier(),
            "seed": seed(),
            "level": self.level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": "every execution runs the real implementation; distinct = different observed outcomes",
                "samples": self.samples[:8] or ["none"],
                "exhaustive": self.exhaustive and not self.violations,
                "parts": self.parts,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.monotonic() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(OUT, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for p in self.parts:
            print(
                f"{self.prop} {p['part']}: "
                + ", ".join(f"{k}={p[k]}" for k in ("scenarios", "executions", "states", "transitions", "choice_nodes", "distinct_outcomes", "executions_by_deviations", "completed_within_bounds", "wall_s") if k in p)
            )
        for key, what in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        for v, path in lines:
            print(f"  {v['key']}: {v['message']}"[:3000])
            print(f"VIOLATION property={self.prop} replay={path}")
        sys.stdout.flush()
        return 1 if self.violations else 0


FIELDS = ("parts", "violations", "known_hit", "samples", "states", "transitions", "traces", "evaluations", "distinct", "exhaustive", "assumptions")


def _part(prop: str, fn, w: int) -> None:
    rc = 1
    try:
        boot.prepare()
        ck = fn()
        with os.fdopen(w, "w") as f:
            json.dump({k: getattr(ck, k) for k in FIELDS}, f, default=repr)
        rc = 0
    except BaseException:  # noqa: B902
        traceback.print_exc()
    finally:
        boot.drop_scratch()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def main_parts(prop: str, fn, var: str, parts: list) -> None:
    """Runs fn once per part, each in a process of its own, and concludes from all of them."""
    rc = 2
    try:
        boot.prepare()
        ck = Check(prop)
        ck.assumptions = []
        if os.environ.get("MC_PART"):
            parts = [p for p in parts if p == os.environ["MC_PART"]]
        for p in parts:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.environ[var] = p
                _part(prop, fn, w)
            os.close(w)
            with os.fdopen(r) as f:
                text = f.read()
            if os.waitpid(pid, 0)[1] or not text:
                raise RuntimeError(f"part {p} failed")
            got = json.loads(text)
            for k in FIELDS:
                v = getattr(ck, k)
                if isinstance(v, bool):
                    setattr(ck, k, v and got[k])
                elif isinstance(v, int):
                    setattr(ck, k, v + got[k])
                elif isinstance(v, dict):
                    v.update(got[k])
                elif k == "assumptions":
                    v += [a for a in got[k] if a not in v]
                elif k == "samples":
                    v += got[k][:4]
                else:
                    v += got[k]
        rc = ck.finish()
    except BaseException as e:  # noqa: B902
        traceback.print_exc()
        print(f"CHECK ERROR {prop}: {type(e).__name__}: {e}")
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def main(prop: str, fn) -> None:
    try:
        boot.prepare()
        rc = fn()
    except BaseException as e:  # noqa: B902
        traceback.print_exc()
        print(f"CHECK ERROR {prop}: {type(e).__name__}: {e}")
        rc = 2
    finally:
        boot.drop_scratch()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
