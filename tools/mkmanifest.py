#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/*.py and the notes below."""
import json, os

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
KERNEL = "Real code under a controlled scheduler over real kernel sockets; exhaustive within the stated deviation bounds. Trusts the scheduler's stand-ins for threading/queue/select/time."
N = {
    "C01": ("explicit-state search over the connection object and exhaustive chunkings of fixed streams", "Complete over all feed/poll orders of six fixed streams; other stream contents are outside."),
    "C02": ("exhaustive enumeration of message kinds, field subsets and three value sets against a reference table", "Every kind and every subset within bounds, both directions; trusts the transcribed field-name table."),
    "C03": ("stateless exploration of thread interleavings, short reads and stream cuts of the real transport", KERNEL),
    "C04": ("stateless exploration of interleavings of operation, canceller and peer on the real transport", KERNEL),
}
try:
    from notes import MORE  # type: ignore
    N.update(MORE)
except ImportError:
    import sys
    sys.path.insert(0, "tools")
    try:
        from notes import MORE  # type: ignore
        N.update(MORE)
    except ImportError:
        pass
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in N and os.path.exists(f"checks/{i.lower()}.py"):
        tech, note = N[i][:2]
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "model checking: " + tech,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": N.get(i, ("", "the check for this property is not built yet"))[1]})
json.dump({
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: everything is controlled from outside by stand-in modules at import time (mc/shims.py).",
}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
