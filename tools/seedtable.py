"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed by the check as it was when the bug was planted, and what was added
MISSED = {
    "s11-colon-path": "fixture with separators in directory, file, task and host names",
    "s12-short-host": "hosts with dotted names",
    "s13-bangs": "malformed commands with several exclamation marks",
    "s14-outermost-vars": "conditions on variables only the innermost frame has",
    "s18-pid-tls": "`useTls` besides a process number",
    "s19-canonical-name": "certificates for the name or the addresses only",
    "s24-wait-limit": "a client that thinks for over an hour, before each of its messages (virtual time); C21 as well",
    "s25-index-error": "all requests with odd arguments to a real playbook",
    "s26-raw-unicode": "messages with non-ASCII text, control characters and header-like text",
}
MISSED.update(json.load(open(V + "/tools/missed.json")) if os.path.exists(V + "/tools/missed.json") else {})
rows = ["| bug | property | needs | found by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    how = "at once" if i not in MISSED else "after adding: " + MISSED[i]
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['property']} {how} |")
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\n\| bug \| property.*", "", s, flags=re.S).rstrip() + "\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
