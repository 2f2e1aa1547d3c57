"""mkseed.py ID PROPERTY < json {needs, breaks, edits:[[file, old, new],...], demo: text}: writes seeded/ID from a git diff made in a scratch copy."""
import sys, json, os, subprocess, shutil, tempfile
sid, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="mkseed-")
subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
for f, old, new in ns["EDITS"]:
    p = f"{tmp}/r/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], stdout=subprocess.PIPE, check=True).stdout
open(d + "/patch.diff", "wb").write(diff)
shutil.rmtree(tmp)
open(d + "/demo.py", "w").write(ns["DEMO"])
if "demolib" in ns["DEMO"]:
    shutil.copy("/verif/tools/demolib.py", d + "/demolib.py")
open(d + "/demo.sh", "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout %d /opt/venv/bin/python "$here/demo.py"\n' % ns.get("TIMEOUT", 60))
json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
