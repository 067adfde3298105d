"""Save /repo's uncommitted change as a planted bug: mkbug.py ID PROPERTY NEEDS BREAKS (demo code on stdin)."""
import json, os, subprocess, sys

i, prop, needs, breaks = sys.argv[1:5]
d = f"/verif/seeded/{i}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff, "no change"
open(d + "/patch.diff", "w").write(diff)
code = sys.stdin.read()
open(d + "/demo.py", "w").write(code)
open(d + "/demo.sh", "w").write(
    '#!/bin/bash\n# Exits 0 if the property holds, 1 if it is broken. Run with the repository as current directory.\n'
    'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONPATH="$PWD/src"\n'
    'exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
print(diff.count("\n"), "lines")
