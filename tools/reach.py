#!/opt/venv/bin/python
"""reach.py [N [CHECK ...]]: which lines of glimpse the simulated runs (N of each check) execute, and which they do not."""
import ast
import glob
import mmap
import os
import sys

sys.path.insert(0, "/verif")
from sim import env  # noqa: E402,F401
from sim import core  # noqa: E402
import run  # noqa: E402

N = int(sys.argv[1]) if len(sys.argv) > 1 else 100
IDS = sys.argv[2:] or sorted(os.path.basename(p)[:-3].upper() for p in glob.glob("/verif/checks/c[0-9]*.py"))
files = sorted(glob.glob("/repo/src/glimpse/**/*.py", recursive=True))
base, total = {}, 0
for f in files:
    base[f] = total
    total += sum(1 for _ in open(f)) + 2
buf = mmap.mmap(-1, total)
mon = sys.monitoring
mon.use_tool_id(4, "reach")


def line(code, n):
    b = base.get(code.co_filename)
    if b is not None:
        buf[b + n] = 1
    return mon.DISABLE


mon.register_callback(4, mon.events.LINE, line)
mon.set_events(4, mon.events.LINE)
import glimpse  # noqa: E402,F401

root = run.scratch()
pids = []
for w in range(8):
    pid = os.fork()
    if not pid:
        try:
            for cid in IDS:
                check = run.load(cid)
                for i in range(w, N, 8):
                    core.run_isolated(check, core.plan_for(check, 1, i, "quick"), scratch_root=root)
        except BaseException as e:
            print(cid, repr(e), file=sys.stderr)
        os._exit(0)
    pids.append(pid)
for p in pids:
    os.waitpid(p, 0)
run.shutil.rmtree(root, ignore_errors=True)


def ranges(ns):
    out = []
    for n in ns:
        if out and n <= out[-1][1] + 1:
            out[-1][1] = n
        else:
            out.append([n, n])
    return ",".join(str(a) if a == b else f"{a}-{b}" for a, b in out)


for f in files:
    tree = ast.parse(open(f).read())
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        want = set()
        for st in fn.body:
            for x in ast.walk(st):
                if isinstance(x, ast.stmt) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, (ast.FunctionDef,)):
                    want.add(x.lineno)
        missing = sorted(n for n in want if not buf[base[f] + n])
        if missing:
            print(f"{os.path.basename(f)}:{fn.name} {len(want) - len(missing)}/{len(want)} missing {ranges(missing)}")
