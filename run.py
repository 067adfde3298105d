#!/opt/venv/bin/python
"""Deterministic simulation of ezwelty/glimpse.

    run.py check ID [--tier quick|thorough] [--seed N] [--runs N] [--budget S]
    run.py replay FILE          re-execute one replay file in this process tree
    run.py selftest [ID ...]    determinism: same seeds, other processes, hash seeds, worker counts
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import env  # noqa: E402  (first: sets the environment)
from sim import core  # noqa: E402

VERIF = os.path.dirname(os.path.abspath(__file__))
TECHNIQUE = "deterministic simulation with fault injection (seeded search over schedules and fault sequences)"


def load(cid):
    mod = importlib.import_module(f"checks.{cid.lower()}")
    return mod.CHECK


def known_entries(cid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == cid]


def matcher(entries):
    def is_known(one):
        for e in entries:
            if one["kind"] == e["kind"] and (e.get("key") is None or one.get("key") == e["key"]):
                return e["id"]
        return None

    return is_known


def workers():
    return int(os.environ.get("VSIM_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))


def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    if base and shutil.disk_usage(base).free < (1 << 29):
        base = None
    return tempfile.mkdtemp(prefix="vsim-root-", dir=base)


def cmd_check(a):
    cid = a.id
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    t0 = core.REAL_MONO()
    env.setup()
    check = load(cid)
    limit, budget = (check.quick if tier == "quick" else check.thorough)
    limit = a.runs or limit
    budget = a.budget or budget
    root = scratch()
    print(f"check {cid} tier={tier} seed={seed} runs<={limit} budget={budget}s workers={workers()}", flush=True)
    try:
        entries = known_entries(cid)
        is_known = matcher(entries)
        reproduced = []
        for e in entries:
            r = core.run_isolated(check, e["plan"], choices=e.get("choices"), scratch_root=root)
            if r["status"] == "violation" and is_known(r) == e["id"]:
                reproduced.append(e["id"])
                print(f"KNOWN-FINDING: property={cid} {e['id']}: {e['what']}", flush=True)
            else:
                print(f"note: known finding {e['id']} did not reproduce ({r['status']} {r['kind']})")
        res = core.search(check, seed, tier, limit, budget, workers(), is_known, root)
        code = 0
        replay = None
        if res.violations:
            code = 1
            first = res.violations[0]
            print(f"violation at index {first['index']}: {first['kind']}: {first['msg'][:1500]}", flush=True)
            plan = core.plan_for(check, seed, first["index"], tier)
            mplan, mchoices, mres, tried = core.minimise(
                check, plan, first, 40 if tier == "quick" else 120, root, is_known)
            replay = write_replay(cid, seed, first, mplan, mchoices, mres, tried)
            same = verify_replay(replay)
            print(f"minimised with {tried} runs; replay in a fresh process: {same}", flush=True)
            print(f"VIOLATION property={cid} replay={replay}", flush=True)
        elif res.errors:
            for e in res.errors[:3]:
                print(f"harness error at index {e['index']}:\n{e['msg']}", file=sys.stderr)
            code = 2
        evidence(check, tier, seed, res, core.REAL_MONO() - t0, reproduced, limit)
        print(
            f"{cid}: {res.runs} runs in {res.wall:.1f}s, {len(res.logs)} distinct histories, "
            f"{sum(res.faults.values())} faults fired, violations={len(res.violations)} errors={len(res.errors)}"
        )
        if a.verbose:
            print("faults", dict(sorted(res.faults.items())))
            print("probes", dict(sorted(res.probes.items())))
        return code
    finally:
        shutil.rmtree(root, ignore_errors=True)


def write_replay(cid, seed, first, plan, choices, res, tried):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{cid}-seed{seed}-run{first['index']}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": cid,
                "seed": seed,
                "found_at_index": first["index"],
                "kind": res["kind"],
                "message": res["msg"],
                "plan": plan,
                "choices": choices,
                "event_log_hash": res["loghash"],
                "faults": res["faults"],
                "events": res.get("events", []),
                "minimiser_runs": tried,
            },
            f,
            indent=1,
        )
    return path


def verify_replay(path):
    try:
        out = subprocess.run(
            [sys.executable, os.path.join(VERIF, "run.py"), "replay", path], capture_output=True, text=True, timeout=300
        )
        return "reproduced exactly" if "REPLAY-IDENTICAL" in out.stdout else out.stdout.strip()[-300:]
    except Exception as e:  # noqa: BLE001
        return f"could not replay: {e}"


def cmd_replay(a):
    env.setup()
    with open(a.file) as f:
        data = json.load(f)
    check = load(data["property"])
    root = scratch()
    try:
        r = core.run_isolated(check, data["plan"], choices=data.get("choices"), scratch_root=root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if r["status"] == "violation":
        print(f"{r['kind']}: {r['msg'][:3000]}")
        for e in r.get("events", [])[-40:]:
            print("  ", e[:300])
        if r["kind"] == data["kind"] and r["loghash"] == data["event_log_hash"]:
            print("REPLAY-IDENTICAL")
        print(f"VIOLATION property={data['property']} replay={a.file}")
        return 1
    print(r["status"], r["msg"])
    return 0 if r["status"] == "ok" else 2


def evidence(check, tier, seed, res, wall, reproduced, limit):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    hours = max(res.wall, 1e-9) / 3600
    cov = {
        "evaluations": res.runs,
        "distinct_nontrivial": len(res.logs),
        "rule": check.rule,
        "samples": res.samples or [{"note": "no run finished"}],
        "runs_per_hour": int(res.runs / hours),
        "seeds_per_hour": int(res.runs / hours),
        "simulated_time_s": round(res.sim, 1),
        "scheduler_steps": res.steps,
        "faults_injected": dict(sorted(res.faults.items())),
        "fault_kinds": sorted(res.faults),
        "distinct_schedules": len(res.scheds),
        "distinct_states": len(res.states),
        "state_measure": check.measure,
        "probes": dict(sorted(res.probes.items())),
        "probes_never_hit": sorted(p for p in getattr(check, "expect_probes", ()) if not res.probes.get(p)),
        "real_components": check.real,
        "stubbed_components": check.stubs,
        "run_limit": limit,
        "known_findings_reproduced": reproduced,
        "exhaustive": False,
    }
    data = {
        "property": check.id,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(res.violations),
    }
    path = os.path.join(VERIF, "evidence", f"{check.id}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(data, f, indent=1)
    os.replace(path + ".tmp", path)


def cmd_hashes(a):
    """Print the event-log hash of the first N runs (used by selftest)."""
    env.setup()
    check = load(a.id)
    root = scratch()
    try:
        res = core.search(check, a.seed or 1, a.tier or "quick", a.runs, 3600, workers(), lambda v: None, root, True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(json.dumps({str(k): v for k, v in sorted(res.loghashes.items())}))
    if res.errors:
        print(res.errors[0]["msg"], file=sys.stderr)
    return 0


def cmd_selftest(a):
    """Same seeds in different processes, hash seeds and worker counts give the same histories."""
    ids = a.ids or sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "checks")) if f.startswith("c"))
    bad = 0
    for cid in ids:
        for seed in range(1, 1 + a.seeds):
            outs = []
            for hs, nw in (("0", "8"), ("12345", "3"), ("77", "8")):
                e = dict(os.environ, PYTHONHASHSEED=hs, VSIM_WORKERS=nw)
                p = subprocess.run(
                    [sys.executable, __file__, "hashes", cid, "--runs", str(a.runs), "--seed", str(seed)],
                    capture_output=True, text=True, env=e)
                try:
                    outs.append(json.loads(p.stdout.strip().splitlines()[-1]))
                except (ValueError, IndexError):
                    print(cid, "no result:", p.stderr[-2000:])
                    outs.append({})
            diff = [k for k in outs[0] if any(o.get(k) != outs[0][k] for o in outs[1:])]
            bad += bool(diff) or not outs[0]
            print(cid, "seed", seed, len(outs[0]), "runs x3:", "identical" if not diff else f"DIFFERENT {diff[:10]}", flush=True)
    return 1 if bad else 0


def cmd_setup(a):
    env.setup()
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.startswith("c") and f.endswith(".py"):
            load(f[:-3])
    print("simulator ready")
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier")
    c.add_argument("--seed", type=int)
    c.add_argument("--runs", type=int)
    c.add_argument("--budget", type=float)
    c.add_argument("-v", "--verbose", action="store_true")
    c = sub.add_parser("replay")
    c.add_argument("file")
    c = sub.add_parser("hashes")
    c.add_argument("id")
    c.add_argument("--runs", type=int, default=100)
    c.add_argument("--seed", type=int)
    c.add_argument("--tier")
    c = sub.add_parser("selftest")
    c.add_argument("ids", nargs="*")
    c.add_argument("--runs", type=int, default=100)
    c.add_argument("--seeds", type=int, default=2)
    sub.add_parser("setup")
    a = ap.parse_args()
    sys.exit(globals()["cmd_" + a.cmd](a))


if __name__ == "__main__":
    main()
