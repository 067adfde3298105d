"""Run a range of indices and report slow, failed or non-repeatable runs. Usage: slow.py ID FROM TO [seed] [tier] [-d]"""
import os
import sys
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import multiprocessing as mp

from sim import env

real = time.monotonic
env.setup()
from importlib import import_module

from sim.core import plan_for, run_isolated


def one(a):
    cid, seed, tier, i, twice = a
    check = import_module("checks." + cid.lower()).CHECK
    t = real()
    r = run_isolated(check, plan_for(check, seed, i, tier))
    dt = real() - t
    again = run_isolated(check, plan_for(check, seed, i, tier))["loghash"] if twice else r["loghash"]
    return i, dt, r["status"], (r["msg"] or "")[-3000:], r["loghash"] == again


if __name__ == "__main__":
    args = [x for x in sys.argv[1:] if x != "-d"]
    cid, lo, hi = args[0], int(args[1]), int(args[2])
    seed = int(args[3]) if len(args) > 3 else 1
    tier = args[4] if len(args) > 4 else "quick"
    limit = float(os.environ.get("SLOW", "5"))
    with mp.get_context("fork").Pool(8) as pool:
        for i, dt, st, msg, same in pool.imap_unordered(one, [(cid, seed, tier, i, "-d" in sys.argv) for i in range(lo, hi)]):
            if dt > limit or st != "ok" or not same:
                print(i, round(dt, 1), st, "same" if same else "DIFFERENT", msg[-1500:], flush=True)
