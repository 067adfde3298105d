"""Core of the simulator: choices, run context, isolated runs, search, minimiser, evidence.

One *run* is a pure function of (check, plan, code under test).  A plan is a JSON
object generated from one PRNG seeded by (property, VERIF_SEED, run index); every
scheduling decision during the run comes from ``ctx.choices`` (seeded from the plan, or
preset on replay).  Each run executes in its own forked process with its own scratch
directory, so that no run sees what another left behind.
"""
import collections
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

# real functions, kept before any seam is installed
REAL_TIME = time.time
REAL_MONO = time.monotonic

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = int(os.environ.get("VSIM_CPU_LIMIT", "60"))  # CPU seconds per simulated process
WALL_LIMIT = int(os.environ.get("VSIM_WALL_LIMIT", "240"))  # wall seconds per run


class Violation(Exception):
    """A property does not hold. ``kind`` is the violation class used by the minimiser."""

    def __init__(self, kind, msg, key=None):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.key = kind, msg, key


class HarnessError(Exception):
    """The machinery itself failed: never a verdict about the property."""


class Deadlock(BaseException):
    """No simulated task can make progress although work is left."""


class StepLimit(BaseException):
    """Raised inside the code under test when its deterministic step budget is used up."""


class Choices:
    """The only source of scheduling decisions. Index 0 is always the tamest choice."""

    def __init__(self, seed, preset=None):
        self.rng = random.Random(f"choices:{seed}")
        self.preset = preset
        self.log = []

    def pick(self, n):
        if n <= 1:
            return 0
        i = len(self.log)
        if self.preset is not None:
            v = self.preset[i] % n if i < len(self.preset) else 0
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v


class Ctx:
    """What a check sees while it executes one plan."""

    def __init__(self, plan, scratch, choices=None):
        self.plan = plan
        self.scratch = scratch
        self.choices = Choices(plan.get("sched_seed", 0), preset=choices)
        self.events = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sim_seconds = 0.0
        self.steps = 0
        self.states = set()

    def log(self, *event):
        self.events.append(repr(event).replace(self.scratch, "<scratch>"))

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, value):
        """Record a reached state (hashed)."""
        self.states.add(hashlib.sha1(repr(value).encode()).hexdigest()[:12])

    def check(self, ok, kind, msg="", key=None):
        if not ok:
            raise Violation(kind, msg() if callable(msg) else msg, key)

    def loghash(self):
        return hashlib.sha256("\n".join(self.events).encode()).hexdigest()[:20]


def digest(*objs):
    """Stable digest of nested arrays and plain values."""
    import numpy as np

    h = hashlib.sha256()

    def add(o):
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                h.update(b"O%r" % (o.shape,))
                for x in o.ravel():
                    add(x)
            else:
                h.update(b"A%s%r" % (o.dtype.str.encode(), o.shape))
                a = np.ascontiguousarray(o)
                if a.dtype.kind == "f":
                    a = a + 0.0  # -0.0 and 0.0 are the same value
                    a = np.where(np.isnan(a), np.nan, a)
                h.update(a.tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b"L%d" % len(o))
            for x in o:
                add(x)
        elif isinstance(o, dict):
            h.update(b"D%d" % len(o))
            for k in sorted(o, key=repr):
                add(k)
                add(o[k])
        elif isinstance(o, np.generic):
            add(np.asarray(o))
        else:
            h.update(repr(o).encode())

    for o in objs:
        add(o)
    return h.hexdigest()[:16]


CODE_ROOT = "/repo/src/"


def in_code_under_test(e):
    """Whether the exception (or one of its causes) passed through the code under test."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(CODE_ROOT):
                return True
            tb = tb.tb_next
        if type(e).__name__ == "WorkerException" and CODE_ROOT in repr(e.args) + str(getattr(e, "traceback", "")):
            return True
        e = e.__cause__ or e.__context__
    return False


# ---- isolated execution ----


def _execute(check, plan, scratch, choices):
    ctx = Ctx(plan, scratch, choices)
    out = {"status": "ok", "kind": None, "msg": "", "key": None}
    try:
        check.run(plan, ctx)
    except Violation as v:
        out.update(status="violation", kind=v.kind, msg=v.msg[:4000], key=v.key)
        ctx.log("VIOLATION", v.kind)
    except HarnessError:
        out.update(status="error", msg=traceback.format_exc()[-6000:])
    except StepLimit as e:
        out.update(status="violation", kind="no-progress", msg=str(e))
        ctx.log("VIOLATION", "no-progress")
    except Deadlock as e:
        out.update(status="violation", kind="deadlock", msg=str(e))
        ctx.log("VIOLATION", "deadlock")
    except Exception as e:  # noqa: BLE001
        # Raised where the check expected none: by the code under test, or by the check itself?
        if in_code_under_test(e):
            kind = "raised-" + type(e).__name__
            out.update(status="violation", kind=kind, msg=traceback.format_exc()[-4000:])
            ctx.log("VIOLATION", kind)
        else:
            out.update(status="error", msg=traceback.format_exc()[-6000:])
    except BaseException:
        out.update(status="error", msg=traceback.format_exc()[-6000:])
    out["msg"] = out["msg"].replace(scratch, "<scratch>")
    out.update(
        loghash=ctx.loghash(),
        nlog=len(ctx.events),
        faults=dict(ctx.faults),
        probes=dict(ctx.probes),
        sim=ctx.sim_seconds,
        steps=ctx.steps,
        nchoices=len(ctx.choices.log),
        sched=hashlib.sha1(repr(ctx.choices.log).encode()).hexdigest()[:12],
        states=sorted(ctx.states),
    )
    if out["status"] == "violation" or plan.get("_keep_events"):
        out["choices"] = ctx.choices.log
        out["events"] = ctx.events[-400:]
    return out


def run_isolated(check, plan, choices=None, scratch_root=None):
    """Run one plan in a forked child with its own scratch directory and process group."""
    scratch = tempfile.mkdtemp(prefix="vsim-", dir=scratch_root)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if os.environ.get("VSIM_HANG"):  # debugging aid: where a hung run stands
                import faulthandler

                faulthandler.dump_traceback_later(40, file=open(f"/tmp/vsim-hang-{os.getpid()}", "w"))
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            if not os.environ.get("VSIM_STDOUT"):
                os.dup2(null, 1)
                os.dup2(null, 2)
            out = _execute(check, plan, scratch, choices)
            data = json.dumps(out).encode()
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<Q", len(data)) + data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = REAL_MONO() + WALL_LIMIT
    status = None
    timed_out = False
    while True:
        left = deadline - REAL_MONO()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if not ready:
            # exited child with a leaked pipe end elsewhere?
            try:
                p, st = os.waitpid(pid, os.WNOHANG)
            except ChildProcessError:
                p = pid
                st = 0
            if p:
                status = st
                ready, _, _ = select.select([r], [], [], 0)
                if not ready:
                    break
            else:
                continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
        if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
            break
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if status is None:
        try:
            _, status = os.waitpid(pid, 0)
        except ChildProcessError:
            status = 0
    shutil.rmtree(scratch, ignore_errors=True)
    if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
        return json.loads(buf[8:])
    base = dict(kind=None, key=None, loghash="", nlog=0, faults={}, probes={}, sim=0, steps=0,
                nchoices=0, sched="", states=[], choices=[], events=[])
    if timed_out:
        return {**base, "status": "timeout", "msg": f"wall limit {WALL_LIMIT}s"}
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU:
            return {**base, "status": "violation", "kind": "no-progress", "loghash": "xcpu",
                    "msg": f"run used more than {CPU_LIMIT} CPU seconds without finishing"}
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            return {**base, "status": "violation", "kind": f"crashed-signal-{sig}", "loghash": f"sig{sig}",
                    "msg": f"the process running the code under test died of signal {sig}"}
        return {**base, "status": "error", "msg": f"run killed by signal {sig}"}
    return {**base, "status": "error", "msg": f"run exited without a result (status {status})"}


# ---- search ----


def plan_for(check, seed, index, tier):
    rng = random.Random(f"{check.id}:{seed}:{index}")
    plan = check.gen(rng, tier)
    plan.setdefault("sched_seed", rng.getrandbits(48))
    plan["index"] = index
    return json.loads(json.dumps(plan))


def _worker(check, seed, tier, wid, nworkers, limit, deadline, out_fd, stop_fd, scratch_root):
    """Child loop: execute indices wid, wid + nworkers, ... until told to stop."""
    out = os.fdopen(out_fd, "wb", buffering=0)
    upper = limit
    index = wid
    sbuf = b""
    while index < upper and REAL_MONO() < deadline:
        ready, _, _ = select.select([stop_fd], [], [], 0)
        if ready:
            data = os.read(stop_fd, 4096)
            if not data:
                break
            sbuf += data
            while len(sbuf) >= 8:
                upper = min(upper, struct.unpack("<q", sbuf[:8])[0])
                sbuf = sbuf[8:]
            if index >= upper:
                break
        try:
            plan = plan_for(check, seed, index, tier)
            res = run_isolated(check, plan, scratch_root=scratch_root)
            if res["status"] in ("timeout", "error"):
                # once more: a starved machine is not a verdict
                again = run_isolated(check, plan, scratch_root=scratch_root)
                if again["status"] not in ("timeout", "error"):
                    res = again
        except BaseException:
            res = {"status": "error", "msg": traceback.format_exc()[-6000:]}
            plan = None
        res["index"] = index
        res["sample"] = plan if (index < 3 and plan) else None
        blob = pickle.dumps(res)
        out.write(struct.pack("<Q", len(blob)) + blob)
        index += nworkers
    out.close()
    os._exit(0)


class SearchResult:
    def __init__(self):
        self.runs = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.scheds = set()
        self.logs = set()
        self.states = set()
        self.sim = 0.0
        self.steps = 0
        self.violations = []
        self.errors = []
        self.known = []
        self.samples = []
        self.maxruns = None
        self.wall = 0.0
        self.loghashes = {}


def search(check, seed, tier, limit, budget, nworkers, is_known, scratch_root, keep_hashes=False):
    """Run indices 0..limit-1 (or until the wall budget) and collect what was reached."""
    t0 = REAL_MONO()
    deadline = t0 + budget
    procs = []
    sys.stdout.flush()
    for wid in range(nworkers):
        r, w = os.pipe()
        sr, sw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(sw)
                for p in procs:
                    os.close(p["r"])
                    os.close(p["sw"])
                _worker(check, seed, tier, wid, nworkers, limit, deadline, w, sr, scratch_root)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(w)
        os.close(sr)
        procs.append(dict(pid=pid, r=r, sw=sw, buf=b"", open=True))
    res = SearchResult()
    while any(p["open"] for p in procs):
        ready, _, _ = select.select([p["r"] for p in procs if p["open"]], [], [], 5)
        for p in procs:
            if not p["open"] or p["r"] not in ready:
                continue
            chunk = os.read(p["r"], 1 << 20)
            if not chunk:
                p["open"] = False
                os.close(p["r"])
                continue
            p["buf"] += chunk
            while len(p["buf"]) >= 8:
                n = struct.unpack("<Q", p["buf"][:8])[0]
                if len(p["buf"]) < 8 + n:
                    break
                one = pickle.loads(p["buf"][8 : 8 + n])
                p["buf"] = p["buf"][8 + n :]
                _collect(res, one, is_known, procs, keep_hashes)
    for p in procs:
        _, st = os.waitpid(p["pid"], 0)
        try:
            os.close(p["sw"])
        except OSError:
            pass
        if st != 0:
            res.errors.append({"index": -1, "msg": f"search worker ended with status {st}"})
    res.violations.sort(key=lambda v: v["index"])
    res.wall = REAL_MONO() - t0
    return res


def _collect(res, one, is_known, procs, keep_hashes):
    if one["status"] in ("error", "timeout"):
        res.errors.append({"index": one["index"], "msg": one["status"] + ": " + one.get("msg", "")})
        _stop(procs, -1)
        return
    res.runs += 1
    res.faults.update(one["faults"])
    res.probes.update(one["probes"])
    res.scheds.add(one["sched"])
    res.logs.add(one["loghash"])
    res.states.update(one["states"])
    res.sim += one["sim"]
    res.steps += one["steps"]
    if keep_hashes:
        res.loghashes[one["index"]] = one["loghash"]
    if one.get("sample") and len(res.samples) < 3:
        res.samples.append({"index": one["index"], "plan": one["sample"], "faults": one["faults"],
                            "probes": one["probes"], "event_log_hash": one["loghash"]})
    if one["status"] == "violation":
        known = is_known(one)
        if known:
            res.known.append(known)
        else:
            res.violations.append(one)
            _stop(procs, one["index"])


def _stop(procs, index):
    for p in procs:
        if p["open"]:
            try:
                os.write(p["sw"], struct.pack("<q", index))
            except OSError:
                pass


# ---- minimisation ----


def minimise(check, plan, first, budget, scratch_root, is_known):
    """Greedy shrinking of plan and schedule while the same violation kind persists."""
    t_end = REAL_MONO() + budget
    kind = first["kind"]
    best_plan, best_choices, best = plan, first.get("choices") or None, first
    tried = 0

    def attempt(p, c):
        nonlocal tried
        tried += 1
        r = run_isolated(check, p, choices=c, scratch_root=scratch_root)
        if r["status"] == "violation" and r["kind"] == kind and not is_known(r):
            return r
        return None

    # Fix the schedule: from here on the choice list is explicit
    progress = True
    while progress and REAL_MONO() < t_end:
        progress = False
        for cand in check.shrink(json.loads(json.dumps(best_plan))):
            if REAL_MONO() > t_end:
                break
            cand = json.loads(json.dumps(cand))
            if cand == best_plan:
                continue
            r = attempt(cand, best_choices) or attempt(cand, [])
            if r:
                best_plan, best = cand, r
                best_choices = r.get("choices") or []
                progress = True
                break
        if progress:
            continue
        # shrink the schedule: drop the tail, then flatten choices to the tame one
        ch = list(best_choices or [])
        n = len(ch)
        cuts = [[]] + [ch[: n // 8], ch[: n // 4], ch[: n // 2], ch[: n * 3 // 4], ch[: max(0, n - 1)]]
        size = max(1, n // 4)
        while size >= 1 and n:
            for s in range(0, n, size):
                if any(ch[s : s + size]):
                    cuts.append(ch[:s] + [0] * len(ch[s : s + size]) + ch[s + size :])
            if size == 1 or len(cuts) > 60:
                break
            size //= 2
        for c in cuts:
            if REAL_MONO() > t_end:
                break
            if c == ch or (len(c) == n and sum(map(bool, c)) >= sum(map(bool, ch))):
                continue
            r = attempt(best_plan, c)
            if r:
                new = c
                while new and new[-1] == 0:
                    new = new[:-1]
                if new == ch:
                    continue
                best, best_choices = r, new
                progress = True
                break
    final = run_isolated(check, best_plan, choices=best_choices, scratch_root=scratch_root)
    if not (final["status"] == "violation" and final["kind"] == kind):
        final = best
    return best_plan, best_choices, final, tried
