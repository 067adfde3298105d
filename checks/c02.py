"""C02: a failure or warning in one track stays in that track."""
import copy
import warnings

import numpy as np

from sim import oddities, worlds
from sim.check import Check
from sim.core import Violation, digest
from sim.tracking import make_streams, track, use_pool

ROWS = ("means", "sigmas", "covariances", "particles", "weights")


class Script:
    """What goes wrong where; shared by the wrapped models and images of one tracking call."""

    def __init__(self, ctx, faults, warn, streams):
        self.ctx, self.faults, self.warn, self.streams = ctx, faults, warn, streams
        self.pool = None
        self.events = {}  # model -> [(kind, row)]
        self.rows = {}
        self.raised = {}

    def current(self):
        key = getattr(self.streams.tls, "key", "main")
        return key[1] if isinstance(key, tuple) and key[0] == "model" else None

    def event(self, kind):
        """Announce event ``kind`` of the current model; raise if it is faulty."""
        i = self.current()
        if i is None:
            return None
        self.pool.point(kind)
        log = self.events.setdefault(i, [])
        if kind == "evolve":
            self.rows[i] = self.rows.get(i, 0) + 1
        n = sum(1 for k, _ in log if k == kind)
        log.append((kind, self.rows.get(i, 0)))
        for w in self.warn:
            if w["model"] == i and w["kind"] == kind and w["at"] == n:
                for j in range(w["count"]):
                    warnings.warn(f"warning {i}-{kind}-{n}-{j}", category=[UserWarning, RuntimeWarning][j % 2])
        for f in self.faults:
            if f["model"] == i and f["kind"] == kind and f["at"] == n:
                if f["exc"] == "nan":
                    return "nan"
                e = oddities.make(f["exc"], self.token(f))
                self.raised[i] = e
                raise e
        return None

    @staticmethod
    def token(f):
        return f"token-{f['model']}-{f['kind']}-{f['at']}"


def wrap_model(script):
    def wrap(cls):
        class Scripted(cls):
            def initialize_particles(self):
                act = script.event("init")
                p = super().initialize_particles()
                if act == "nan":
                    p[len(p) // 2, 4] = np.nan
                return p

            def evolve_particles(self, particles, dt):
                super().evolve_particles(particles, dt)
                if script.event("evolve") == "nan":
                    particles[0, 1] = np.nan

            def compute_log_likelihoods(self, particles):
                act = script.event("likelihood")
                x = super().compute_log_likelihoods(particles)
                if act == "nan":
                    particles[0, 5] = np.nan
                return x

        return Scripted

    return wrap


def wrap_reader(script, cls):
    class Reader(cls):
        def read(self, *a, **k):
            script.event("read")
            return super().read(*a, **k)

    return Reader


class C02(Check):
    id = "C02"
    quick = (1500, 100)
    thorough = (60000, 840)
    rule = (
        "A run tracks 1-5 models serially without faults, then again (serially, under simulated processes or threads) "
        "with exceptions of many classes, invalid particles, warnings and worker deaths injected at chosen callbacks and "
        "image reads of chosen models; runs are distinct by event log."
    )
    measure = "distinct (mode, fault kinds and their rows, kill point)"
    real = ["Tracker.track, Tracks, observers, motion models", "GDAL", "OpenCV", "forked worker processes, result pickling"]
    stubs = ["sharedmem.MapReduce / MapReduceByThread (simulated pool)", "np.random draws", "os.cpu_count"]
    assumptions = ["a dead worker makes the pool raise, as sharedmem does",
                   "warnings of a track that fails need not be recorded"]
    expect_probes = ("fault-fired", "serial", "process", "thread", "warned", "single", "killed")

    def gen(self, r, tier):
        w = worlds.gen_world(r, tier, max_obs=2, max_models=5)
        nm = len(w["models"])
        mode = r.choice(["serial", "process", "process", "thread"])
        single = r.random() < 0.12
        if single:
            w["models"] = w["models"][:1]
            nm, mode = 1, "serial"
        for m in w["models"]:
            if r.random() < 0.6:
                m["xy"] = [m["xy"][0] * 0.4, m["xy"][1] * 0.4]
                m["v"] = [0.02, 0.01]

        def one():
            kind = r.choice(["init", "evolve", "evolve", "likelihood", "read"])
            exc = r.choice(oddities.KINDS)
            if kind in ("init", "evolve") and r.random() < 0.25:
                exc = "nan"
            return {"model": r.randrange(nm), "kind": kind, "at": 0 if kind == "init" else r.randint(0, 4), "exc": exc}

        kill = None
        if mode == "process" and r.random() < 0.2:
            kill = {"map": 0, "item": r.randrange(nm), "at": r.choice(["start", "end", 1, 2, 5])}
        return {
            "world": w,
            "mode": mode,
            "parallel": False if mode == "serial" else r.choice([True, 2, 2, 3, 4]),
            "faults": [one() for _ in range(r.choice([0, 1, 1, 1, 2, 3]))],
            "warn": [
                {"model": r.randrange(nm), "kind": r.choice(["init", "evolve", "read", "likelihood"]), "at": r.randint(0, 3),
                 "count": r.randint(1, 3)}
                for _ in range(r.choice([0, 0, 1, 2, 3]))
            ],
            "kill": kill,
            "ncpu": r.choice([1, 2, 4]),
            "seed": r.randrange(2**31),
        }

    def run(self, plan, ctx):
        world = plan["world"]
        paths = worlds.observer_files(world, ctx.scratch)
        args = worlds.track_args(world)
        nm = len(world["models"])
        streams = make_streams(plan["seed"])

        def go(script, mode, parallel, kill=None, warn_filter=True):
            from glimpse.image import Image
            from glimpse.raster import Raster

            script.pool = pool = use_pool(ctx, mode, streams, keys=lambda m, i: ("model", i), kill=kill, ncpu=plan["ncpu"])
            obs = worlds.build_observers(world, paths, wrap_reader(script, Image), wrap_reader(script, Raster))
            models = [worlds.build_model(m, wrap=wrap_model(script)) for m in world["models"]]
            return track(worlds.build_tracker(world, obs), models, {**args, "parallel": parallel}), pool

        # fault-free, one model at a time (so that other tracks cannot matter)
        ref = Script(ctx, [], [], streams)
        base, _ = go(ref, "serial", False)
        if nm == 1:
            ctx.probe("single")
            script = Script(ctx, plan["faults"], plan["warn"], streams)
            out, _ = go(script, "serial", False)
            if script.raised:
                ctx.fault("exception")
                ctx.log("single", type(script.raised[0]).__name__)
                ctx.check(out.exc is script.raised[0], "single-not-propagated",
                          f"raised {script.raised[0]!r}, got {out.exc!r}")
            ctx.state(("single", bool(script.raised)))
            return
        if base.exc is not None:
            raise Violation("escaped", f"fault-free run raised {base.exc!r}") from base.exc
        base = base.tracks
        script = Script(ctx, plan["faults"], plan["warn"], streams)
        out, pool = go(script, plan["mode"], plan["parallel"], kill=plan["kill"])
        ctx.probe(plan["mode"])
        ctx.fault("task-switch", pool.switches)
        if ctx.faults["worker-killed"]:
            ctx.probe("killed")
            ctx.check(out.exc is not None, "dead-worker-ignored", "a worker died but the run returned tracks")
            ctx.state(("killed", str(plan["kill"])))
            return
        if out.exc is not None:
            raise Violation("escaped", f"{plan['mode']}: {type(out.exc).__name__}: {out.exc}") from out.exc
        tracks = out.tracks
        ctx.check(np.shape(tracks.errors) == (nm,), "entry-count", f"errors {np.shape(tracks.errors)} for {nm} tracks")
        ctx.check(np.shape(tracks.warnings) == (nm,), "entry-count", f"warnings {np.shape(tracks.warnings)} for {nm} tracks")
        fired = []
        for i in range(nm):
            cut = None  # first fault of this model that is reached
            counts = {}
            for pos, (kind, row) in enumerate(ref.events.get(i, [])):
                n = counts.get(kind, 0)
                counts[kind] = n + 1
                hit = [f for f in plan["faults"] if f["model"] == i and f["kind"] == kind and f["at"] == n]
                if hit:
                    cut = (hit[0], row, pos)
                    break
            err = tracks.errors[i]
            ctx.check(err is None or isinstance(err, Exception), "error-entry", f"track {i}: {err!r}")
            ctx.check(bool(tracks.success[i]) == (err is None), "success-wrong", f"track {i}: {tracks.success[i]} {err!r}")
            a, b = worlds.track_parts(base, i), worlds.track_parts(tracks, i)
            if cut is None:
                for part in a:
                    ctx.check(digest(a[part]) == digest(b[part]), "other-track-changed",
                              lambda: f"track {i} has no fault but {part} differs from the fault-free run")
                same = (base.errors[i] is None) == (err is None) and type(base.errors[i]) is type(err)
                ctx.check(same, "other-track-changed", lambda: f"track {i}: error {err!r}, fault-free {base.errors[i]!r}")
            else:
                f, row, pos = cut
                fired.append((f["kind"], f["exc"], row))
                ctx.fault("exception:" + f["exc"])
                ctx.probe("fault-fired")
                ctx.check(err is not None, "error-lost", f"track {i}: fault {f} left no error")
                if f["exc"] != "nan":
                    token = Script.token(f)
                    ctx.check(token in str(err) or token in repr(err.args), "message-lost",
                              lambda: f"track {i}: {token} not in {type(err).__name__} {str(err)[-300:]!r}")
                self.prefix(ctx, i, a, b, row)
            ctx.log("track", i, str(cut), digest(b), type(err).__name__)
        ctx.state((plan["mode"], sorted(map(str, fired))))
        self.warned(plan, ctx, ref, tracks, nm)

    def prefix(self, ctx, i, a, b, row):
        """Rows before the failure as in the fault-free run, the rest missing."""
        valid = ~np.isnan(a["means"][:, 0])
        first = int(np.argmax(valid)) if valid.any() else len(valid)
        end = first + row
        for part in ROWS:
            if a[part] is None:
                continue
            x, y = a[part], b[part]
            ctx.check(x.shape == y.shape, "shape", f"track {i} {part}: {x.shape} {y.shape}")
            ctx.check(digest(x[:end]) == digest(y[:end]), "prefix-changed",
                      lambda: f"track {i}: {part} rows before {end} differ from the fault-free run")
            ctx.check(np.isnan(y[end:]).all(), "rows-after-failure", lambda: f"track {i}: {part} has rows after {end}")

    def warned(self, plan, ctx, ref, tracks, nm):
        thread = plan["mode"] == "thread"
        kind = "thread-warnings-misattributed" if thread else "warnings-misattributed"
        for i in range(nm):
            entry = tracks.warnings[i]
            ok = entry is None or (isinstance(entry, tuple) and len(entry))
            ctx.check(ok, "warning-entry", f"track {i}: {entry!r}")
            got = [str(w.message) for w in (entry or ())]
            got = [g for g in got if g.startswith("warning ")]
            counts, want = {}, []
            for k, _ in ref.events.get(i, []):
                n = counts.get(k, 0)
                counts[k] = n + 1
                for w in plan["warn"]:
                    if w["model"] == i and w["kind"] == k and w["at"] == n:
                        want += [f"warning {i}-{k}-{n}-{j}" for j in range(w["count"])]
            want = list(dict.fromkeys(want))
            failed = tracks.errors[i] is not None
            if want:
                ctx.probe("warned")
                ctx.fault("warning", len(want))
            if failed:
                ok = set(got) <= set(want)
            else:
                ok = got == want
            if not ok:
                raise Violation(kind, f"track {i} ({'failed' if failed else 'ok'}): recorded {got}, raised {want}")

    def shrink(self, plan):
        for i in range(len(plan["faults"])):
            yield {**plan, "faults": plan["faults"][:i] + plan["faults"][i + 1:]}
        for i in range(len(plan["warn"])):
            yield {**plan, "warn": plan["warn"][:i] + plan["warn"][i + 1:]}
        if plan["kill"]:
            yield {**plan, "kill": None}
        for i, f in enumerate(plan["faults"]):
            if f["exc"] not in ("value", "nan"):
                yield {**plan, "faults": plan["faults"][:i] + [{**f, "exc": "value"}] + plan["faults"][i + 1:]}
            if f["at"]:
                yield {**plan, "faults": plan["faults"][:i] + [{**f, "at": f["at"] - 1}] + plan["faults"][i + 1:]}
        used = {f["model"] for f in plan["faults"]} | {w["model"] for w in plan["warn"]}
        if plan["kill"]:
            used.add(plan["kill"]["item"])
        for w in worlds.shrink_world(plan["world"]):
            if len(w["models"]) >= len(plan["world"]["models"]) or max(used, default=0) < len(w["models"]):
                yield {**plan, "world": copy.deepcopy(w)}
        if plan["mode"] != "serial" and not plan["kill"]:
            yield {**plan, "mode": "serial", "parallel": False}


CHECK = C02()
