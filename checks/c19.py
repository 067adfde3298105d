"""C19: tracking again gives what a fresh tracker gives."""
import copy
import datetime
import os

import numpy as np

from sim import oddities, worlds
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation, digest
from sim.interrupt import LineInterrupt
from sim.tracking import Outcome, differing, head_digest, make_streams, track, use_pool, warning_texts

from checks.c02 import Script


class Holder:
    """The script of the current run, for models and images that live longer than a run."""

    def __init__(self):
        self.script = None

    def event(self, kind):
        return self.script.event(kind) if self.script is not None else None


def wrap_model(holder):
    def wrap(cls):
        class Scripted(cls):
            def initialize_particles(self):
                act = holder.event("init")
                p = super().initialize_particles()
                if act == "nan":
                    p[len(p) // 2, 4] = np.nan
                return p

            def evolve_particles(self, particles, dt):
                super().evolve_particles(particles, dt)
                if holder.event("evolve") == "nan":
                    particles[0, 1] = np.nan

            def compute_log_likelihoods(self, particles):
                act = holder.event("likelihood")
                x = super().compute_log_likelihoods(particles)
                if act == "nan":
                    particles[0, 5] = np.nan
                return x

        return Scripted

    return wrap


def wrap_reader(holder, cls):
    class Reader(cls):
        def read(self, *a, **k):
            holder.event("read")
            return super().read(*a, **k)

    return Reader


def public(x, depth=0):
    """Comparable form of the public state of an argument."""
    from glimpse.camera import Camera
    from glimpse.raster import Grid, Raster

    if isinstance(x, Raster):
        return ["raster", digest(np.asarray(x.array)), np.asarray(x.xlim).tolist(), np.asarray(x.ylim).tolist(), str(x.datetime)]
    if isinstance(x, Grid):
        return ["grid", np.asarray(x.xlim).tolist(), np.asarray(x.ylim).tolist(), np.asarray(x.size).tolist()]
    if isinstance(x, Camera):
        return ["camera", x.to_array().tobytes().hex(), str(x.to_dict())]
    if isinstance(x, np.ndarray):
        return ["array", digest(x) if x.dtype != object else [str(v) for v in x.ravel()], x.shape]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [public(v, depth + 1) for v in x]]
    if isinstance(x, dict):
        return {str(k): public(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool, type(None), datetime.datetime, datetime.timedelta, np.generic)):
        return repr(x)
    if hasattr(x, "__dict__") and depth < 4 and not callable(x):
        return {k: public(v, depth + 1) for k, v in vars(x).items() if not k.startswith("_")}
    return type(x).__name__


def tracks_digest(t):
    parts = [digest(worlds.track_parts(t, i)) for i in range(len(t.means))]
    return [head_digest(t), parts, [None if e is None else type(e).__name__ for e in t.errors]]


class C19(Check):
    id = "C19"
    quick = (2000, 110)
    thorough = (60000, 840)
    rule = (
        "A run makes 2-6 tracking calls on one tracker and its observers with changing models, datetimes, masks, options "
        "and backends, with exceptions, invalid particles, interrupts at chosen lines, worker deaths and missing or "
        "cut files in some, and cache operations or leftover particles between them; each complete call is compared with "
        "a newly built tracker under the same draws; runs are distinct by event log."
    )
    measure = "distinct histories (kinds of calls, faults and outcomes in order)"
    real = ["Tracker, Tracks, Observer, motion models, images, rasters, cameras", "GDAL", "OpenCV", "forked worker processes"]
    stubs = ["sharedmem.MapReduce / MapReduceByThread (simulated pool)", "np.random draws", "os.cpu_count"]
    assumptions = ["a file changes only by being damaged and restored", "a call during which files are damaged is not compared"]
    expect_probes = ("serial", "process", "thread", "compared", "after-exception", "after-interrupt", "after-damage",
                     "after-kill", "single", "reused-models", "between-manual", "between-clear", "raised-same")

    def gen(self, r, tier):
        w = worlds.gen_world(r, tier, max_obs=3, max_models=4)
        for m in w["models"]:
            m["n"] = w["models"][0]["n"]
            if r.random() < 0.7:
                m["xy"] = [m["xy"][0] * 0.4, m["xy"][1] * 0.4]
                m["v"] = [0.02, 0.01]
        nm = len(w["models"])
        runs = []
        for k in range(r.choice([2, 2, 3, 3, 4, 6])):
            models = [r.randrange(nm) for _ in range(r.choice([1, 1, 2, 2, 3]))]
            mode = r.choice(["serial", "serial", "process", "thread"])
            faults = []
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                kind = r.choice(["init", "evolve", "likelihood", "read"])
                exc = "nan" if kind in ("init", "evolve") and r.random() < 0.3 else r.choice(oddities.KINDS)
                faults.append({"model": r.randrange(len(models)), "kind": kind, "at": 0 if kind == "init" else r.randint(0, 4),
                               "exc": exc})
            extra = r.choice([None, None, None, "interrupt", "damage", "kill", "invalid"])
            run = {
                "models": models,
                "options": worlds.gen_world(r, tier)["options"],
                "mode": mode,
                "parallel": False if mode == "serial" else r.choice([True, 2, 3]),
                "seed": r.randrange(2**31),
                "reuse": r.random() < 0.5,
                "faults": faults,
                "between": [
                    {"op": r.choice(["cache", "clear", "read", "box", "manual", "resample", "flag"]), "obs": r.randrange(3), "img": r.randrange(5),
                     "seed": r.randrange(1000)}
                    for _ in range(r.choice([0, 0, 1, 2]))
                ],
            }
            if extra == "interrupt":
                run["interrupt"] = r.choice([r.randint(0, 60), r.randint(0, 600), r.randint(0, 6000)])
                run["mode"], run["parallel"] = "serial", False
            elif extra == "damage":
                run["damage"] = [{"obs": r.randrange(3), "img": r.randrange(5), "how": r.choice(["gone", "cut", "cut", "empty"])}
                                 for _ in range(r.randint(1, 2))]
            elif extra == "kill":
                run["mode"], run["parallel"] = "process", r.choice([2, 3])
                run["kill"] = {"map": 0, "item": r.randrange(len(models)), "at": r.choice(["start", "end", 1, 3])}
            elif extra == "invalid":
                run["invalid"] = r.choice(["order", "few", "mask", "tile", "unit"])
            runs.append(run)
        return {"world": w, "runs": runs, "ncpu": r.choice([1, 2, 4])}

    # ---- one history ----

    def run(self, plan, ctx):
        from glimpse.image import Image
        from glimpse.raster import Raster

        world = plan["world"]
        paths = worlds.observer_files(world, ctx.scratch)
        contents = {p: open(p, "rb").read() for ps in paths for p in ps}
        holder = Holder()

        def fresh(h):
            obs = worlds.build_observers(world, paths, wrap_reader(h, Image), wrap_reader(h, Raster))
            return worlds.build_tracker(world, obs)

        tracker = fresh(holder)
        images = [list(o.images) for o in tracker.observers]
        lasting = [worlds.build_model(m, wrap=wrap_model(holder)) for m in world["models"]]
        initial = [public(m) for m in lasting]
        observers = tracker.observers
        before = self.observer_state(observers)
        settings = self.settings(tracker)
        pixels = {}
        history, past, tags = [], [], []
        for k, spec in enumerate(plan["runs"]):
            for op in spec["between"]:
                self.between(ctx, tracker, lasting, op)
                if op["op"] == "flag":
                    before = self.observer_state(observers)
            sub = {**world, "models": [world["models"][i] for i in spec["models"]], "options": spec["options"]}
            h_flags = [o.cache for o in observers]
            # the call
            damaged = self.damage(ctx, paths, spec.get("damage", ()))
            if spec["reuse"] and len(set(spec["models"])) == len(spec["models"]):
                models = [lasting[i] for i in spec["models"]]
                ctx.probe("reused-models")
            else:
                models = [worlds.build_model(m, wrap=wrap_model(holder)) for m in sub["models"]]
            args = self.args(sub, spec)
            given = public({k: v for k, v in args.items() if k != "reduce_particles"})
            as_given = [public(m) for m in models]
            listed = list(models)
            out, script = self.call(ctx, holder, tracker, listed, args, spec, plan["ncpu"], live=True)
            for p in damaged:
                with open(p, "wb") as f:
                    f.write(contents[p])
            what = f"call {k} ({spec['mode']}, {len(models)} models)"
            tag = self.outcome(out, spec)
            history.append(tag)
            ctx.log("call", k, tag)
            ctx.probe(spec["mode"])
            if len(models) == 1:
                ctx.probe("single")
            # what a call leaves
            ctx.check(listed == models and public({k: v for k, v in args.items() if k != "reduce_particles"}) == given,
                      "arguments-changed", f"{what}: an argument changed")
            for i, (m, a) in enumerate(zip(models, as_given)):
                ctx.check(public(m) == a, "model-changed", f"{what}: motion model {i} changed")
            now = self.observer_state(observers)
            ctx.check(now == before, "observer-changed", lambda: f"{what}: {self.diff(before, now)}")
            same = all(len(o.images) == len(x) and all(a is b for a, b in zip(o.images, x)) for o, x in zip(observers, images))
            ctx.check(tracker.observers is observers and same, "observer-changed", f"{what}: images replaced")
            ctx.check(self.settings(tracker) == settings, "tracker-changed", f"{what}: settings of the tracker changed")
            self.pixels(ctx, what, observers, paths, pixels, fresh)
            for j, (t, d) in enumerate(past):
                ctx.check(tracks_digest(t) == d, "earlier-tracks-changed", f"{what}: the tracks of call {j} changed")
            for p, c in contents.items():
                with open(p, "rb") as f:
                    ctx.check(f.read() == c, "file-changed", f"{what}: {os.path.basename(p)} changed")
            # the same call on a new tracker
            tags.append(tag)
            if out.tracks is not None:
                past.append((out.tracks, tracks_digest(out.tracks)))
            if "damage" in spec or "interrupt" in spec or "kill" in spec:
                if script.interrupted or "interrupt" not in spec or "damage" in spec or "kill" in spec:
                    tags[-1] = "interrupt" if "interrupt" in spec else "damage" if "damage" in spec else "kill"
                    continue
            h = Holder()
            other = fresh(h)
            for o, flag in zip(other.observers, h_flags):
                o.cache = flag
            models = [worlds.build_model(m, wrap=wrap_model(h)) for m in sub["models"]]
            want, _ = self.call(ctx, h, other, models, self.args(sub, spec), {**spec, "mode": "serial", "parallel": False, "interrupt": None},
                                plan["ncpu"])
            self.compare(ctx, what, spec, out, want)
            ctx.probe("compared")
            if k and tags[k - 1] in ("interrupt", "damage", "kill", "exception"):
                ctx.probe("after-" + tags[k - 1])
        ctx.check([public(m) for m in lasting] == initial, "model-changed", "a reused motion model changed")
        ctx.state(tuple((s["mode"], t, len(s["models"])) for s, t in zip(plan["runs"], history)))

    def args(self, sub, spec):
        args = worlds.track_args(sub)
        how = spec.get("invalid")
        if how == "order":
            args["datetimes"] = [worlds.T0, worlds.T0 + datetime.timedelta(hours=500), worlds.T0 + datetime.timedelta(hours=1)]
        elif how == "few":
            args["datetimes"] = [worlds.T0 + datetime.timedelta(hours=5000), worlds.T0 + datetime.timedelta(hours=5001)]
        elif how == "mask":
            args["observer_mask"] = np.ones((len(sub["models"]), len(sub["observers"]) + 1), dtype=bool)
        elif how == "tile":
            args["tile_size"] = (4000, 4000)
        return args

    def call(self, ctx, holder, tracker, models, args, spec, ncpu, live=False):
        streams = make_streams(spec["seed"])
        script = Script(ctx, spec["faults"], [], streams)
        script.interrupted = False
        kill = spec.get("kill") if live else None
        script.pool = use_pool(ctx, spec["mode"], streams, keys=lambda m, i: ("model", i), kill=kill, ncpu=ncpu)
        if spec.get("invalid") == "unit":
            models = list(models)
            odd = copy.copy(models[0])
            odd.time_unit = datetime.timedelta(hours=7)
            models.append(odd)
        holder.script = script
        args = {**args, "parallel": spec["parallel"]}
        try:
            if spec.get("interrupt") is not None:
                try:
                    with LineInterrupt(ctx, spec["interrupt"]) as li:
                        return Outcome(tracks=tracker.track(models, **args)), script
                except KeyboardInterrupt as e:
                    script.interrupted = True
                    return Outcome(exc=e), script
                except (HarnessError, Deadlock, StepLimit):
                    raise
                except Exception as e:  # noqa: BLE001
                    script.interrupted = script.interrupted or li.fired
                    return Outcome(exc=e), script
                finally:
                    script.interrupted = script.interrupted or li.fired
            out = track(tracker, models, args)
            for _ in script.raised:
                ctx.fault("exception")
            return out, script
        finally:
            holder.script = None

    def outcome(self, out, spec):
        if out.exc is not None:
            return "exception"
        if any(e is not None for e in out.tracks.errors):
            return "exception"
        return "ok"

    def compare(self, ctx, what, spec, out, want):
        if want.exc is not None or out.exc is not None:
            ok = out.exc is not None and want.exc is not None
            if ok and not spec["parallel"]:  # a worker's error arrives wrapped
                ok = type(want.exc).__name__ == type(out.exc).__name__ and str(want.exc) == str(out.exc)
            ctx.check(ok, "depends-on-history", lambda: f"{what}: {out.exc!r}, a new tracker {want.exc!r}")
            ctx.probe("raised-same")
            return
        a, b = out.tracks, want.tracks
        ctx.check(head_digest(a) == head_digest(b), "depends-on-history", f"{what}: datetimes or images differ from a new tracker's")
        ctx.check(len(a.means) == len(b.means), "depends-on-history", f"{what}: number of tracks differs")
        for i in range(len(b.means)):
            d = differing(worlds.track_parts(b, i), worlds.track_parts(a, i))
            ctx.check(not d, "depends-on-history", f"{what}: {d} of track {i} differ from a new tracker's")
            ctx.check(type(a.errors[i]) is type(b.errors[i]) or {type(a.errors[i]).__name__} == {type(b.errors[i]).__name__},
                      "depends-on-history", lambda: f"{what}: track {i} {a.errors[i]!r}, a new tracker {b.errors[i]!r}")
            if spec["mode"] != "thread":
                ctx.check(warning_texts(a.warnings[i]) == warning_texts(b.warnings[i]), "depends-on-history",
                          lambda: f"{what}: track {i} warns {warning_texts(a.warnings[i])}, a new tracker {warning_texts(b.warnings[i])}")

    # ---- state ----

    def observer_state(self, observers):
        return [
            {
                "datetimes": [str(t) for t in o.datetimes],
                "sigma": repr(o.sigma),
                "cache": o.cache,
                "images": [
                    [str(i.datetime), str(i.path), np.asarray(i.size).tolist(), public(getattr(i, "cam", None))]
                    + ([np.asarray(i.xlim).tolist(), np.asarray(i.ylim).tolist()] if hasattr(i, "xlim") else [])
                    for i in o.images
                ],
            }
            for o in observers
        ]

    def settings(self, tracker):
        return [tracker.resample_method, repr(tracker.highpass), repr(tracker.interpolation), public(tracker.viewshed),
                [id(o) for o in tracker.observers]]

    @staticmethod
    def diff(a, b):
        return [k for x, y in zip(a, b) for k in x if x[k] != y[k]]

    def pixels(self, ctx, what, observers, paths, pixels, fresh):
        for o, (obs, ps) in enumerate(zip(observers, paths)):
            for j, img in enumerate(obs.images):
                if not pixels.get((o, j)):
                    for a, other in enumerate(fresh(Holder()).observers):
                        for b, x in enumerate(other.images):
                            pixels[a, b] = digest(np.asarray(x.read(cache=False)))
                if getattr(img, "_array" if hasattr(img, "_array") else "array", None) is None:
                    continue
                got = digest(np.asarray(img.read()))
                ctx.check(got == pixels[o, j], "pixels-changed", f"{what}: cached image {j} of observer {o} differs from its file")

    # ---- between and around calls ----

    def between(self, ctx, tracker, models, op):
        obs = tracker.observers[op["obs"] % len(tracker.observers)]
        i = op["img"] % len(obs.images)
        make_streams(op["seed"])
        ctx.probe("between-" + op["op"])
        if op["op"] == "cache":
            obs.cache_images([i])
        elif op["op"] == "clear":
            obs.clear_images() if op["seed"] % 2 else obs.clear_images([i])
        elif op["op"] == "read":
            obs.images[i].read(cache=bool(op["seed"] % 2))
        elif op["op"] == "box":
            obs.extract_tile(box=(3, 4, 20, 15), img=i)
        elif op["op"] == "flag":
            obs.cache = not obs.cache
        elif op["op"] in ("manual", "resample"):
            # leftovers of a run the user made by hand
            try:
                tracker.particles = models[op["seed"] % len(models)].initialize_particles()
                tracker.initialize_weights()
                tracker.initialize_template(obs=op["obs"] % len(tracker.observers), img=i, tile_size=(9, 5))
                if op["op"] == "resample":
                    tracker.update_weights([i if o is obs else None for o in tracker.observers])
                    tracker.resample_particles()
            except (ValueError, IndexError):
                pass

    def damage(self, ctx, paths, damage):
        out = []
        for d in damage:
            ps = paths[d["obs"] % len(paths)]
            p = ps[d["img"] % len(ps)]
            if p in out:
                continue
            out.append(p)
            ctx.fault("file-" + d["how"])
            if d["how"] == "gone":
                if os.path.exists(p):
                    os.remove(p)
            else:
                with open(p, "rb") as f:
                    c = f.read()
                with open(p, "wb") as f:
                    f.write(c[: len(c) // 2] if d["how"] == "cut" else b"")
        return out

    def shrink(self, plan):
        runs = plan["runs"]
        for i in range(len(runs)):
            if len(runs) > 1:
                yield {**plan, "runs": runs[:i] + runs[i + 1:]}
        for i, s in enumerate(runs):
            def put(**k):
                return {**plan, "runs": runs[:i] + [{**s, **k}] + runs[i + 1:]}
            if s["between"]:
                for j in range(len(s["between"])):
                    yield put(between=s["between"][:j] + s["between"][j + 1:])
            for j in range(len(s["faults"])):
                yield put(faults=s["faults"][:j] + s["faults"][j + 1:])
            for key in ("damage", "kill", "invalid", "interrupt"):
                if key in s:
                    x = {k: v for k, v in s.items() if k != key}
                    yield {**plan, "runs": runs[:i] + [x] + runs[i + 1:]}
            if s["mode"] != "serial" and "kill" not in s:
                yield put(mode="serial", parallel=False)
            if len(s["models"]) > 1:
                for j in range(len(s["models"])):
                    if not s["faults"] and "kill" not in s:
                        yield put(models=s["models"][:j] + s["models"][j + 1:])
            base = {"covariances": False, "particles": False, "reduce": False, "maxdt": 0, "mask": None, "datetimes": None, "tile": [7, 7]}
            for k, v in base.items():
                if s["options"][k] != v:
                    yield put(options={**s["options"], k: v})
            if s["reuse"]:
                yield put(reuse=False)
        w = plan["world"]
        for i in range(len(w["observers"])):
            if len(w["observers"]) > 1:
                yield {**plan, "world": {**w, "observers": w["observers"][:i] + w["observers"][i + 1:]}}
        for k, v in {"resample": "systematic", "viewshed": False}.items():
            if w["tracker"][k] != v:
                yield {**plan, "world": {**w, "tracker": {**w["tracker"], k: v}}}


CHECK = C19()
