"""C03: track histories follow the observation schedule and the particle record."""
import copy
import datetime

import numpy as np

from sim import worlds
from sim.check import Check
from sim.core import Violation, digest
from sim.tracking import make_streams, track, use_pool


class Record:
    """What each model and its images were asked to do, in order."""

    def __init__(self, streams, pool_ref):
        self.streams, self.pool_ref = streams, pool_ref
        self.log = {}

    def add(self, *event):
        key = getattr(self.streams.tls, "key", "main")
        if isinstance(key, tuple) and key[0] == "model":
            self.pool_ref[0].point(event[0])
            self.log.setdefault(key[1], []).append(event)


def wrap_model(rec, unlikely=None):
    def wrap(cls):
        class Recorded(cls):
            def initialize_particles(self):
                p = super().initialize_particles()
                rec.add("init", p.copy())
                return p

            def evolve_particles(self, particles, dt):
                super().evolve_particles(particles, dt)
                rec.add("evolve", dt, particles.copy())

            def compute_log_likelihoods(self, particles):
                out = super().compute_log_likelihoods(particles)
                if unlikely is not None:  # every particle is unlikely, some more than others
                    out = (0 if out is None else out) + unlikely + 3 * np.abs(np.sin(7 * particles[:, 0] + particles[:, 1]))
                rec.add("likelihood", particles.copy())
                return out

        return Recorded

    return wrap


def wrap_reader(rec, cls, paths):
    index = {p: (k, j) for k, ps in enumerate(paths) for j, p in enumerate(ps)}

    class Reader(cls):
        def read(self, *a, **k):
            rec.add("read", index[str(self.path)])
            return super().read(*a, **k)

    return Reader


class C03(Check):
    id = "C03"
    quick = (2400, 100)
    thorough = (80000, 840)
    rule = (
        "A run tracks 1-4 models over 1-3 observers with jittered, duplicate, unmatched or reversed datetimes, masks, "
        "tolerances and all resampling methods (random streams sometimes at the edges of [0, 1)), serially or as "
        "interleaved threads, recording every motion-model callback and image read; runs are distinct by event log."
    )
    measure = "distinct (matched-image pattern, mask, direction)"
    real = ["Tracker.track, Tracks, observers, motion models, images, rasters", "GDAL", "OpenCV"]
    stubs = ["sharedmem.MapReduceByThread (simulated pool)", "np.random draws"]
    assumptions = ["a model none of whose enabled observers has a matching image is not judged",
                   "among equally near images any may be matched",
                   "that every matched image is used is judged in serial runs without warnings (threads misattribute them)"]
    expect_probes = ("window-starts-late", "window-ends-early", "unmatched-middle", "reverse", "duplicate", "dropped",
                     "late-template", "reduced", "image-skipped", "thread")

    def gen(self, r, tier):
        w = worlds.gen_world(r, tier, max_obs=3, max_models=4)
        for m in w["models"]:
            m["xy"] = [m["xy"][0] * 0.6, m["xy"][1] * 0.6]
            m["v"] = [m["v"][0] * 0.3, m["v"][1] * 0.3]
            m["n"] = w["models"][0]["n"]
        if r.random() < 0.2:
            w["models"] = w["models"][:1]
        if r.random() < 0.35:
            w["options"]["mask"] = "random"
        maxdt = r.choice([0, 0, 10, 30, 90])
        base = sorted({h for o in w["observers"] for h in o["hours"]})
        mins = []
        for h in base:
            if r.random() < 0.12:
                continue
            jit = r.choice([0, 0, 0, maxdt, -maxdt, r.randint(-maxdt, maxdt), maxdt + 7, r.randint(-40, 40)])
            mins.append(60 * h + jit)
        if r.random() < 0.5:
            mins += [r.choice(mins)] if mins else []
        if r.random() < 0.3:
            mins += [r.randint(-600, 60 * base[-1] + 600)]
        mins = sorted(mins, reverse=r.random() < 0.3)
        return {
            "world": w,
            "minutes": mins if r.random() < 0.8 else None,
            "maxdt": maxdt,
            "mode": r.choice(["serial", "serial", "thread"]),
            "extreme": r.random() < 0.3,
            "reduce": r.random() < 0.3,
            "seed": r.randrange(2**31),
            "unlikely": r.choice([None, None, 0.0, 40.0, 600.0]),
        }

    def run(self, plan, ctx):
        world = plan["world"]
        nm = len(world["models"])
        paths = worlds.observer_files(world, ctx.scratch)
        streams = make_streams(plan["seed"])
        if plan["extreme"]:
            from sim.rng import Extreme

            streams.factory = lambda s: Extreme(s, 0.2)
            ctx.fault("edge-draws")
        pool_ref = [None]
        maxdt = datetime.timedelta(minutes=plan["maxdt"])
        args = worlds.track_args(world)
        args.update(maxdt=maxdt, reduce_particles=None)
        args.pop("datetimes", None)
        if plan["minutes"] is not None:
            args["datetimes"] = [worlds.T0 + datetime.timedelta(minutes=m) for m in plan["minutes"]]
        mask = args.get("observer_mask", np.ones((nm, len(paths)), bool))

        def go(mode, **kw):
            from glimpse.image import Image
            from glimpse.raster import Raster

            pool_ref[0] = pool = use_pool(ctx, mode, streams, keys=lambda m, i: ("model", i))
            rec = Record(streams, pool_ref)
            obs = worlds.build_observers(
                world, paths, wrap_reader(rec, Image, paths), wrap_reader(rec, Raster, paths))
            models = [worlds.build_model(m, wrap=wrap_model(rec, plan.get("unlikely"))) for m in world["models"]]
            out = track(worlds.build_tracker(world, obs), models, {**args, **kw, "parallel": False if mode == "serial" else 2})
            if mode == "thread":
                ctx.fault("task-switch", pool.switches)
            return out, rec

        ctx.probe(plan["mode"])
        out, rec = go(plan["mode"], return_particles=True)
        # reference schedule
        times = [[worlds.T0 + datetime.timedelta(hours=h) for h in o["hours"]] for o in world["observers"]]
        want = args["datetimes"] if "datetimes" in args else sorted({t for ts in times for t in ts})
        kept = []
        for t in want:
            if kept and t == kept[-1]:
                ctx.probe("duplicate")
                continue
            if min(abs(t - x) for ts in times for x in ts) > maxdt:
                ctx.probe("dropped")
                continue
            kept.append(t)
        # (a duplicate may be separated from its twin only by itself, so order of dropping is irrelevant)
        if len(kept) < 2:
            ctx.probe("too-few")
            ok = isinstance(out.exc, ValueError)
            ctx.check(ok, "too-few-datetimes", lambda: f"{len(kept)} valid datetimes, got {out.exc!r}")
            return
        if out.exc is not None:
            if nm > 1:
                raise Violation("escaped", repr(out.exc)) from out.exc
            return
        t = out.tracks
        if kept[0] > kept[-1]:
            ctx.probe("reverse")
        ctx.check(list(t.datetimes) == kept, "datetimes", lambda: f"{list(t.datetimes)} instead of {kept}")
        images = np.asarray(t.images)
        ctx.check(images.shape == (len(kept), len(paths)), "images-shape", str(images.shape))
        for a, d in enumerate(kept):
            for b, ts in enumerate(times):
                near = min(abs(d - x) for x in ts)
                got = images[a, b]
                if near > maxdt:
                    ctx.check(got is None, "matched-too-far", f"{d}: image {got} of observer {b}")
                else:
                    ok = got is not None and abs(d - ts[got]) == near
                    ctx.check(ok, "not-nearest", f"{d}: image {got} of observer {b}, nearest is {near} away")
        ctx.state((digest((images != None).tolist()), digest(mask), kept[0] > kept[-1]))  # noqa: E711
        for i in range(nm):
            self.one(ctx, i, t, kept, images, mask[i], rec.log.get(i, []), world["models"][i]["n"],
                     plan["mode"] == "serial")
        self.variant(plan, ctx, go, t, nm, world)

    def one(self, ctx, i, t, kept, images, mask, log, n, serial):
        matched = np.not_equal(images, None) & mask
        seen = matched.any(axis=1)
        if not seen.any():
            ctx.probe("no-observer")
            return
        first, last = int(np.argmax(seen)), len(seen) - 1 - int(np.argmax(seen[::-1]))
        if first:
            ctx.probe("window-starts-late")
        if last < len(seen) - 1:
            ctx.probe("window-ends-early")
        if not seen[first : last + 1].all():
            ctx.probe("unmatched-middle")
        if any(matched[:, b].any() and np.argmax(matched[:, b]) > first for b in range(len(mask))):
            ctx.probe("late-template")
        parts = worlds.track_parts(t, i)
        err = t.errors[i] if t.errors is not None else None
        warned = [str(w.message) for w in (t.warnings[i] or ())] if t.warnings is not None else []
        # callbacks: init, then one evolve per later row
        ctx.check(log and log[0][0] == "init", "no-init", f"track {i}: {[e[0] for e in log][:3]}")
        row, evolved, reads = first, {first: log[0][1]}, {}
        for e in log[1:]:
            if e[0] == "init":
                raise Violation("initialised-again", f"track {i} at row {row}")
            if e[0] == "evolve":
                row += 1
                ctx.check(row <= last, "evolved-beyond-end", f"track {i}: row {row} of {first}..{last}")
                ctx.check(e[1] == kept[row] - kept[row - 1], "wrong-dt",
                          f"track {i} row {row}: evolved by {e[1]}, not {kept[row] - kept[row - 1]}")
                evolved[row] = e[2]
            if e[0] == "read":
                reads.setdefault(row, []).append(e[1])
            if e[0] == "likelihood":
                ctx.check(np.array_equal(e[1], evolved[row]), "particles-changed",
                          f"track {i} row {row}: particles were changed after being evolved")
        if err is None:
            ctx.check(row == last, "stopped-early", f"track {i}: stopped at row {row} of {first}..{last}")
        end = row + 1 if err is None else row
        for a in range(first, row + 1):
            allowed = {(b, images[a, b]) for b in range(len(mask)) if matched[a, b]}
            got = set(reads.get(a, ()))
            ctx.check(got <= allowed, "read-unmatched", f"track {i} row {a}: read {got}, matched {allowed}")
            if err is None and not warned and serial:
                # (an observer whose template starts here is read at once; others when weights are updated)
                need = {x for x in allowed if a > first or np.argmax(matched[:, x[0]]) == a}
                ctx.check(need <= got, "image-not-read", f"track {i} row {a}: read {got}, matched {allowed}")
        if warned:
            ctx.probe("image-skipped")
        # missing outside the window
        for part in ("means", "sigmas", "covariances", "particles", "weights"):
            x = parts[part]
            if x is None:
                continue
            ctx.check(len(x) == len(kept), "row-count", f"track {i} {part}: {x.shape}")
            out = np.r_[x[:first].ravel(), x[end if err is None else row + 1 :].ravel()]
            ctx.check(np.isnan(out).all(), "outside-window", f"track {i}: {part} outside rows {first}..{last}")
        p, w = parts["particles"], parts["weights"]
        ctx.check(p.shape == (len(kept), n, 6) and w.shape == (len(kept), n), "particle-count",
                  f"track {i}: {p.shape} {w.shape} for n={n}")
        for a in range(first, end):
            ctx.check(not np.isnan(p[a]).any(), "missing-row", f"track {i} row {a}")
            if a == first:
                ctx.check(np.array_equal(p[a], evolved[a]), "initial-particles", f"track {i} row {a}")
            else:
                known = {x.tobytes(): k for k, x in enumerate(np.ascontiguousarray(evolved[a]))}
                paired = {}
                for x, y in zip(np.ascontiguousarray(p[a]), w[a]):
                    b = x.tobytes()
                    ctx.check(b in known, "foreign-particle", f"track {i} row {a}: particle {x} was never evolved")
                    ctx.check(paired.setdefault(b, y) == y, "weight-unpaired", f"track {i} row {a}: one particle, two weights")
            ctx.check((w[a] >= 0).all() and w[a].sum() > 0, "weights", f"track {i} row {a}: {w[a]}")
            self.stats(ctx, i, a, parts, p[a], w[a])
        ctx.log("track", i, first, last, row, digest(p), digest(w), type(err).__name__)

    def stats(self, ctx, i, a, parts, p, w):
        q = w / w.sum()
        mean = (q[:, None] * p).sum(axis=0)
        scale = np.abs(p).max(axis=0) + 1e-12
        ctx.check((np.abs(parts["means"][a] - mean) <= 1e-9 * scale).all(), "mean",
                  lambda: f"track {i} row {a}: mean {parts['means'][a]}, particles give {mean}")
        d = p - mean
        if parts["sigmas"] is not None:
            s = np.sqrt((q[:, None] * d**2).sum(axis=0))
            ok = np.allclose(parts["sigmas"][a], s, rtol=1e-6, atol=1e-7 * scale.max())
            ctx.check(ok, "sigma", lambda: f"track {i} row {a}: sigma {parts['sigmas'][a]}, particles give {s}")
        if parts["covariances"] is not None:
            c = np.einsum("i,ij,ik->jk", q, d, d)
            factor = 1 - (q**2).sum()  # ddof=0 or unbiased for reliability weights
            ok = any(np.allclose(parts["covariances"][a], x, rtol=1e-6, atol=1e-9 * scale.max() ** 2)
                     for x in ([c, c / factor] if factor > 1e-12 else [c, parts["covariances"][a]]))
            ctx.check(ok, "covariance", lambda: f"track {i} row {a}: {parts['covariances'][a]} not {c}")

    def variant(self, plan, ctx, go, t, nm, world):
        """The other return options give the same numbers for the same draws."""
        if plan["reduce"]:
            ctx.probe("reduced")
            out, _ = go("serial", return_particles=plan["seed"] % 2 == 0, reduce_particles=lambda p, w: (p.copy(), w.copy()))
        else:
            out, _ = go("serial", return_particles=False)
        ctx.check(out.exc is None, "variant-raised", lambda: repr(out.exc))
        v = out.tracks
        ctx.check(v.particles is None and v.weights is None, "variant-particles", "particles returned although not asked for")
        for i in range(nm):
            a, b = worlds.track_parts(t, i), worlds.track_parts(v, i)
            for part in ("means", "sigmas", "covariances"):
                ctx.check(digest(a[part]) == digest(b[part]), "variant-differs", f"track {i}: {part}")
            if plan["reduce"]:
                p, w = b["reduced"]
                ok = digest(p) == digest(a["particles"]) and digest(w) == digest(a["weights"])
                ctx.check(ok, "reduced-differs", f"track {i}: reduce_particles did not get the particles and weights")

    def shrink(self, plan):
        for w in worlds.shrink_world(plan["world"]):
            yield {**plan, "world": copy.deepcopy(w)}
        if plan["minutes"]:
            for i in range(len(plan["minutes"])):
                yield {**plan, "minutes": plan["minutes"][:i] + plan["minutes"][i + 1 :]}
            yield {**plan, "minutes": None}
        for k, v in {"mode": "serial", "extreme": False, "reduce": False, "maxdt": 0}.items():
            if plan[k] != v:
                yield {**plan, k: v}


CHECK = C03()
