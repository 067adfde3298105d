"""C21: particle weights are the likelihoods of the stated measurement model."""
import datetime
import os

import numpy as np
import scipy.interpolate
import scipy.ndimage

from sim import oddities, worlds
from sim.check import Check
from sim.core import Violation, digest
from sim.tracking import make_streams, track, use_pool

T0 = worlds.T0


class Hold:
    """What the models of the current call do and did."""

    def __init__(self, streams, pool_ref):
        self.streams, self.pool_ref = streams, pool_ref
        self.fail = None  # (model, event number)
        self.count = {}
        self.fired = []

    def event(self, kind):
        key = getattr(self.streams.tls, "key", "main")
        if not (isinstance(key, tuple) and key[0] == "model"):
            return
        self.pool_ref[0].point(kind)
        n = self.count[key[1]] = self.count.get(key[1], -1) + 1
        if self.fail is not None and self.fail[:2] == [key[1], n]:
            self.fired.append(key[1])
            raise oddities.make(self.fail[2], "scripted")


class C21(Check):
    id = "C21"
    quick = (4000, 90)
    thorough = (80000, 840)
    rule = (
        "A run makes 1-3 tracking calls on one tracker - photos with moving, turned and distorted cameras, rasters of several "
        "types read from files or held in memory, one or three bands, changed pixel deviations, filters and interpolation "
        "between the calls, motion models with and without likelihoods - serially or as interleaved threads, with exceptions "
        "in some tracks, and compares the weight of every returned particle with an independent measurement model; "
        "runs are distinct by event log."
    )
    measure = "distinct (observer kinds, schedule, outcome of each observer and time step)"
    real = ["Tracker.track, Tracks, observers, motion models, images, cameras, rasters", "GDAL", "OpenCV", "scipy"]
    stubs = ["sharedmem.MapReduceByThread (simulated pool)", "np.random draws"]
    assumptions = ["steps are not judged where a projected box edge is within rounding of a pixel edge",
                   "weights are compared to 0.05 percent of their logarithm (template matching is in single precision)"]
    expect_probes = ("serial", "thread", "image", "raster", "memory", "judged", "skipped-image", "late-template", "two-observers",
                     "own-likelihood", "no-likelihood", "unweighted-step", "changed", "underflow", "after-exception", "distorted")

    # ---- plans ----

    def gen_observer(self, r):
        n = r.randint(2, 4)
        kind = r.choice(["image", "image", "raster", "memory"])
        return {
            "kind": kind, "bands": r.choice([1, 1, 3]), "seed": r.randrange(10**6),
            "hours": sorted(r.sample(range(0, 6), n)), "v": [r.uniform(-1.5, 1.5), r.uniform(-1.5, 1.5)],
            "cache": r.random() < 0.6, "sigma": r.choice([0.1, 0.3, 0.5, 1.0, 2.0]),
            "dtype": r.choice(["float32", "float64", "int16", "uint8", "uint16"]), "up": r.random() < 0.25,
            "drift": r.choice([0.0, 0.0, 0.6]), "turn": r.choice([0.0, 0.0, 3.0]), "heading": r.choice([0.0, 0.0, 37.0, 200.0]),
            "k": r.choice([0.0, 0.0, 0.3]), "f": r.choice([100.0, 140.0]), "ext": r.choice(["png", "tif"]),
            "gain": r.choice([0.0, 0.0, 0.2]),
        }

    def gen_call(self, r, nm, nobs):
        mask = None
        if r.random() < 0.3:
            mask = [[r.random() < 0.7 for _ in range(nobs)] for _ in range(nm)]
            for m in mask:
                if not any(m):
                    m[r.randrange(nobs)] = True
        return {
            "mode": r.choice(["serial", "serial", "thread"]), "seed": r.randrange(2**31), "tile": r.choice([[7, 7], [5, 5], [9, 6], [4, 8], [11, 7]]),
            "mask": mask, "reverse": r.random() < 0.2, "skip": r.random() < 0.2,
            "fail": [r.randrange(nm), r.choice([0, 2, 3, 5, 8]), r.choice(oddities.KINDS)] if r.random() < 0.2 else None,
            "change": r.choice([None, None, "sigma", "highpass", "interpolation", "clear", "cache"]), "value": r.randrange(1000),
        }

    def gen(self, r, tier):
        nobs = r.choice([1, 1, 2, 3])
        obs = [self.gen_observer(r) for _ in range(nobs)]
        models = []
        n = r.choice([6, 12, 25])
        for _ in range(r.choice([1, 2, 2, 3])):
            far = r.random() < 0.15
            models.append({
                "cls": r.choice(["cartesian", "tangent", "plain"]), "n": n,
                "xy": [r.uniform(-14, 14), r.uniform(-11, 11)] if far else [r.uniform(-6, 6), r.uniform(-5, 5)],
                "s": r.choice([0.0, 0.2, 0.7]), "v": [r.uniform(-0.8, 0.8), r.uniform(-0.8, 0.8)],
                "likelihood": r.choice(["own", "none", "none", "flat", "harsh"]), "dem_sigma": r.choice([None, 0.3, 0.0]),
            })
        return {
            "observers": obs, "models": models,
            "calls": [self.gen_call(r, len(models), nobs) for _ in range(r.choice([1, 1, 2, 3]))],
            "resample": r.choice(["systematic", "stratified", "residual", "choice"]),
            "highpass": r.choice([[3, 3], [5, 5], [5, 3], None]),
            "interp": r.choice([[3, 3], [3, 3], [1, 1], [2, 3], [1, 3]]),
        }

    # ---- the world ----

    SIZE = (60, 46)

    def pixels(self, o, j):
        """The pixel values of image j of an observer (the first band of a raster)."""
        a = self.stored(o, j)
        return a if o["kind"] == "image" or a.ndim == 2 else a[:, :, 0]

    def stored(self, o, j):
        w, h = self.SIZE
        a = worlds.texture(o["seed"], w, h, bands=o["bands"], dx=o["v"][0] * j, dy=o["v"][1] * j).astype(float)
        a = a * (1 - o["gain"] * (j % 2))
        if o["kind"] == "image":
            return a.round().astype(np.uint8)
        if o["dtype"] in ("float32", "float64"):
            return (a / 7 - 10).astype(o["dtype"])
        if o["dtype"] == "int16":
            return (a * 3 - 300).round().astype(np.int16)
        return a.round().astype(o["dtype"])

    def camera(self, o, j):
        """Position, heading of the camera of image j."""
        return (0.3 + o["drift"] * j, -0.2 - 0.5 * o["drift"] * j, 100.0), o["heading"] + o["turn"] * j

    def project(self, o, j, xyz):
        w, h = self.SIZE
        if o["kind"] != "image":
            u = (xyz[:, 0] + 18) / 0.6
            v = (xyz[:, 1] + 13.8) / 0.6 if o["up"] and o["kind"] == "memory" else (13.8 - xyz[:, 1]) / 0.6
            return np.column_stack((u, v))
        (cx, cy, cz), heading = self.camera(o, j)
        a = np.radians(heading)
        x, y, d = xyz[:, 0] - cx, xyz[:, 1] - cy, cz - xyz[:, 2]
        p = np.column_stack(((x * np.cos(a) - y * np.sin(a)) / d, -(x * np.sin(a) + y * np.cos(a)) / d))
        p = p * (1 + o["k"] * (p**2).sum(axis=1, keepdims=True))
        return p * o["f"] + (w / 2 + 0.7, h / 2 - 0.4)

    def build(self, plan, root, hold):
        from glimpse.image import Image
        from glimpse.raster import Raster
        from glimpse.track.observer import Observer
        from glimpse.track.tracker import Tracker

        def reader(cls):
            class Reader(cls):
                def read(self, *a, **k):
                    hold.event("read")
                    return super().read(*a, **k)

            return Reader

        observers = []
        for i, o in enumerate(plan["observers"]):
            images = []
            for j, h in enumerate(o["hours"]):
                t = T0 + datetime.timedelta(hours=h)
                a = self.stored(o, j) if o["kind"] == "raster" else self.pixels(o, j)
                path = os.path.join(root, f"o{i}_{j}.{o['ext'] if o['kind'] == 'image' else 'tif'}")
                if o["kind"] == "image":
                    xyz, heading = self.camera(o, j)
                    if o["ext"] == "tif":
                        worlds.write_tif(path, a, (0, self.SIZE[0]), (0, self.SIZE[1]))
                    else:
                        worlds.write_image(path, a)
                    images.append(reader(Image)(path, datetime=t, cam=dict(
                        imgsz=self.SIZE, f=(o["f"], o["f"]), c=(0.7, -0.4), k=(o["k"],), xyz=xyz, viewdir=(heading, -90, 0))))
                elif o["kind"] == "raster":
                    worlds.write_tif(path, a, (-18, 18), (13.8, -13.8))
                    images.append(reader(Raster).open(path, datetime=t))
                else:
                    ylim = (-13.8, 13.8) if o["up"] else (13.8, -13.8)
                    images.append(reader(Raster)(a, x=(-18, 18), y=ylim, datetime=t))
            observers.append(Observer(images, sigma=o["sigma"], cache=o["cache"]))
        kw = {}
        if plan["highpass"]:
            kw["highpass"] = {"size": tuple(plan["highpass"])}
        kw["interpolation"] = dict(zip(("kx", "ky"), plan["interp"]))
        return Tracker(observers, resample_method=plan["resample"], **kw)

    def model(self, m, hold, record):
        from glimpse.track.motion import CartesianMotion, Motion, TangentCartesianMotion

        cls = {"cartesian": CartesianMotion, "tangent": TangentCartesianMotion, "plain": Motion}[m["cls"]]

        class Recorded(cls):
            def initialize_particles(self):
                hold.event("init")
                p = super().initialize_particles()
                record.append(p.copy())
                return p

            def evolve_particles(self, particles, dt):
                super().evolve_particles(particles, dt)
                hold.event("evolve")
                record.append(particles.copy())

            def compute_log_likelihoods(self, particles):
                if m["likelihood"] == "own":
                    return super().compute_log_likelihoods(particles)
                if m["likelihood"] == "flat":
                    return np.full(len(particles), 1.5)
                if m["likelihood"] == "harsh":
                    return np.abs(particles[:, 0] * 997 % 1) * 900
                return None

        s = (m["s"], m["s"])
        unit = datetime.timedelta(hours=1)
        if m["cls"] == "plain":
            return Recorded(tuple(m["xy"]), unit, n=m["n"], vxyz_sigma=(0.4, 0.4, 0.0))
        kw = {"dem_sigma": m["dem_sigma"]} if m["cls"] == "cartesian" else {}
        v = {"vxyz": (*m["v"], 0), "vxyz_sigma": (0.3, 0.3, 0.05), "axyz_sigma": (0.05, 0.05, 0)} if m["cls"] == "cartesian" else {
            "vxy": m["v"], "vxy_sigma": (0.3, 0.3), "axy_sigma": (0.05, 0.05)}
        return Recorded(tuple(m["xy"]), unit, dem=1.25, n=m["n"], xy_sigma=s, **kw, **v)

    # ---- the reference ----

    def tile(self, o, j, box, size):
        """Gray values of a box, with mean 0 and variance 1."""
        l, t, r, b = box
        a = self.pixels(o, j)[t:b, l:r].astype(float)
        if a.ndim == 3:
            a = a.mean(axis=2)
        s = a.std()
        return None if s == 0 else (a - a.mean()) / s

    def filtered(self, a, highpass):
        return a - scipy.ndimage.median_filter(a, **highpass)

    @staticmethod
    def cdf(a):
        v, n = np.unique(a.round(9), return_counts=True)
        return v, np.cumsum(n) / a.size

    def matched(self, a, cdf):
        v, q = self.cdf(a)
        return np.interp(q, cdf[1], cdf[0])[np.searchsorted(v, a.round(9))]

    def template(self, o, j, center, size, highpass):
        """Template around a point; None if it cannot be judged; IndexError if it leaves the image."""
        lo = center - np.array(size) / 2
        hi = center + np.array(size) / 2
        if (lo < 0).any() or (hi > self.SIZE).any():
            raise IndexError
        for e in (*lo, *hi):
            if abs((e % 1) - 0.5) < 1e-6:
                return None
        box = np.concatenate((np.floor(lo + 0.5), np.floor(hi + 0.5))).astype(int)
        a = self.tile(o, j, box, size)
        if a is None:
            return None
        return {"cdf": self.cdf(a), "tile": self.filtered(a, highpass), "duv": center - (box[:2] + box[2:]) / 2}

    def measured(self, o, j, tpl, p, size, sigma, highpass, interp):
        """Log likelihoods of particles in image j; 'skipped', 'unknown'."""
        uv = self.project(o, j, p[:, :3])
        half = np.array(size) / 2
        lo, hi = uv.min(axis=0) - half, uv.max(axis=0) + half
        for axis, k in ((0, interp["ky"]), (1, interp["kx"])):
            room = k - (hi[axis] - lo[axis] - size[axis])
            if room > 0:
                lo[axis] -= room / 2
                hi[axis] += room / 2
        for e in (*lo, *hi):
            if abs(e - round(e)) < 1e-7:
                return "unknown"
        lo, hi = np.floor(lo).astype(int), np.ceil(hi).astype(int)
        if (lo < 0).any() or (hi > self.SIZE).any():
            return "skipped"
        a = self.tile(o, j, (*lo, *hi), size)
        if a is None:
            return "unknown"
        a = self.filtered(self.matched(a, tpl["cdf"]), highpass)
        t = tpl["tile"]
        win = np.lib.stride_tricks.sliding_window_view(a, t.shape)
        sse = ((win - t) ** 2).mean(axis=(2, 3))
        cu = lo[0] + half[0] + tpl["duv"][0] + np.arange(sse.shape[1])
        cv = lo[1] + half[1] + tpl["duv"][1] + np.arange(sse.shape[0])
        f = scipy.interpolate.RectBivariateSpline(cv, cu, sse, kx=interp["kx"], ky=interp["ky"])
        return f(uv[:, 1], uv[:, 0], grid=False) / (2 * sigma**2)

    # ---- one history ----

    def run(self, plan, ctx):
        streams = make_streams(0)
        pool_ref = [None]
        hold = Hold(streams, pool_ref)
        tracker = self.build(plan, ctx.scratch, hold)
        sigmas = [o["sigma"] for o in plan["observers"]]
        highpass = {"size": tuple(plan["highpass"] or (5, 5))}
        interp = dict(zip(("kx", "ky"), plan["interp"]))
        state = []
        for o in plan["observers"]:
            ctx.probe(o["kind"])
            if o["kind"] == "image" and o["k"]:
                ctx.probe("distorted")
        if len(plan["observers"]) > 1:
            ctx.probe("two-observers")
        failed = False
        for c, call in enumerate(plan["calls"]):
            if call["change"] and c:
                v = call["value"]
                ctx.probe("changed")
                o = v % len(sigmas)
                if call["change"] == "sigma":
                    tracker.observers[o].sigma = sigmas[o] = [0.2, 0.7, 1.5][v % 3]
                elif call["change"] == "highpass":
                    highpass = {"size": [(3, 3), (5, 5), (3, 5)][v % 3]}
                    tracker.highpass = dict(highpass)
                elif call["change"] == "interpolation":
                    interp = dict(zip(("kx", "ky"), [(1, 1), (3, 3), (2, 1)][v % 3]))
                    tracker.interpolation = dict(interp)
                elif call["change"] == "clear" and plan["observers"][o]["kind"] != "memory":
                    tracker.observers[o].clear_images()
                elif call["change"] == "cache":
                    tracker.observers[o].cache_images()
            out = self.call(plan, ctx, hold, pool_ref, tracker, call, sigmas, highpass, interp, f"call {c}", failed)
            failed = failed or bool(hold.fired)
            state.append(out)
        ctx.state((tuple(o["kind"] for o in plan["observers"]), tuple(state)))

    def call(self, plan, ctx, hold, pool_ref, tracker, call, sigmas, highpass, interp, what, failed):
        obs = plan["observers"]
        records = [[] for _ in plan["models"]]
        models = [self.model(m, hold, rec) for m, rec in zip(plan["models"], records)]
        streams = make_streams(call["seed"])
        hold.streams = streams
        pool_ref[0] = pool = use_pool(ctx, call["mode"], streams, keys=lambda m, i: ("model", i))
        hold.fail, hold.count, hold.fired = call["fail"], {}, []
        hours = sorted({h for o in obs for h in o["hours"]})
        if call["skip"] and len(hours) > 3:
            hours = hours[1:]
        args = {"tile_size": tuple(call["tile"]), "return_particles": True, "parallel": False if call["mode"] == "serial" else 2}
        if call["reverse"]:
            hours = hours[::-1]
        if call["reverse"] or call["skip"]:
            args["datetimes"] = [T0 + datetime.timedelta(hours=h) for h in hours]
        mask = np.array(call["mask"] or [[True] * len(obs)] * len(models))
        if call["mask"]:
            args["observer_mask"] = mask
        out = track(tracker, models, args)
        if call["mode"] == "thread":
            ctx.fault("task-switch", pool.switches)
        if hold.fired:
            ctx.fault("exception", len(hold.fired))
        ctx.probe(call["mode"])
        if out.exc is not None:
            if len(models) > 1:
                raise Violation("escaped", f"{what}: {out.exc!r}") from out.exc
            if not hold.fired and not isinstance(out.exc, IndexError):
                raise Violation("raised", f"{what}: {out.exc!r}") from out.exc
            ctx.log(what, "raised")
            return "raised"
        if failed:
            ctx.probe("after-exception")
        t = out.tracks
        res = []
        for i in range(len(models)):
            err = None if t.errors is None else t.errors[i]
            res.append(self.judge(plan, ctx, f"{what}, track {i}", call, models[i], i, hours, mask[i], records[i], np.asarray(t.particles[i]),
                                  np.asarray(t.weights[i]), err, t.warnings[i] if t.warnings is not None else None,
                                  sigmas, highpass, interp, i in hold.fired))
        ctx.log(what, call["mode"], res, digest(np.asarray(t.means)))
        return (call["mode"], tuple(res))

    def judge(self, plan, ctx, what, call, model, i, hours, mask, record, particles, weights, err, warned, sigmas, highpass, interp, scripted):
        obs = plan["observers"]
        size = call["tile"]
        used = [[o["hours"].index(h) if h in o["hours"] else None for o in obs] for h in hours]
        seen = [k for k in range(len(hours)) if any(u is not None and m for u, m in zip(used[k], mask))]
        if not seen:
            return "unobserved"
        first, last = seen[0], seen[-1]
        templates = [None] * len(obs)
        started = [False] * len(obs)
        outcome, skips, sure = [], 0, True
        prior = np.ones(plan["models"][i]["n"])
        for k in range(first, last + 1):
            if k - first >= len(record):
                break
            p = record[k - first]
            bad = not np.isfinite(p).all()
            for b, o in enumerate(obs):
                if mask[b] and used[k][b] is not None and not started[b]:
                    started[b] = True
                    if k > first:
                        ctx.probe("late-template")
                    mean = (p[:, :3] * prior[:, None]).sum(axis=0) / prior.sum()
                    uv = self.project(o, used[k][b], mean[None])[0]
                    try:
                        templates[b] = self.template(o, used[k][b], uv, size, highpass)
                    except IndexError:
                        ctx.check(err is not None, "template-beyond-image",
                                  f"{what}, step {k}: a template around {uv} of size {size} is not in the image of observer {b}")
                        return tuple(outcome) + ("beyond",)
            got, w = particles[k], weights[k]
            if np.isnan(w).all():  # the track ended with an error here
                break
            if k == first:
                ctx.check(np.array_equal(got, p), "wrong-particles", f"{what}: first particles are not the initial particles")
                ctx.check(np.ptp(w) == 0, "wrong-weight", f"{what}: initial weights differ: {np.unique(w)[:3]}")
                prior = w
                outcome.append("first")
                continue
            terms, unknown = [], bad
            for b, o in enumerate(obs):
                if not mask[b] or used[k][b] is None:
                    continue
                if templates[b] is None:
                    unknown = True
                    continue
                L = self.measured(o, used[k][b], templates[b], p, size, sigmas[b], highpass, interp)
                if isinstance(L, str):
                    unknown = unknown or L == "unknown"
                    if L == "skipped":
                        skips += 1
                        ctx.probe("skipped-image")
                    continue
                terms.append(L)
            own = model.compute_log_likelihoods(p.copy())
            if own is not None:
                terms.append(own)
                ctx.probe("own-likelihood")
            else:
                ctx.probe("no-likelihood")
            rows = {}
            for a in range(len(p)):
                rows.setdefault(p[a].tobytes(), a)
            index = [rows.get(x.tobytes()) for x in got]
            ctx.check(all(x is not None for x in index), "wrong-particles", f"{what}, step {k}: a returned particle was not among the evolved ones")
            sure = sure and not unknown
            if not unknown:
                ctx.probe("judged")
                self.compare(ctx, f"{what}, step {k}", w, index, terms, prior, p)
                outcome.append((len(terms), skips))
            else:
                outcome.append("unknown")
            prior = w
        if call["mode"] == "serial" and skips and not scripted:
            ctx.check(bool(warned) or err is not None, "skipped-silently", f"{what}: {skips} images were skipped without a warning")
        return tuple(outcome)

    def compare(self, ctx, what, w, index, terms, prior, p):
        ctx.check(np.isfinite(w).all() and (w > 0).all(), "wrong-weight", f"{what}: weights {w[~(np.isfinite(w) & (w > 0))][:3]}")
        if not terms:
            ctx.probe("unweighted-step")
            # equal particles may have different weights
            same = {}
            for a in range(len(p)):
                same.setdefault(p[a].tobytes(), set()).add(float(prior[a]))
            for a, x in enumerate(index):
                ctx.check(float(w[a]) in same[p[x].tobytes()], "wrong-weight", f"{what}: weight {w[a]} without any measurement")
            return
        L = np.sum(terms, axis=0)[index]
        with np.errstate(all="ignore"):
            got = -np.log(w)
        tiny = L > 640
        if tiny.any():
            ctx.probe("underflow")
        ok = np.where(tiny, got > 630, np.abs(got - L) <= 5e-4 * np.abs(L) + 5e-4)
        ctx.check(bool(ok.all()), "wrong-weight",
                  lambda: f"{what}: log likelihoods {(-got[~ok])[:3]} instead of {(-L[~ok])[:3]} ({len(terms)} terms)")

    def shrink(self, plan):
        calls = plan["calls"]
        for i in range(len(calls)):
            if len(calls) > 1:
                yield {**plan, "calls": calls[:i] + calls[i + 1:]}
        for i, c in enumerate(calls):
            for k, v in {"mode": "serial", "mask": None, "reverse": False, "skip": False, "fail": None, "change": None, "tile": [7, 7]}.items():
                if c[k] != v:
                    yield {**plan, "calls": calls[:i] + [{**c, k: v}] + calls[i + 1:]}
        ms = plan["models"]
        for i in range(len(ms)):
            if len(ms) > 1:
                yield {**plan, "models": ms[:i] + ms[i + 1:], "calls": [
                    {**c, "mask": c["mask"] and c["mask"][:i] + c["mask"][i + 1:],
                     "fail": c["fail"] and [c["fail"][0] % (len(ms) - 1)] + c["fail"][1:]} for c in calls]}
        obs = plan["observers"]
        for i in range(len(obs)):
            if len(obs) > 1:
                yield {**plan, "observers": obs[:i] + obs[i + 1:], "calls": [{**c, "mask": None} for c in calls]}
        for i, o in enumerate(obs):
            for k, v in {"kind": "memory", "bands": 1, "dtype": "float64", "up": False, "drift": 0.0, "turn": 0.0, "heading": 0.0, "k": 0.0,
                         "gain": 0.0, "cache": False}.items():
                if o[k] != v:
                    yield {**plan, "observers": obs[:i] + [{**o, k: v}] + obs[i + 1:]}
        for i, m in enumerate(ms):
            for k, v in {"cls": "plain", "s": 0.0, "likelihood": "none", "dem_sigma": None}.items():
                if m[k] != v:
                    yield {**plan, "models": ms[:i] + [{**m, k: v}] + ms[i + 1:]}
        for k, v in {"resample": "systematic", "highpass": [3, 3], "interp": [3, 3]}.items():
            if plan[k] != v:
                yield {**plan, k: v}


CHECK = C21()
