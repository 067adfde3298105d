"""C06: projected DEM images do not depend on parallelism or scheduling."""
import numpy as np

from sim import worlds
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation, digest
from sim.tracking import make_streams, use_pool


class Trip:
    """Fails (or only yields to the scheduler) when a tile of an input is taken for the n-th time."""

    def __init__(self):
        self.pool, self.at, self.n, self.fired, self.exc = None, None, {}, False, ValueError

    def hit(self, what):
        if self.pool is not None:
            self.pool.point(what)
        k = self.n[what] = self.n.get(what, 0) + 1
        if self.at == (what, k):
            self.fired = True
            raise self.exc(f"injected into {what}")


class TripArray(np.ndarray):
    trip = None

    def __array_finalize__(self, obj):
        self.trip = None  # only the array given to the library trips, not what is made from it

    def __getitem__(self, key):
        if self.trip is not None and isinstance(key, tuple) and any(isinstance(k, slice) for k in key):
            self.trip.hit(self.kind)
        return super().__getitem__(key)


def trip_array(a, trip, kind):
    out = a.view(TripArray)
    out.trip, out.kind = trip, kind
    return out


class C06(Check):
    id = "C06"
    quick = (2500, 100)
    thorough = (150000, 840)
    rule = (
        "A run projects a random DEM (tiles overlapping, hiding one another, partly masked or missing) serially, under a "
        "simulated process or thread pool, and tile by tile as a reference, with a tile failing or a worker dying at a "
        "chosen point in some runs; runs are distinct by event log."
    )
    measure = "distinct (mode, delivery order, tiles, outcome)"
    real = ["Camera.project_dem", "Raster", "pandas aggregation", "forked workers / threads"]
    stubs = ["sharedmem.MapReduce / MapReduceByThread (simulated pool)", "os.cpu_count"]
    assumptions = ["the cells of one tile that fall in one pixel are averaged, as documented by rasterize_points; only the tiles "
                   "are re-ordered and re-combined by the reference", "a dead worker makes the pool raise, as sharedmem does"]
    expect_probes = ("process", "thread", "overlap", "out-of-order", "tile-failed", "killed", "rescaled", "empty-tile")

    def gen(self, r, tier):
        nx, ny = r.randint(4, 18), r.randint(4, 18)
        oblique = r.random() < 0.6
        return {
            "n": [nx, ny],
            "d": r.choice([1, 1, 0.5, 2]),
            "seed": r.randrange(10**6),
            "relief": r.choice([0, 1, 4, 10]),
            "nan": r.choice([0, 0, 0.1, 0.4]),
            "mask": r.choice([None, None, 0.2, 0.6]),
            "bands": r.choice([0, 1, 1, 2, 3]),
            "int": r.random() < 0.3,
            "depth": r.random() < 0.5,
            "tile": [r.randint(2, 9), r.randint(2, 9)],
            "overlap": r.choice([[1, 1], [1, 1], [0, 0], [2, 1], [3, 3]]),
            "scale": r.choice([None, None, None, 0.7, 1.5, 3]),
            "imgsz": [r.randint(3, 14), r.randint(3, 12)],
            "f": r.choice([6, 10, 20]),
            "xyz": [r.uniform(-6, 6), r.uniform(-16, -6) if oblique else r.uniform(-6, 6), r.choice([8, 14, 25])],
            "viewdir": [r.uniform(-30, 30), r.uniform(-70, -25), r.uniform(-10, 10)] if oblique else [r.uniform(0, 360), -90, 0],
            "k": r.choice([[], [], [0.1]]),
            "mode": r.choice(["process", "process", "thread"]),
            "parallel": r.choice([True, 1, 2, 2, 3, 5]),
            "ncpu": r.choice([1, 2, 4]),
            "fault": r.choice([None, None, None, None, ["values", r.randint(1, 9)], ["mask", r.randint(1, 9)],
                               ["dem", r.randint(1, 9)], ["kill", r.randint(0, 9), r.choice(["start", "end", 1, 2])]]),
            "exc": r.choice(["value", "memory", "local"]),
        }

    def run(self, plan, ctx):
        from glimpse.camera import Camera
        from glimpse.raster import Raster

        nx, ny = plan["n"]
        g = worlds.rng("c06", plan["seed"])
        yy, xx = np.mgrid[0:ny, 0:nx]
        z = plan["relief"] * (np.sin(xx / 2.0 + g.uniform(0, 6)) + np.cos(yy / 1.7 + g.uniform(0, 6))) / 2
        z[g.random_sample(z.shape) < plan["nan"]] = np.nan
        d = plan["d"]
        x0, y0 = -(nx // 2) * d, (ny // 2) * d
        xlim, ylim = np.array([x0, x0 + nx * d]), np.array([y0, y0 - ny * d])
        values = None
        if plan["bands"]:
            values = g.randint(0, 255, (ny, nx, plan["bands"])) if plan["int"] else g.random_sample((ny, nx, plan["bands"]))
            if plan["bands"] == 1 and plan["seed"] % 2:
                values = values[:, :, 0]
        depth = plan["depth"] or values is None
        mask = None if plan["mask"] is None else g.random_sample((ny, nx)) >= plan["mask"]
        cam = Camera(imgsz=plan["imgsz"], f=(plan["f"],) * 2, xyz=plan["xyz"], viewdir=plan["viewdir"], k=plan["k"])
        streams = make_streams(plan["seed"])
        kw = dict(tile_size=tuple(plan["tile"]), tile_overlap=tuple(plan["overlap"]), return_depth=depth)
        if plan["scale"]:
            kw.update(scale=plan["scale"], scale_limits=(1, 3))
            ctx.probe("rescaled")
        trip = Trip()

        class TripRaster(Raster):
            def __getitem__(self, key):
                trip.hit("dem")
                return super().__getitem__(key)

        def project(mode, parallel, fault=None, dem_cls=Raster, wrap=False):
            pool = use_pool(ctx, mode, streams, ncpu=plan["ncpu"],
                            kill={"map": 0, "item": fault[1], "at": fault[2]} if fault and fault[0] == "kill" else None)
            trip.pool, trip.n, trip.fired = pool, {}, False
            trip.at = tuple(fault) if fault and fault[0] != "kill" else None
            trip.exc = {"value": ValueError, "memory": MemoryError, "local": type("Local", (Exception,), {})}[plan["exc"]]
            dem = dem_cls(z.copy(), x=xlim.copy(), y=ylim.copy())
            v = None if values is None else values.copy()
            m = None if mask is None else mask.copy()
            gv = v if v is None or not wrap else trip_array(v, trip, "values")
            gm = m if m is None or not wrap else trip_array(m, trip, "mask")
            before = digest(dem.array, dem.xlim, dem.ylim, v, m)
            try:
                out = cam.project_dem(dem, values=gv, mask=gm, parallel=parallel, **kw)
            except (HarnessError, Deadlock, StepLimit):
                raise
            except Exception as e:  # noqa: BLE001
                out = e
            ok = digest(dem.array, dem.xlim, dem.ylim, v, m) == before
            ctx.check(ok, "input-changed", f"dem, values or mask changed by a {mode} run ({type(out).__name__})")
            return out, pool

        base, _ = project("serial", False)
        if isinstance(base, Exception):
            raise Violation("raised", repr(base)) from base
        shape = (plan["imgsz"][1], plan["imgsz"][0], (np.atleast_3d(values).shape[2] if values is not None else 0) + depth)
        ctx.check(base.shape == shape, "shape", f"{base.shape} instead of {shape}")
        # reference: every tile on its own, later tiles over earlier ones
        ref, tiles, over = self.reference(ctx, plan, cam, Raster, z, xlim, ylim, values, mask, kw, shape)
        if over:
            ctx.probe("overlap")
        ctx.check(digest(ref) == digest(base), "not-tile-order", lambda: self.where(ref, base))
        # simulated schedule
        fault = plan["fault"]
        if fault and fault[0] == "kill" and (plan["mode"] != "process" or fault[1] >= tiles):
            fault = None
        out, pool = project(plan["mode"], plan["parallel"], fault, TripRaster, True)
        ctx.probe(plan["mode"])
        order = [e for e in ctx.events if e.startswith("('deliver'")]
        ctx.fault("task-switch", pool.switches)
        if order != sorted(order, key=lambda e: int(e.split(",")[2])):
            ctx.probe("out-of-order")
            ctx.fault("late-delivery")
        ctx.state((plan["mode"], tiles, order, type(out).__name__))
        if ctx.faults["worker-killed"]:
            ctx.probe("killed")
            ctx.check(isinstance(out, Exception), "dead-worker-ignored", "a worker died but an image was returned")
        elif isinstance(out, Exception):
            # a trip in a forked worker is not seen here: the error tells
            ok = trip.at is not None and "injected into" in repr(out) + str(out.args)
            if not ok:
                raise Violation("raised", f"{plan['mode']}: {out!r}") from out
            ctx.probe("tile-failed")
            ctx.fault("tile-exception")
        else:
            ctx.check(not trip.fired, "failed-tile-ignored", "a tile failed but an image was returned")
            ctx.check(digest(out) == digest(base), "schedule-dependent", lambda: f"{plan['mode']}: {self.where(base, out)}")
        ctx.log("image", digest(base), tiles)

    def where(self, a, b):
        if a.shape != b.shape:
            return f"{a.shape} {b.shape}"
        bad = ~((a == b) | (np.isnan(a) & np.isnan(b)))
        return f"{int(bad.sum())} values differ, first at {tuple(np.argwhere(bad)[0])}" if bad.any() else "dtype differs"

    def reference(self, ctx, plan, cam, Raster, z, xlim, ylim, values, mask, kw, shape):
        dem = Raster(z.copy(), x=xlim, y=ylim)
        full = np.full(shape, np.nan)
        v = None if values is None else np.atleast_3d(values)
        tiles = dem.tile_indices(size=kw["tile_size"], overlap=kw["tile_overlap"])
        m = ~np.isnan(z) if mask is None else mask
        covered = np.zeros(z.shape, int)
        for ij in tiles:
            covered[ij] += 1
        ctx.check((covered > 0).all(), "cells-in-no-tile", lambda: f"tiles {tiles} of {z.shape}")
        count = np.zeros(shape[:2], int)
        for ij in tiles:
            tile = dem[ij]
            tm = m[ij]
            if not tm.any() or np.isnan(tile.array[tm]).all():
                ctx.probe("empty-tile")
                continue
            one = cam.project_dem(tile, values=None if v is None else v[ij], mask=tm,
                                  **{**kw, "tile_size": tile.array.shape[::-1], "return_depth": True})
            written = ~np.isnan(one[:, :, -1])
            count += written
            full[written] = one[written] if kw["return_depth"] else one[written][:, :-1]
        return full, len(tiles), bool((count > 1).any())

    def shrink(self, plan):
        if plan["fault"]:
            yield {**plan, "fault": None}
        for k, v in {"nan": 0, "mask": None, "bands": 1, "int": False, "scale": None, "k": [], "overlap": [1, 1], "parallel": 2,
                     "exc": "value"}.items():
            if plan[k] != v:
                yield {**plan, k: v}
        for a in (0, 1):
            if plan["n"][a] > 4:
                n = list(plan["n"])
                n[a] -= 2
                yield {**plan, "n": n}


CHECK = C06()
