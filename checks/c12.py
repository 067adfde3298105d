"""C12: raster reads and samples never corrupt the raster."""
import copy
import os
import warnings

import numpy as np

from sim import worlds
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation, digest
from sim.gdalseam import GdalSeam
from sim.interrupt import LineInterrupt
from sim.rasters import bilinear
from sim.tracking import make_streams, use_pool

QUERIES = ("zlim", "box3d", "coords", "rasterize", "polygons", "gradient", "hillshade", "viewshed", "horizon", "extent", "copy", "slice", "eq", "write")


class C12(Check):
    id = "C12"
    quick = (9000, 90)
    thorough = (200000, 840)
    rule = (
        "A run opens or builds 1-2 rasters and performs 4-20 reads (all or part, cached or not), point and grid samples, queries and cache clears on "
        "them, while files vanish or are cut short, GDAL and allocation calls fail, an interrupt arrives at a chosen line, or several threads (or "
        "processes sharing the cached values) do so interleaved line by line; each value is compared with the file's; runs are distinct by event log."
    )
    measure = "distinct (source, dtype, shape class, cache state, operation, fault, outcome)"
    real = ["Raster.open / read / array / sample / queries", "GDAL on real files", "threads (real, one running at a time)", "shared memory arrays"]
    stubs = ["GDAL Open / ReadAsArray (pass through unless a fault is due)", "sharedmem.copy (fails on demand)", "sharedmem pools (simulated)",
             "worker processes sharing cached values (threads with one Raster object each over the same shared array)"]
    assumptions = ["GDAL's own read of the healthy file's window is what the file's values are", "a file changes only by being damaged and restored",
                   "interpolation of order 2 and above is judged against a fresh raster only"]
    expect_probes = ("memory", "file", "cropped", "resized", "nodata", "zero-nodata", "integer", "nan", "from-cache", "uncached-box", "missing", "gdal-fault",
                     "alloc-fault", "interrupted", "threads", "forks", "points", "grid", "order3", "singleton", "outside", "bad-box")

    # ---- plans ----

    def gen_raster(self, r):
        k = r.random()
        shape = [r.randint(2, 9), r.randint(2, 9)]
        if k < 0.12:
            shape[r.randrange(2)] = 1
        elif k < 0.15:
            shape = [1, 1]
        out = {
            "shape": shape,
            "dtype": r.choice(["f8", "f8", "f4", "i2", "u1", "i4"]),
            "holes": r.choice([0, 0, 0.05, 0.2, 0.6]),
            "zeros": r.choice([0, 0.2]),
            "flip": [r.random() < 0.3, r.random() < 0.7],
            "cell": r.choice([1, 0.5, 2]),
            "origin": [r.randint(-50, 50), r.randint(-50, 50)],
            "src": r.choice(["memory", "memory", "file", "file", "file"]),
            "shared": r.random() < 0.5,
            "nodata": r.choice([None, None, 0, 0, -9999, 7]),
            "nan": r.choice([None, None, None, 0, 7]),
            "crop": r.choice([None, None, [sorted((r.random(), r.random())), sorted((r.random(), r.random()))]]),
            "d": r.choice([None, None, None, 2, 3, 0.5, 1.5]),
        }
        if out["d"] is None:  # a cell size that is not exactly representable
            out["cell"] = r.choice([out["cell"], 0.3])
        return out

    def gen_action(self, r, n):
        k = r.random()
        which = r.randrange(n)
        if k < 0.4:
            box = None
            if r.random() < 0.7:
                box = [sorted((r.random(), r.random())), sorted((r.random(), r.random()))]
            return {"op": "read", "ras": which, "box": box, "cache": r.random() < 0.5}
        if k < 0.8:
            return {"op": "sample", "ras": which, "grid": r.random() < 0.5, "order": r.choice([1, 1, 1, 0, 2, 3]), "n": [r.randint(1, 5), r.randint(1, 5)],
                    "at": r.choice(["any", "any", "centers", "edges"]), "down": [r.random() < 0.3, r.random() < 0.3], "outside": r.random() < 0.15,
                    "fill": r.choice(["error", "error", -1.0, -1, None]), "seed": r.randrange(10**6)}
        return {"op": "query", "ras": which, "what": r.choice(QUERIES), "seed": r.randrange(10**6)}

    def gen(self, r, tier):
        n = r.choice([1, 1, 2])
        ops = []
        for _ in range(r.randint(4, 20)):
            k = r.random()
            if k < 0.42:
                ops.append(self.gen_action(r, n))
            elif k < 0.48:
                ops.append({"op": "clear", "ras": r.randrange(n)})
            elif k < 0.53:
                ops.append({"op": "damage", "ras": r.randrange(n), "how": r.choice(["missing", "cut", "empty"]), "at": r.random()})
            elif k < 0.59:
                ops.append({"op": "restore", "ras": r.randrange(n)})
            elif k < 0.67:
                ops.append({"op": "fault", "on": r.choice([["open"], ["read"], ["alloc"]]), "act": self.gen_action(r, n)})
            elif k < 0.79:
                ops.append({"op": "interrupt", "at": r.choice([r.randint(0, 12), r.randint(0, 60), r.randint(0, 250)]),
                            "exc": r.choice(["KeyboardInterrupt", "MemoryError"]), "act": self.gen_action(r, n)})
            elif k < 0.82:
                ops.append({"op": "badbox", "ras": r.randrange(n), "how": r.choice(["float", "low", "high"])})
            else:
                w = r.randrange(n)
                same = r.random() < 0.5  # the same kind of action everywhere: most likely to collide
                act = self.gen_action(r, 1)

                def alike(act):
                    # the same sample, of another order or at other places
                    if act["op"] == "sample" and r.random() < 0.6:
                        act.update(order=r.choice([0, 1, 1]), seed=r.randrange(10**6), outside=act["outside"] and r.random() < 0.5)
                    return act

                ops.append({"op": "threads", "ras": w, "forks": r.random() < 0.35, "cold": r.random() < 0.6,
                            "jobs": [[{**(alike(dict(act)) if same else self.gen_action(r, 1)), "ras": w} for _ in range(r.randint(1, 2))] for _ in range(r.randint(2, 3))]})
        return {"rasters": [self.gen_raster(r) for _ in range(n)], "ops": ops, "seed": r.randrange(10**6)}

    # ---- set up ----

    def build(self, ctx, plan, k):
        import osgeo.gdal as gdal
        import sharedmem

        from glimpse.raster import Raster

        p = plan["rasters"][k]
        g = worlds.rng(plan["seed"], k)
        ny, nx = p["shape"]
        a = g.uniform(1, 100, (ny, nx)) + 20 * np.mgrid[0:ny, 0:nx].sum(axis=0)
        if p["dtype"][0] != "f":
            a = a.round()
        a[g.uniform(size=a.shape) < p["zeros"]] = 0
        a = a.astype(p["dtype"])
        is_float = a.dtype.kind == "f"
        holes = g.uniform(size=a.shape) < p["holes"]
        x0, y0 = p["origin"]
        xlim = np.array([x0, x0 + nx * p["cell"]], dtype=float)
        ylim = np.array([y0, y0 + ny * p["cell"]], dtype=float)
        if p["flip"][0]:
            xlim = xlim[::-1].copy()
        if p["flip"][1]:
            ylim = ylim[::-1].copy()
        if p["src"] == "memory":
            ctx.probe("memory")
            if is_float:
                a[holes] = np.nan
            ref = a.copy()
            given = sharedmem.copy(a) if p["shared"] else a.copy()
            self.ras.append(Raster(given, x=xlim.copy(), y=ylim.copy()))
            self.paths.append(None)
            self.bytes.append(None)
        else:
            ctx.probe("file")
            nodata, nan = p["nodata"], p["nan"]
            if p["dtype"] == "u1" and nodata is not None and nodata < 0:
                nodata = 0
            marks = [v for v in (nodata, nan) if v is not None] or ([np.nan] if is_float else [0])
            for i, m in enumerate(marks):
                a[holes & (g.randint(len(marks), size=a.shape) == i)] = m
            path = os.path.join(ctx.scratch, f"r{k}.tif")
            worlds.write_tif(path, a, xlim, ylim, nodata=nodata)
            with open(path, "rb") as f:
                self.bytes.append(f.read())
            self.paths.append(path)
            # window: cells that overlap the crop by more than a rounding error
            crop, win, lims = p["crop"], [0, nx, 0, ny], [xlim, ylim]
            kwargs = {}
            if crop is not None:
                for dim, (lim, n, name) in enumerate(((xlim, nx, "xlim"), (ylim, ny, "ylim"))):
                    lo, hi = crop[dim]
                    c0 = min(int(lo * n), n - 1)
                    c1 = max(c0 + 1, min(n, int(np.ceil(hi * n))))
                    d = (lim[1] - lim[0]) / n
                    # limits inside the first and last cell of the window
                    kwargs[name] = tuple(sorted((lim[0] + d * (c0 + 0.25), lim[0] + d * (c1 - 0.25))))
                    win[2 * dim : 2 * dim + 2] = c0, c1
                    lims[dim] = np.array([lim[0] + d * c0, lim[0] + d * c1])
                ctx.probe("cropped")
            w, h = win[1] - win[0], win[3] - win[2]
            buf = [w, h]
            if p["d"] is not None:
                kwargs["d"] = p["d"] * p["cell"]
                buf = [int(np.ceil(w / p["d"])), int(np.ceil(h / p["d"]))]
                if buf != [w, h]:
                    ctx.probe("resized")
            ds = gdal.Open(path)
            ref = ds.GetRasterBand(1).ReadAsArray(xoff=win[0], yoff=win[2], win_xsize=w, win_ysize=h, buf_xsize=buf[0], buf_ysize=buf[1])
            del ds
            if nodata is not None:
                ctx.probe("nodata")
            missing = nan if nan is not None else (nodata if is_float else None)
            if missing is not None:
                if nodata == 0 and missing == 0 and (ref == 0).any():
                    ctx.probe("zero-nodata")
                if not is_float:
                    ref = ref.astype(float)
                ref[ref == missing] = np.nan
            if nan is not None:
                kwargs["nan"] = nan
            xlim, ylim = lims
            ras = Raster.open(path, **kwargs)
            if not np.allclose(np.hstack((ras.xlim, ras.ylim)), np.hstack((xlim, ylim)), rtol=0, atol=1e-9):
                raise Violation("limits-changed", f"raster {k} opened with limits {ras.xlim} {ras.ylim} instead of {xlim} {ylim}")
            xlim, ylim = np.array(ras.xlim), np.array(ras.ylim)  # equal up to rounding: from here on they must not change
            self.ras.append(ras)
        if ref.dtype.kind != "f":
            ctx.probe("integer")
        elif np.isnan(ref).any():
            ctx.probe("nan")
        if 1 in ref.shape:
            ctx.probe("singleton")
        self.ref.append(ref)
        self.lims.append((xlim, ylim))
        self.damage.append(None)

    def run(self, plan, ctx):
        import sharedmem

        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        self.ras, self.ref, self.lims, self.paths, self.bytes, self.damage = [], [], [], [], [], []
        self.ctx = ctx
        for k in range(len(plan["rasters"])):
            self.build(ctx, plan, k)
        self.seam = GdalSeam(ctx)
        self.alloc, self.alloc_fired = None, False
        real_copy = sharedmem.copy

        def failing_copy(*a, **k):
            if self.alloc is not None:
                self.alloc = None
                self.alloc_fired = True
                ctx.fault("allocation")
                raise MemoryError("no shared memory")
            return real_copy(*a, **k)

        sharedmem.copy = failing_copy
        for k in range(len(self.ras)):
            self.intact(k, "after opening")
        for number, op in enumerate(plan["ops"]):
            what = f"operation {number} ({op['op']})"
            ctx.log("op", number, op["op"])
            getattr(self, "do_" + op["op"])(ctx, plan, op, what)
            for k in range(len(self.ras)):
                self.intact(k, what)

    # ---- oracle ----

    def intact(self, k, what):
        """The raster's values and coordinates are what they were."""
        ras, (xlim, ylim) = self.ras[k], self.lims[k]
        if not np.array_equal(ras.xlim, xlim) or not np.array_equal(ras.ylim, ylim):
            raise Violation("limits-changed", f"{what}: raster {k}: {ras.xlim} {ras.ylim} instead of {xlim} {ylim}")
        ref = self.ref[k]
        if tuple(ras.shape[:2]) != ref.shape:
            raise Violation("shape-changed", f"{what}: raster {k}: {tuple(ras.shape)} instead of {ref.shape}")
        if self.damage[k] is not None:
            return
        got = ras.read(cache=False)
        self.same(got, ref, f"{what}: values of raster {k}", "values-changed")

    def same(self, got, want, what, kind):
        if not isinstance(got, np.ndarray) or got.shape != want.shape or got.dtype != want.dtype:
            raise Violation(kind, f"{what}: {getattr(got, 'dtype', type(got))} {np.shape(got)} instead of {want.dtype} {want.shape}")
        if not np.array_equal(got, want, equal_nan=want.dtype.kind == "f"):
            raise Violation(kind, f"{what}: {np.asarray(got)!r} instead of {want!r}")

    def close(self, got, want, what, kind, tol=1e-9):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(kind, f"{what}: shape {got.shape} instead of {want.shape}")
        if got.dtype.kind in "fiu" and want.dtype.kind in "fiu":
            ok = np.allclose(got.astype(float), want.astype(float), rtol=tol, atol=tol, equal_nan=True)
        else:
            ok = np.array_equal(got, want)
        if not ok:
            raise Violation(kind, f"{what}: {got!r} instead of {want!r}")

    # ---- actions: each returns a closure that performs it and one that judges the result ----

    def fresh(self, k):
        from glimpse.raster import Raster

        xlim, ylim = self.lims[k]
        return Raster(self.ref[k].copy(), x=xlim.copy(), y=ylim.copy())

    def action(self, ctx, op):
        return getattr(self, "act_" + op["op"])(ctx, op)

    def act_read(self, ctx, op):
        k = op["ras"]
        ny, nx = self.ref[k].shape
        box = None
        if op["box"] is not None:
            (a, b), (c, d) = op["box"]
            left, top = min(int(a * nx), nx - 1), min(int(c * ny), ny - 1)
            box = [left, top, max(left + 1, int(np.ceil(b * nx))), max(top + 1, int(np.ceil(d * ny)))]
            if not op["cache"]:
                ctx.probe("uncached-box")

        def do(ras):
            return ras.read(box=box, cache=op["cache"])

        def judge(got, what):
            want = self.ref[k] if box is None else self.ref[k][box[1] : box[3], box[0] : box[2]]
            self.same(got, want, f"{what}: raster {k} read box {box}, cache {op['cache']}", "wrong-values")

        return do, judge, None

    def points(self, k, op):
        g = worlds.rng("points", op["seed"])
        (xlim, ylim), (ny, nx) = self.lims[k], self.ref[k].shape
        out = []
        count = op["n"] if op["grid"] else [op["n"][0] + op["n"][1]] * 2
        for lim, n, m, down in ((xlim, nx, count[0], op["down"][0]), (ylim, ny, count[1], op["down"][1])):
            if op["at"] == "centers":
                f = (g.randint(0, n, m) + 0.5) / n
            elif op["at"] == "edges":
                f = g.randint(0, n + 1, m) / n
            else:
                f = g.uniform(0, 1, m)
            p = np.clip(lim[0] + f * (lim[1] - lim[0]), min(lim), max(lim))
            if op["grid"]:
                p = np.unique(p)
                if down:
                    p = p[::-1]
            out.append(p)
        if op["outside"]:
            out[0] = out[0].copy()
            i = 0 if xlim[0] > xlim[1] or not op["grid"] else 0
            lo = min(xlim) - 1.5
            if op["grid"]:
                out[0] = np.concatenate(([lo], out[0])) if len(out[0]) < 2 or out[0][1] > out[0][0] else np.concatenate((out[0], [lo]))
            else:
                out[0][i] = lo
        return out

    def act_sample(self, ctx, op):
        k = op["ras"]
        ref, (xlim, ylim) = self.ref[k], self.lims[k]
        px, py = self.points(k, op)
        grid, order = op["grid"], op["order"]
        small = min(ref.shape)
        if grid:
            order = max(order, 1)
            if small <= order or 1 in ref.shape:
                order = 1
        else:
            order = min(order, 1)
        if 1 in ref.shape:
            order = min(order, 1)
        kw = {"order": order}
        if op["fill"] != "error":
            kw.update(bounds_error=False, fill_value=op["fill"])
        ctx.probe("grid" if grid else "points")
        if order >= 2:
            ctx.probe("order3")
        if op["outside"]:
            ctx.probe("outside")

        def do(ras):
            if grid:
                return ras.sample((px, py), grid=True, **kw)
            return ras.sample(np.column_stack((px, py)), **kw)

        def allowed(err):
            return op["outside"] and op["fill"] == "error" and isinstance(err, ValueError)

        def judge(got, what):
            what = f"{what}: raster {k} {'grid' if grid else 'point'} sample order {order}"
            if op["outside"] and op["fill"] == "error":
                raise Violation("bounds-not-checked", f"{what}: no error for points out of bounds")
            self.close(got, do(self.fresh(k)), f"{what}: not what a fresh raster gives", "wrong-sample")
            if order != 1:
                return
            x, y = np.meshgrid(px, py) if grid else (px, py)
            value, clear, sure = bilinear(ref, xlim, ylim, x, y)
            inside = (x >= min(xlim)) & (x <= max(xlim))
            if op["fill"] == -1.0:
                self.close(np.asarray(got)[~inside], np.full((~inside).sum(), -1.0), f"{what}: out of bounds", "wrong-sample")
            # Beyond the bounds, grid samples keep the value at the bound and point samples extrapolate: only the latter is judged
            judged = inside if op["fill"] == -1.0 or grid else np.ones(x.shape, bool)
            if np.shape(got) != x.shape:
                raise Violation("wrong-sample", f"{what}: shape {np.shape(got)} instead of {x.shape}")
            # Shared by integer and single-precision interpolation: relative to the range of values
            tol = 1e-4 if ref.dtype == np.float32 else 1e-7
            scale = max(1.0, float(np.nanmax(np.abs(ref.astype(float)))) if not np.isnan(ref.astype(float)).all() else 1.0)
            m = judged & clear
            bad = m & ~(np.abs(np.asarray(got, float) - value) <= tol * scale)
            if bad.any():
                raise Violation("wrong-sample", f"{what}: {np.asarray(got)[bad]} instead of {value[bad]} at x={x[bad]} y={y[bad]}")
            bad = judged & sure & ~np.isnan(np.asarray(got, float))
            if bad.any():
                raise Violation("wrong-sample", f"{what}: {np.asarray(got)[bad]} instead of NaN at x={x[bad]} y={y[bad]}")

        return do, judge, allowed

    def act_query(self, ctx, op):
        k, kind = op["ras"], op["what"]
        xlim, ylim = self.lims[k]
        ny, nx = self.ref[k].shape
        g = worlds.rng("query", op["seed"])
        inside = np.column_stack((g.uniform(min(xlim), max(xlim), 5), g.uniform(min(ylim), max(ylim), 5)))
        values = g.uniform(size=5)
        path = os.path.join(ctx.scratch, "copy.tif")

        def do(ras):
            if kind in ("viewshed", "horizon", "gradient") and min(ny, nx) < 3:
                return ras.zlim
            if kind == "zlim":
                return ras.zlim
            if kind == "box3d":
                return ras.box3d
            if kind == "coords":
                return [ras.x, ras.y, ras.X, ras.Y, ras.d, np.array(ras.size)]
            if kind == "rasterize":
                return ras.rasterize(inside, values) if self.ref[k].dtype.kind == "f" else ras.zlim
            if kind == "polygons":
                return ras.rasterize_polygons([inside[:3]], holes=[inside[2:]])
            if kind == "gradient":
                return list(ras.gradient())
            if kind == "hillshade":
                return np.asarray(ras.hillshade()) if min(ny, nx) > 1 else ras.zlim
            if kind == "viewshed":
                return ras.viewshed((*inside[0], 500.0), correction=bool(op["seed"] % 2))
            if kind == "horizon":
                return [np.asarray(x) for x in ras.horizon((*inside[0], -500.0), headings=range(0, 360, 45))]
            if kind == "extent":
                return [[s.start, s.stop] for s in ras.data_extent()]
            if kind == "copy":
                c = ras.copy()
                out = [np.array(c.array), c.xlim.copy(), c.ylim.copy()]
                c.array[:] = 3
                return out
            if kind == "slice":
                return np.array(ras[: max(1, ny // 2), : max(1, nx // 2)].array)
            if kind == "eq":
                return bool(ras == ras)
            ras.write(path, crs=None)
            return "written"

        def run(ras):
            try:
                return do(ras)
            except (ValueError, IndexError) as e:
                return type(e).__name__  # a query a raster cannot answer: not judged here, but it must not corrupt the raster

        def judge(got, what):
            want = run(self.fresh(k))
            if kind == "write" and (isinstance(got, str) or isinstance(want, str)):
                return
            flat_got, flat_want = (x if isinstance(x, list) else [x] for x in (got, want))
            if len(flat_got) != len(flat_want):
                raise Violation("wrong-query", f"{what}: raster {k} {kind}: {got!r} instead of {want!r}")
            for a, b in zip(flat_got, flat_want):
                self.close(a, b, f"{what}: raster {k} {kind}: not what a fresh raster gives", "wrong-query", tol=1e-6)

        return run, judge, None

    def perform(self, ctx, plan, op, what, faulty=None):
        do, judge, allowed = self.action(ctx, op)
        k = op["ras"]
        calls = self.seam.calls
        healthy = self.damage[k] is None
        try:
            got, err = do(self.ras[k]), None
        except (HarnessError, Deadlock, StepLimit):
            raise
        except BaseException as e:  # noqa: BLE001
            got, err = None, e
        if self.seam.calls == calls and self.paths[k] is not None:
            ctx.probe("from-cache")
        p = plan["rasters"][k]
        ctx.state((p["src"], p["dtype"], p["d"], min(2, p["shape"][0]), min(2, p["shape"][1]), op["op"], op.get("what"), op.get("grid"), op.get("order"), op.get("cache"),
                   healthy, faulty, self.seam.calls == calls, type(err).__name__))
        if err is not None:
            if not isinstance(err, Exception) and not faulty:
                raise err
            if allowed is not None and allowed(err):
                return
            if healthy and not faulty:
                raise Violation("operation-failed", f"{what}: {op['op']} on raster {k} ({p['src']}): {type(err).__name__}: {err}") from err
            return
        judge(got, what)

    do_read = do_sample = do_query = perform

    def do_clear(self, ctx, plan, op, what):
        if self.paths[op["ras"]] is not None:
            self.ras[op["ras"]].array = None

    def do_damage(self, ctx, plan, op, what):
        k = op["ras"]
        if self.paths[k] is None:
            return
        self.restore(k)
        if op["how"] == "missing":
            ctx.probe("missing")
            os.unlink(self.paths[k])
        else:
            with open(self.paths[k], "wb") as f:
                f.write(self.bytes[k][: 0 if op["how"] == "empty" else int(len(self.bytes[k]) * op["at"] * 0.5)])
        ctx.fault("file-" + op["how"])
        self.damage[k] = op["how"]
        if op["how"] == "cut":
            # A cut file may still give values: a read may succeed with the bytes that are there
            import osgeo.gdal as gdal

            self.seam.inside = True
            try:
                ds = gdal.Open(self.paths[k])
                a = None if ds is None else ds.GetRasterBand(1).ReadAsArray()
            finally:
                self.seam.inside = False
            if a is not None:
                os.unlink(self.paths[k])

    def restore(self, k):
        tmp = self.paths[k] + ".new"
        with open(tmp, "wb") as f:
            f.write(self.bytes[k])
        os.replace(tmp, self.paths[k])
        self.damage[k] = None

    def do_restore(self, ctx, plan, op, what):
        if self.paths[op["ras"]] is not None:
            self.restore(op["ras"])

    def do_fault(self, ctx, plan, op, what):
        if op["on"] == ["alloc"]:
            self.alloc, self.alloc_fired = 1, False
            self.perform(ctx, plan, op["act"], what, faulty="alloc")
            self.alloc = None
            if self.alloc_fired:
                ctx.probe("alloc-fault")
        else:
            self.seam.arm(op["on"])
            self.perform(ctx, plan, op["act"], what, faulty=op["on"][0])
            if self.seam.disarm():
                ctx.probe("gdal-fault")

    def do_interrupt(self, ctx, plan, op, what):
        act = op["act"]
        do, judge, allowed = self.action(ctx, act)
        k = act["ras"]
        exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op["exc"]]
        try:
            with LineInterrupt(ctx, op["at"], exc) as line:
                got = do(self.ras[k])
        except BaseException as e:  # noqa: BLE001
            if line.fired:
                ctx.probe("interrupted")
                ctx.log("interrupted", op["at"])
            elif self.damage[k] is None and not (allowed is not None and allowed(e)):
                raise
            return
        judge(got, what)

    def do_badbox(self, ctx, plan, op, what):
        k = op["ras"]
        ny, nx = self.ref[k].shape
        box = {"float": [0.0, 0.0, 1.0, 1.0], "low": [-1, 0, 1, 1], "high": [0, 0, nx + 1, 1]}[op["how"]]
        ctx.probe("bad-box")
        try:
            self.ras[k].read(box=box, cache=False)
        except ValueError:
            return
        except Exception as e:  # noqa: BLE001
            if self.damage[k] is not None:
                return
            raise Violation("bounds-not-checked", f"{what}: box {box}: {type(e).__name__}: {e}") from None
        raise Violation("bounds-not-checked", f"{what}: no error for box {box} of raster {k} {nx}x{ny}")

    def do_threads(self, ctx, plan, op, what):
        import glimpse.config

        ctx.probe("forks" if op["forks"] else "threads")
        k = op["ras"]
        if op["cold"] and self.paths[k] is not None:
            self.ras[k].array = None
        use_pool(ctx, "thread", make_streams(1))
        objs = [copy.copy(self.ras[k]) if op["forks"] else self.ras[k] for _ in op["jobs"]]
        acts = [[self.action(ctx, a) for a in job] for job in op["jobs"]]

        def work(i):
            out = []
            for do, _, allowed in acts[i]:
                try:
                    got = do(objs[i])
                    got = [np.array(x) for x in got] if isinstance(got, list) else np.array(got) if isinstance(got, np.ndarray) else got
                    out.append((got, None))
                except (HarnessError, Deadlock, StepLimit):
                    raise
                except Exception as e:  # noqa: BLE001
                    out.append((None, e))
            return out

        with glimpse.config.backend(np=len(op["jobs"])) as pool:
            results = pool.map(work, list(range(len(op["jobs"]))))
        for i, out in enumerate(results):
            for (got, err), (_, judge, allowed), a in zip(out, acts[i], op["jobs"][i]):
                if err is not None:
                    if self.damage[k] is not None or (allowed is not None and allowed(err)):
                        continue
                    raise Violation("operation-failed", f"{what}: {a['op']} in worker {i}: {type(err).__name__}: {err}") from err
                judge(got, f"{what}, worker {i}")
        ctx.log("threads", [[digest(got) for got, _ in out] for out in results])

    def shrink(self, plan):
        ops = plan["ops"]
        for size in (8, 4, 2, 1):
            for i in range(0, len(ops), size):
                if len(ops) > size:
                    yield {**plan, "ops": ops[:i] + ops[i + size :]}
        for i, o in enumerate(ops):
            if o["op"] == "threads":
                for j in range(len(o["jobs"])):
                    if len(o["jobs"]) > 2:
                        yield {**plan, "ops": ops[:i] + [{**o, "jobs": o["jobs"][:j] + o["jobs"][j + 1 :]}] + ops[i + 1 :]}
                    if len(o["jobs"][j]) > 1:
                        yield {**plan, "ops": ops[:i] + [{**o, "jobs": o["jobs"][:j] + [o["jobs"][j][:1]] + o["jobs"][j + 1 :]}] + ops[i + 1 :]}
        for k, p in enumerate(plan["rasters"]):
            for a, b in {"src": "memory", "shared": False, "dtype": "f8", "holes": 0, "zeros": 0, "flip": [False, False], "cell": 1, "origin": [0, 0], "crop": None,
                         "d": None, "nan": None, "nodata": None, "shape": [2, 2]}.items():
                if p[a] != b:
                    yield {**plan, "rasters": plan["rasters"][:k] + [{**p, a: b}] + plan["rasters"][k + 1 :]}


CHECK = C12()
