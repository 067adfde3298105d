"""C17: raster interpolation in time never alters its inputs."""
import datetime
import os
import warnings

import numpy as np
import scipy.ndimage

from sim import worlds
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation, digest
from sim.gdalseam import GdalSeam
from sim.interrupt import LineInterrupt
from sim.tracking import make_streams, use_pool


class C17(Check):
    id = "C17"
    quick = (6000, 90)
    thorough = (250000, 840)
    rule = (
        "A run makes 3-14 requests of one interpolant over 2-5 rasters, files and numbers (same grid, nested grids, or unrelated grids), with missing files, "
        "failing GDAL reads, failing or interrupted user functions and interrupts at chosen lines between and inside them, some interleaved line by line "
        "across threads; after each, inputs and results are compared with untouched copies, a fresh interpolant and a cell-by-cell model; runs are distinct by event log."
    )
    measure = "distinct (series kind, source kinds, request options, fault, outcome)"
    real = ["RasterInterpolant", "Raster", "GDAL on real files", "threads (real, one running at a time)"]
    stubs = ["GDAL Open / ReadAsArray (pass through unless a fault is due)", "sharedmem pool (simulated)"]
    assumptions = ["values on unrelated (non-nested) grids are judged against a fresh interpolant only",
                   "numbers stand for uncertainties only: a series of numbers has no grid to interpolate on"]
    expect_probes = ("same", "nested", "unrelated", "path", "raster", "opened", "sigma-number", "sigma-raster", "sigma-path", "sigma-none", "exact", "between", "outside", "turned",
                     "extrapolate", "crop", "cell-size", "zlim", "fun", "fun-failed", "missing", "gdal-fault", "interrupted", "threads", "datetime")

    def gen_request(self, r):
        return {"at": r.choice(["exact", "between", "between", "between", "outside"]), "k": r.randrange(5), "f": r.choice([0.25, 0.5, 0.9, r.random() * 0.98 + 0.01]),
                "extrapolate": r.random() < 0.25, "sigma": r.random() < 0.5, "crop": [r.choice([None, None, [1, 2], [0, 3], [2, 4]]) for _ in range(2)],
                "d": r.choice([None, None, None, 2, 0.5]), "zlim": r.choice([None, None, [0.2, 0.8]]), "fun": r.choice([None, None, "double", "fail", "interrupt"])}

    def gen(self, r, tier):
        n = r.randint(2, 5)
        kind = r.choice(["same", "same", "same", "nested", "unrelated"])
        mixed = r.random() < 0.3  # members in different orientations
        series = []
        for k in range(n):
            series.append({"src": r.choice(["raster", "raster", "path", "opened"]), "holes": r.choice([0, 0, 0.1]), "warm": r.random() < 0.5,
                           "finer": r.choice([1, 2, 4]), "pad": [r.randint(0, 2) for _ in range(4)], "cells": [r.randint(3, 7), r.randint(3, 7)],
                           "shift": [r.randint(-1, 1), r.randint(-1, 1)], "turn": [mixed and r.random() < 0.3, mixed and r.random() < 0.5],
                           "sigma": r.choice(["number", "raster", "path"])})
        ops = []
        for _ in range(r.randint(3, 14)):
            k = r.random()
            if k < 0.5:
                ops.append({"op": "request", "req": self.gen_request(r)})
            elif k < 0.6:
                ops.append({"op": "damage", "k": r.randrange(n), "which": r.choice(["mean", "sigma"])})
            elif k < 0.68:
                ops.append({"op": "restore"})
            elif k < 0.78:
                ops.append({"op": "fault", "on": r.choice([["open"], ["read"]]), "after": r.choice([0, 0, 1, 2, 3]), "req": self.gen_request(r)})
            elif k < 0.93:
                ops.append({"op": "interrupt", "n": r.choice([r.randint(0, 60), r.randint(0, 300)]), "exc": r.choice(["KeyboardInterrupt", "MemoryError"]), "req": self.gen_request(r)})
            else:
                ops.append({"op": "threads", "reqs": [self.gen_request(r) for _ in range(r.randint(2, 3))]})
        return {"kind": kind, "series": series, "ops": ops, "sigmas": r.choice(["none", "given", "given", "numbers"]), "x": r.choice(["number", "int", "datetime", "datetime-own"]),
                "shuffle": r.random() < 0.3, "size": [r.randint(4, 6), r.randint(4, 6)], "cell": r.choice([1, 2, 0.5]), "flip": r.random() < 0.7, "seed": r.randrange(10**6)}

    # ---- set up ----

    def grid_of(self, plan, s):
        """Shape and limits of one member of the series."""
        nx, ny = plan["size"]
        cell = plan["cell"] * 2 if plan["kind"] == "nested" else plan["cell"]
        x0, y0 = 10, -20
        if plan["kind"] == "same":
            shape, box = (ny, nx), [x0, y0, x0 + nx * cell, y0 + ny * cell]
        elif plan["kind"] == "nested":
            # cells subdivide the coarsest cell; extents are padded by whole coarsest cells
            a, b, c, d = s["pad"]
            f = 2 if s["finer"] > 1 else 1
            shape = ((ny + b + d) * f, (nx + a + c) * f)
            box = [x0 - a * cell, y0 - b * cell, x0 + (nx + c) * cell, y0 + (ny + d) * cell]
        else:
            cell = plan["cell"] * (1 + 0.1 * s["finer"])
            w, h = s["cells"]
            shape = (h, w)
            x0, y0 = x0 + s["shift"][0] * 0.3, y0 + s["shift"][1] * 0.3
            box = [x0, y0, x0 + w * cell, y0 + h * cell]
        xlim, ylim = np.array([box[0], box[2]], float), np.array([box[1], box[3]], float)
        fx, fy = self.flips(plan, s)
        return shape, xlim[::-1].copy() if fx else xlim, ylim[::-1].copy() if fy else ylim

    def flips(self, plan, s):
        """Whether the x and y coordinates of a member decrease."""
        fx, fy = s.get("turn", [False, False])
        return bool(fx), bool(plan["flip"]) != bool(fy)

    def values(self, plan, k, s, shape, salt):
        g = worlds.rng(plan["seed"], salt, k)
        if plan["kind"] == "nested":
            return np.full(shape, round(g.uniform(1, 100), 2))
        a = g.uniform(1, 100, shape).round(2)
        if salt == "mean":
            a[g.uniform(size=shape) < s["holes"]] = np.nan
        return a

    def interpolant(self, plan, note=None):
        """A new interpolant over new inputs."""
        from glimpse.raster import Raster, RasterInterpolant

        means, sigmas = [], []
        for k, s in enumerate(plan["series"]):
            shape, xlim, ylim = self.grid_of(plan, s)
            for salt, out in (("mean", means), ("sigma", sigmas)):
                src = s["src"] if salt == "mean" else s["sigma"]
                if salt == "sigma" and plan["sigmas"] == "numbers":
                    src = "number"
                a = self.arrays[salt][k]
                path = os.path.join(self.scratch, f"{salt}{k}.tif")
                if plan["x"] == "datetime-own" and src in ("path", "opened") and salt == "mean":
                    src = "raster"
                if src == "number":
                    obj = float(self.numbers[k])
                elif src == "path":
                    obj = path
                elif src == "opened":
                    obj = Raster.open(path)
                else:
                    obj = Raster(a.copy(), x=xlim.copy(), y=ylim.copy(), crs=32633, datetime=self.x[k] if plan["x"].startswith("datetime") else None)
                    if s["warm"]:
                        obj.X, obj.Y, obj.Zf
                out.append(obj)
                if note is not None:
                    note.probe(("" if salt == "mean" else "sigma-") + src)
        x = None if plan["x"] == "datetime-own" else list(self.x)
        s = None if plan["sigmas"] == "none" else sigmas
        return RasterInterpolant(means, sigmas=s, x=x), means, s

    def run(self, plan, ctx):
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        ctx.probe(plan["kind"])
        self.scratch, self.ctx, self.plan = ctx.scratch, ctx, plan
        n = len(plan["series"])
        if len({self.flips(plan, s) for s in plan["series"]}) > 1:
            ctx.probe("turned")
        g = worlds.rng(plan["seed"], "x")
        x = np.cumsum(g.randint(1, 9, n)).astype(float)
        if plan["x"] == "int":
            x = x.astype(int)
        x = list(x)
        if plan["x"].startswith("datetime"):
            ctx.probe("datetime")
            x = [worlds.T0 + datetime.timedelta(days=float(v)) for v in x]
        if plan["shuffle"]:
            x = [x[i] for i in g.permutation(n)]
        self.x = x
        self.numbers = g.uniform(0.1, 3, n).round(2)
        self.arrays = {salt: [self.values(plan, k, s, self.grid_of(plan, s)[0], salt) for k, s in enumerate(plan["series"])] for salt in ("mean", "sigma")}
        self.files = {}
        for k, s in enumerate(plan["series"]):
            shape, xlim, ylim = self.grid_of(plan, s)
            for salt in ("mean", "sigma"):
                path = os.path.join(ctx.scratch, f"{salt}{k}.tif")
                worlds.write_tif(path, self.arrays[salt][k], xlim, ylim)
                with open(path, "rb") as f:
                    self.files[path] = f.read()
        if plan["sigmas"] == "none":
            ctx.probe("sigma-none")
        self.f, self.means, self.sigmas = self.interpolant(plan, ctx)
        self.missing = set()
        self.seam = GdalSeam(ctx)
        for number, op in enumerate(plan["ops"]):
            what = f"operation {number} ({op['op']})"
            ctx.log("op", number, op["op"])
            getattr(self, "do_" + op["op"])(ctx, op, what)
            self.untouched(what)

    # ---- oracle ----

    def untouched(self, what):
        """The inputs are what they were given."""
        plan, f = self.plan, self.f
        if f.means is not self.means or f.sigmas is not self.sigmas or len(f.means) != len(plan["series"]):
            raise Violation("input-changed", f"{what}: the interpolant holds other inputs")
        if [v for v in f.x] != self.x:
            raise Violation("input-changed", f"{what}: coordinates are {f.x} instead of {self.x}")
        for k, s in enumerate(plan["series"]):
            shape, xlim, ylim = self.grid_of(plan, s)
            for salt, objs in (("mean", f.means), ("sigma", f.sigmas or [None] * len(f.means))):
                obj = objs[k]
                if obj is None or isinstance(obj, (str, float)):
                    continue
                if not np.allclose(obj.xlim, xlim, rtol=1e-12) or not np.allclose(obj.ylim, ylim, rtol=1e-12):
                    raise Violation("input-changed", f"{what}: limits of {salt} {k} are {obj.xlim} {obj.ylim} instead of {xlim} {ylim}")
                if tuple(obj.shape) != shape:
                    raise Violation("input-changed", f"{what}: shape of {salt} {k} is {obj.shape} instead of {shape}")
                if obj.path is not None and obj.path in self.missing:
                    continue
                pending, self.seam.pending = self.seam.pending, None
                got = obj.read(cache=False)
                self.seam.pending = pending
                if not np.array_equal(got, self.arrays[salt][k], equal_nan=True):
                    raise Violation("input-changed", f"{what}: values of {salt} {k} are {got!r} instead of {self.arrays[salt][k]!r}")
                d = (xlim[1] - xlim[0]) / shape[1]
                if not np.allclose(obj.x, xlim[0] + (np.arange(shape[1]) + 0.5) * d):
                    raise Violation("input-changed", f"{what}: cell coordinates of {salt} {k} changed")

    def request(self, req):
        """Arguments of a request, and the two members it is between (None if unknown)."""
        plan, x = self.plan, self.x
        order = sorted(range(len(x)), key=lambda i: x[i])
        k = req["k"] % len(x)
        pos = order.index(k)
        one = datetime.timedelta(days=1) if plan["x"].startswith("datetime") else 1
        if req["at"] == "between" and pos + 1 == len(order):
            pos -= 1
        if req["at"] == "exact":
            xi = x[order[pos]]
            pair = None
        elif req["at"] == "between":
            a, b = order[pos], order[pos + 1]
            xi = x[a] + (x[b] - x[a]) * req["f"]
            pair = (a, b)
        else:
            xi = x[order[0]] - one * 0.4 if req["k"] % 2 else x[order[-1]] + one * 0.4
            pair = tuple(order[:2] if req["k"] % 2 else order[-2:])
        kw = {"extrapolate": req["extrapolate"], "return_sigma": req["sigma"]}
        if req["extrapolate"]:
            gap = sorted((abs(v - xi), i) for i, v in enumerate(x))
            near = sorted((gap[0][1], gap[1][1]), key=lambda i: x[i])
            pair = tuple(near)
            if len(gap) > 2 and abs(gap[1][0] - gap[2][0]) < one * 1e-6:
                pair = "tie"
        elif req["at"] == "exact":
            pair = (order[pos], order[pos])
        elif req["at"] == "outside":
            pair = "error"
        # crops on whole cells of the common grid
        nx, ny = plan["size"]
        cell = plan["cell"] * 2 if plan["kind"] == "nested" else plan["cell"]
        crop = []
        for name, c, o, n in (("xlim", req["crop"][0], 10, nx), ("ylim", req["crop"][1], -20, ny)):
            if c is not None:
                kw[name] = (o + c[0] * cell, o + c[1] * cell)
            crop.append([0, n] if c is None else c)
        if req["d"] is not None:
            kw["d"] = req["d"] * cell
        if req["zlim"] is not None:
            kw["zlim"] = (1 + 99 * req["zlim"][0], 1 + 99 * req["zlim"][1])
        if req["fun"] is not None:
            ctx = self.ctx

            def fun(raster, add=0.0):
                raster.array[:] = raster.array * 2 + add
                if req["fun"] == "fail":
                    ctx.fault("callable")
                    raise RuntimeError("user function failed")
                if req["fun"] == "interrupt":
                    ctx.fault("interrupt")
                    raise KeyboardInterrupt("in the user function")

            kw.update(fun=fun, add=1.0)
        return xi, kw, pair, crop

    def uses(self, pair, sigma):
        """Files a request needs."""
        if not isinstance(pair, tuple):
            return None
        out = set()
        for k in pair:
            for salt, objs in (("mean", self.means), ("sigma", self.sigmas or [0] * len(self.means))):
                if salt == "sigma" and not sigma:
                    continue
                obj = objs[k]
                if isinstance(obj, str) or (not isinstance(obj, (int, float)) and obj.path is not None):
                    out.add(obj if isinstance(obj, str) else obj.path)
        return out

    def call(self, f, xi, kw):
        try:
            return f(xi, **kw), None
        except (HarnessError, Deadlock, StepLimit):
            raise
        except BaseException as e:  # noqa: BLE001
            return None, e

    def flat(self, got):
        rasters = got if isinstance(got, tuple) else (got,)
        return [(np.array(r.array), np.array(r.xlim, float), np.array(r.ylim, float), r.datetime) for r in rasters]

    def judge(self, req, got, err, what, faulty=None):
        plan, ctx = self.plan, self.ctx
        xi, kw, pair, crop = self.request(req)
        ctx.probe(req["at"])
        for name, on in (("extrapolate", req["extrapolate"]), ("crop", any(req["crop"])), ("cell-size", req["d"] is not None), ("zlim", req["zlim"]), ("fun", req["fun"] == "double")):
            if on:
                ctx.probe(name)
        uses = self.uses(pair, req["sigma"])
        lost = bool(uses & self.missing) if uses is not None else bool(self.missing)
        ctx.state((plan["kind"], plan["sigmas"], req["at"], req["extrapolate"], req["sigma"], any(req["crop"]), req["d"], bool(req["zlim"]), req["fun"], faulty, lost, type(err).__name__))
        ctx.log("outcome", type(err).__name__, None if err is not None else digest(self.flat(got)))
        what = f"{what}: {plan['kind']} series at {req['at']} {({k: v for k, v in kw.items() if k != 'fun'})}"
        if err is not None:
            if faulty or lost or req["fun"] in ("fail", "interrupt"):
                if req["fun"] in ("fail", "interrupt"):
                    ctx.probe("fun-failed")
                return
            if pair == "error":
                if not isinstance(err, ValueError):
                    raise Violation("wrong-error", f"{what}: {type(err).__name__} instead of ValueError: {err}") from err
                return
            if plan["kind"] == "unrelated" or (plan["kind"] == "nested" and req["d"] is not None):
                return  # members need not overlap; judged against a fresh interpolant
            if req["d"] is not None and any((c[1] - c[0]) < req["d"] for c in crop):
                return  # less than one cell of the requested size
            raise Violation("request-failed", f"{what}: {type(err).__name__}: {err}") from err
        if pair == "error":
            raise Violation("no-error", f"{what}: a request outside of the series was answered")
        if req["fun"] in ("fail", "interrupt"):
            raise Violation("no-error", f"{what}: the user function's error was swallowed")
        flat = self.flat(got)
        if len(flat) != 1 + req["sigma"]:
            raise Violation("wrong-result", f"{what}: {len(flat)} rasters returned")
        if pair == "tie":
            return
        a, b = pair
        x = self.x
        scale = 0.0 if a == b else (xi - x[a]) / (x[b] - x[a])
        if plan["x"].startswith("datetime") and flat[0][3] != xi:
            raise Violation("wrong-result", f"{what}: result is dated {flat[0][3]} instead of {xi}")

        def cropped(k, z):
            """Values within the crop, as seen in the orientation of the first member."""
            if plan["kind"] != "same":
                return z
            fx, fy = self.flips(plan, plan["series"][k])
            gx, gy = self.flips(plan, plan["series"][a])
            z = z[:: -1 if fy else 1, :: -1 if fx else 1]
            z = z[crop[1][0] : crop[1][1], crop[0][0] : crop[0][1]]
            return z[:: -1 if gy else 1, :: -1 if gx else 1]

        def member(k):
            z = cropped(k, self.arrays["mean"][k].copy())
            if req["zlim"] is not None:
                lo, hi = kw["zlim"]
                z = np.where((z < lo) | (z > hi), np.nan, z)
            if req["fun"] == "double":
                z = z * 2 + 1
            return z

        def spread(k):
            if self.sigmas is None:
                return np.zeros((1, 1))
            if isinstance(self.sigmas[k], float):
                return np.full((1, 1), self.sigmas[k])
            return cropped(k, self.arrays["sigma"][k])

        if plan["kind"] == "unrelated":
            return
        if plan["kind"] == "nested":
            # constant rasters: the interpolated value is known on any grid
            za, zb = member(a).flat[0], member(b).flat[0]
            want = za + (zb - za) * scale
            bad = ~np.isclose(flat[0][0], want, rtol=1e-9, atol=1e-9, equal_nan=True)
            if bad.any():
                raise Violation("wrong-values", f"{what}: {flat[0][0][bad]} instead of {want}")
            if req["d"] is None:
                # lowest resolution, common extent
                boxes = []
                for k in {a, b}:
                    shape, xlim, ylim = self.grid_of(plan, plan["series"][k])
                    boxes.append([min(xlim), min(ylim), max(xlim), max(ylim), abs(xlim[1] - xlim[0]) / shape[1]])
                if "xlim" in kw:
                    boxes.append([kw["xlim"][0], -1e9, kw["xlim"][1], 1e9, 0])
                if "ylim" in kw:
                    boxes.append([-1e9, kw["ylim"][0], 1e9, kw["ylim"][1], 0])
                lo, hi, d = np.max(boxes, axis=0)[:2], np.min(boxes, axis=0)[2:4], np.max(boxes, axis=0)[4]
                self.grid_is(flat[0], lo, hi, d, what)
            return
        if req["d"] is not None:
            # values on a changed cell size are GDAL's or scipy's; the grid is the one asked for
            if abs(req["d"] - 1) > 0 and all((c[1] - c[0]) % 2 == 0 for c in crop):
                lo = [10 + crop[0][0] * plan["cell"], -20 + crop[1][0] * plan["cell"]]
                hi = [10 + crop[0][1] * plan["cell"], -20 + crop[1][1] * plan["cell"]]
                self.grid_is(flat[0], lo, hi, kw["d"], what)
            return
        za, zb = member(a), member(b)
        want = za if a == b else za + (zb - za) * scale
        turned = self.flips(plan, plan["series"][a]) != self.flips(plan, plan["series"][b])
        if turned and flat[0][0].shape == want.shape and 1 in want.shape:
            # resampled along a line, a missing cell may also hide its neighbours
            missing = scipy.ndimage.binary_dilation(np.isnan(zb), np.ones((3, 3)))
            want = np.where(missing & np.isnan(flat[0][0]), np.nan, want)
        self.close(flat[0][0], want, f"{what}: mean")
        lo = [10 + crop[0][0] * plan["cell"], -20 + crop[1][0] * plan["cell"]]
        hi = [10 + crop[0][1] * plan["cell"], -20 + crop[1][1] * plan["cell"]]
        self.grid_is(flat[0], lo, hi, plan["cell"], what)
        if req["sigma"]:
            sa, sb = spread(a), spread(b)
            if a == b:
                sigma = np.broadcast_to(sa, want.shape) + 0 * want
            else:
                near = min(abs(xi - x[a]), abs(xi - x[b])) / (x[b] - x[a])
                sigma = np.sqrt(sa**2 + scale**2 * (sa**2 + sb**2) + ((zb - za) * near / 3) ** 2)
            known = ~np.isnan(want)
            if turned and flat[1][0].shape == want.shape:
                known &= ~np.isnan(flat[1][0]) | ~scipy.ndimage.binary_dilation(np.isnan(zb), np.ones((3, 3)))
            if flat[1][0].shape != want.shape:
                raise Violation("wrong-values", f"{what}: sigma has shape {flat[1][0].shape} instead of {want.shape}")
            self.close(flat[1][0][known], sigma[known], f"{what}: sigma")
            self.grid_is(flat[1], lo, hi, plan["cell"], what + ": sigma")

    def close(self, got, want, what):
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-8, atol=1e-8, equal_nan=True):
            raise Violation("wrong-values", f"{what}: {got!r} instead of {want!r}")

    def grid_is(self, flat, lo, hi, d, what):
        a, xlim, ylim, _ = flat
        box = [min(xlim), min(ylim), max(xlim), max(ylim)]
        if not np.allclose(box, [*lo, *hi], atol=1e-6):
            raise Violation("wrong-grid", f"{what}: extent {box} instead of {[*lo, *hi]}")
        size = [int(round((hi[i] - lo[i]) / d)) for i in (1, 0)]
        if list(a.shape) != size:
            raise Violation("wrong-grid", f"{what}: shape {a.shape} instead of {size} (cell size {d})")

    def like_fresh(self, req, got, err, what):
        """The answer does not depend on the requests before it."""
        xi, kw, pair, _ = self.request(req)
        uses = self.uses(pair, req["sigma"])
        if err is not None and (self.missing if uses is None else uses & self.missing):
            return
        for path in self.missing:
            with open(path, "wb") as f:
                f.write(self.files[path])
        fresh, _, _ = self.interpolant(self.plan)
        want, werr = self.call(fresh, xi, kw)
        for path in self.missing:
            os.unlink(path)
        if (err is None) != (werr is None) or type(err) is not type(werr):
            raise Violation("history", f"{what}: {err!r} instead of {werr!r} from a fresh interpolant")
        if err is None and digest(self.flat(got)) != digest(self.flat(want)):
            raise Violation("history", f"{what}: {self.flat(got)} instead of {self.flat(want)} from a fresh interpolant")

    def misuse(self, got):
        """What is done to a result is the caller's business."""
        for r in got if isinstance(got, tuple) else (got,):
            r.array[:] = -1
            r.xlim[:] = r.xlim + 3
            r.ylim[:] = r.ylim - 3
            r.shift(dx=0.5, dy=-1, dz=2)
            r.crop(zlim=(0, 1))

    # ---- operations ----

    def do_request(self, ctx, op, what):
        xi, kw, _, _ = self.request(op["req"])
        got, err = self.call(self.f, xi, kw)
        self.judge(op["req"], got, err, what)
        self.like_fresh(op["req"], got, err, what)
        if err is None:
            self.misuse(got)

    def do_damage(self, ctx, op, what):
        path = os.path.join(ctx.scratch, f"{op['which']}{op['k']}.tif")
        if os.path.exists(path) and op["k"] < len(self.means):
            obj = (self.means if op["which"] == "mean" else self.sigmas or [0] * 9)[op["k"]]
            os.unlink(path)
            ctx.fault("file-missing")
            if isinstance(obj, str) or (not isinstance(obj, (int, float)) and obj.path is not None):
                ctx.probe("missing")
                self.missing.add(path)

    def do_restore(self, ctx, op, what):
        for path, data in self.files.items():
            if not os.path.exists(path):
                with open(path, "wb") as f:
                    f.write(data)
        self.missing = set()

    def do_fault(self, ctx, op, what):
        xi, kw, _, _ = self.request(op["req"])
        self.seam.arm(op["on"], op["after"])
        got, err = self.call(self.f, xi, kw)
        if self.seam.disarm():
            ctx.probe("gdal-fault")
            self.judge(op["req"], got, err, what, faulty="gdal")
        else:
            self.judge(op["req"], got, err, what)
            self.like_fresh(op["req"], got, err, what)

    def do_interrupt(self, ctx, op, what):
        xi, kw, _, _ = self.request(op["req"])
        with LineInterrupt(ctx, op["n"], {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op["exc"]]) as line:
            got, err = self.call(self.f, xi, kw)
        if line.fired:
            ctx.probe("interrupted")
        self.judge(op["req"], got, err, what, faulty="interrupt" if line.fired else None)

    def do_threads(self, ctx, op, what):
        import glimpse.config

        ctx.probe("threads")
        use_pool(ctx, "thread", make_streams(1))
        reqs = [r if r["fun"] != "interrupt" else {**r, "fun": "fail"} for r in op["reqs"]]

        def work(i):
            xi, kw, _, _ = self.request(reqs[i])
            return self.call(self.f, xi, kw)

        with glimpse.config.backend(np=len(reqs)) as pool:
            results = pool.map(work, list(range(len(reqs))))
        for i, (got, err) in enumerate(results):
            self.judge(reqs[i], got, err, f"{what}, thread {i}")
            self.like_fresh(reqs[i], got, err, f"{what}, thread {i}")

    def shrink(self, plan):
        ops = plan["ops"]
        for size in (8, 4, 2, 1):
            for i in range(0, len(ops), size):
                if len(ops) > size:
                    yield {**plan, "ops": ops[:i] + ops[i + size :]}
        for i, o in enumerate(ops):
            if o["op"] == "threads" and len(o["reqs"]) > 2:
                for j in range(len(o["reqs"])):
                    yield {**plan, "ops": ops[:i] + [{**o, "reqs": o["reqs"][:j] + o["reqs"][j + 1 :]}] + ops[i + 1 :]}
            if "req" in o:
                for a, b in {"fun": None, "zlim": None, "d": None, "crop": [None, None], "sigma": False, "extrapolate": False}.items():
                    if o["req"][a] != b:
                        yield {**plan, "ops": ops[:i] + [{**o, "req": {**o["req"], a: b}}] + ops[i + 1 :]}
        if len(plan["series"]) > 2:
            for k in range(len(plan["series"])):
                yield {**plan, "series": plan["series"][:k] + plan["series"][k + 1 :]}
        for a, b in {"sigmas": "none", "x": "number", "shuffle": False, "cell": 1, "flip": False, "kind": "same", "size": [4, 4]}.items():
            if plan[a] != b:
                yield {**plan, a: b}
        for k, p in enumerate(plan["series"]):
            for a, b in {"src": "raster", "holes": 0, "warm": False, "sigma": "number", "turn": [False, False], "finer": 1, "pad": [0, 0, 0, 0]}.items():
                if p[a] != b:
                    yield {**plan, "series": plan["series"][:k] + [{**p, a: b}] + plan["series"][k + 1 :]}


CHECK = C17()
