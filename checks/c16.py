"""C16: derived raster coordinates and interpolants always match the raster."""
import os
import warnings

import numpy as np

from sim import worlds
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation
from sim.gdalseam import GdalSeam
from sim.rasters import bilinear

MUTATE = ("shift", "shift", "shift", "crop", "crop", "zcrop", "resize", "resample", "array", "array", "xlim", "ylim", "circle", "crevasses", "trim")
OBSERVE = ("x", "y", "X", "Y", "d", "bounds", "size", "points", "points", "grid", "eq", "zlim", "index", "subgrid", "convert", "snap", "inbounds", "tiles", "extent")


class Model:
    """What a raster is: values and limits."""

    def __init__(self, array, xlim, ylim, single=False):
        self.array, self.xlim, self.ylim = array, np.asarray(xlim, float), np.asarray(ylim, float)
        self.single = single or array.dtype == np.float32  # values went through single precision

    def copy(self):
        return Model(self.array.copy(), self.xlim.copy(), self.ylim.copy(), self.single)

    def raster(self):
        from glimpse.raster import Raster

        return Raster(self.array.copy(), x=self.xlim.copy(), y=self.ylim.copy())


class C16(Check):
    id = "C16"
    quick = (7000, 90)
    thorough = (300000, 840)
    rule = (
        "A run applies 4-30 mutating, observing, copying and failing operations to 1-4 rasters and grids (in memory or not yet read from file), with "
        "invalid arguments, failing user callables and GDAL reads between them, and compares every observation with a raster rebuilt from an independent "
        "model of values and limits; runs are distinct by event log."
    )
    measure = "distinct (operation, caches built before, source, singleton, outcome)"
    real = ["Raster and Grid (all mutating and observing operations)", "GDAL on real files"]
    stubs = ["GDAL Open / ReadAsArray (pass through unless a fault is due)"]
    assumptions = ["scipy.ndimage.zoom defines the values of a resized raster", "mutating operations need not be atomic under interrupts"]
    expect_probes = ("file", "unread-mutation", "copy", "slice", "grid-object", "failed", "gdal-fault", "callable-fault", "warm-interpolant", "integer", "flipped",
                     "shift", "crop", "zcrop", "resize", "resample", "array", "xlim", "ylim", "circle", "crevasses", "trim")

    # ---- plans ----

    def gen_raster(self, r):
        shape = [r.randint(2, 8), r.randint(2, 8)]
        if r.random() < 0.1:
            shape[r.randrange(2)] = 1
        return {"shape": shape, "dtype": r.choice(["f8", "f8", "f4", "i4"]), "holes": r.choice([0, 0, 0.1, 0.3]), "flip": [r.random() < 0.3, r.random() < 0.7],
                "cell": r.choice([1, 0.5, 2]), "origin": [r.randint(-20, 20), r.randint(-20, 20)], "src": r.choice(["memory", "memory", "memory", "file"]),
                "limits": r.choice(["float", "int", "vector", "matrix"])}

    def gen_op(self, r):
        k = r.random()
        o = {"i": r.randrange(4), "seed": r.randrange(10**6)}
        if k < 0.42:
            kind = r.choice(MUTATE)
            o.update(op="mutate", what=kind)
            if kind == "shift":
                o["by"] = [r.choice([None, None, 1, -2, 0.5, 0.3]) for _ in range(2)] + [r.choice([None, None, 3, -0.25, 1.7])]
            if kind == "resize":
                o.update(scale=r.choice([0.5, 2, 1.5, 0.75, 1]), order=r.choice([0, 1]))
        elif k < 0.84:
            o.update(op="observe", what=r.choice(OBSERVE))
        elif k < 0.90:
            o.update(op="copy", how=r.choice(["copy", "copy", "slice", "row"]))
        elif k < 0.97:
            o.update(op="fail", what=r.choice(["crop", "limits", "array-text", "resample-outside", "mask", "mask", "circle-nan", "box"]))
        else:
            o.update(op="fault", on=r.choice([["open"], ["read"]]), what=r.choice(MUTATE), by=[1, -2, 3], scale=0.5, order=1)
        return o

    def gen(self, r, tier):
        return {"rasters": [self.gen_raster(r) for _ in range(r.choice([1, 1, 2]))], "ops": [self.gen_op(r) for _ in range(r.randint(4, 30))],
                "grid": r.random() < 0.3, "gridops": [self.gen_gridop(r) for _ in range(r.randint(2, 12))], "seed": r.randrange(10**6)}

    def gen_gridop(self, r):
        return {"what": r.choice(["shift", "resize", "size", "xlim", "ylim", "copy", "x", "y", "X", "Y", "bad"]), "by": [r.choice([None, 1, -2, 0.5]) for _ in range(2)],
                "scale": r.choice([0.5, 2, 1.5]), "size": [r.randint(1, 6), r.randint(1, 6)], "lim": [r.randint(-5, 5), r.randint(6, 20)]}

    # ---- set up ----

    def build(self, ctx, plan, k):
        from glimpse.raster import Raster

        p = plan["rasters"][k]
        g = worlds.rng(plan["seed"], k)
        ny, nx = p["shape"]
        a = (g.uniform(1, 100, (ny, nx)) + 10 * np.mgrid[0:ny, 0:nx].sum(axis=0)).round(2)
        a = a.astype(p["dtype"]) if p["dtype"] != "i4" else a.round().astype("i4")
        if p["dtype"] != "i4":
            a[g.uniform(size=a.shape) < p["holes"]] = np.nan
        else:
            ctx.probe("integer")
        x0, y0 = p["origin"]
        lims = [np.array([x0, x0 + nx * p["cell"]], float), np.array([y0, y0 + ny * p["cell"]], float)]
        for dim in (0, 1):
            if p["flip"][dim]:
                ctx.probe("flipped")
                lims[dim] = lims[dim][::-1].copy()
        model = Model(a.copy(), *lims)
        if p["src"] == "file":
            ctx.probe("file")
            path = os.path.join(ctx.scratch, f"r{k}.tif")
            worlds.write_tif(path, a, *lims)
            ras = Raster.open(path)
        else:
            args = [x.copy() for x in lims]
            if p["limits"] == "int" and all((x == x.round()).all() for x in lims):
                args = [x.astype(int) for x in lims]
            elif p["limits"] in ("vector", "matrix") and min(ny, nx) > 2:
                c = [lim[0] + (np.arange(n) + 0.5) * (lim[1] - lim[0]) / n for lim, n in zip(lims, (nx, ny))]
                args = c if p["limits"] == "vector" else list(np.meshgrid(*c))
            self.given.append(([a] + args, [a.copy()] + [x.copy() for x in args], k))
            ras = Raster(a, x=args[0], y=args[1], crs=32600 + k)
        self.objs.append(ras)
        self.models.append(model)

    def run(self, plan, ctx):
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        self.objs, self.models, self.given = [], [], []
        self.ctx = ctx
        for k in range(len(plan["rasters"])):
            self.build(ctx, plan, k)
        self.seam = GdalSeam(ctx)
        for number, op in enumerate(plan["ops"]):
            i = op["i"] % len(self.objs)
            what = f"operation {number} ({op['op']} {op.get('what', '')}) on raster {i}"
            ctx.log("op", number, op["op"], i)
            self.last = op
            getattr(self, "do_" + op["op"])(ctx, op, i, what)
        for i in range(len(self.objs)):
            self.everything(i, f"at the end, raster {i}")
        if plan["grid"]:
            self.grids(ctx, plan)

    # ---- comparison ----

    def same(self, got, want, what, kind="stale", tol=1e-9):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(kind, f"{what}: shape {got.shape} instead of {want.shape}")
        if not np.allclose(got.astype(float), want.astype(float), rtol=tol, atol=tol, equal_nan=True):
            raise Violation(kind, f"{what}: {got!r} instead of {want!r}")

    def state(self, i, what):
        """Values and limits are the model's."""
        ras, m = self.objs[i], self.models[i]
        self.same(ras.array, m.array, f"{what}: values", "wrong-values", tol=1e-5 if m.single else 1e-9)
        self.same(ras.xlim, m.xlim, f"{what}: xlim", "wrong-limits")
        self.same(ras.ylim, m.ylim, f"{what}: ylim", "wrong-limits")

    def everything(self, i, what):
        self.state(i, what)
        for kind in dict.fromkeys(OBSERVE):
            self.observe(i, {"what": kind, "seed": i}, what)

    def points(self, m, g, n=6):
        ny, nx = m.array.shape
        return [m.xlim[0] + g.uniform(0, 1, n) * (m.xlim[1] - m.xlim[0]), m.ylim[0] + g.uniform(0, 1, n) * (m.ylim[1] - m.ylim[0])]

    def observe(self, i, op, what):
        from glimpse.raster import Grid

        ras, m, kind = self.objs[i], self.models[i], op["what"]
        ny, nx = m.array.shape
        g = worlds.rng("observe", op["seed"])
        what = f"{what}: {kind}"
        d = np.array([(m.xlim[1] - m.xlim[0]) / nx, (m.ylim[1] - m.ylim[0]) / ny])
        x = m.xlim[0] + (np.arange(nx) + 0.5) * d[0]
        y = m.ylim[0] + (np.arange(ny) + 0.5) * d[1]
        if kind == "x":
            self.same(ras.x, x, what)
        elif kind == "y":
            self.same(ras.y, y, what)
        elif kind == "X":
            self.same(ras.X, np.tile(x, (ny, 1)), what)
        elif kind == "Y":
            self.same(ras.Y, np.tile(y[:, None], (1, nx)), what)
        elif kind == "d":
            self.same(ras.d, d, what)
        elif kind == "bounds":
            box = [min(m.xlim), min(m.ylim), max(m.xlim), max(m.ylim)]
            self.same(ras.box2d, box, what)
            self.same(np.hstack((ras.min, ras.max)), box, what)
        elif kind == "size":
            self.same(np.array(ras.size), [nx, ny], what)
            self.same(np.array(ras.shape), [ny, nx], what)
        elif kind in ("points", "grid"):
            px, py = self.points(m, g)
            if kind == "points":
                got, (gx, gy) = ras.sample(np.column_stack((px, py))), (px, py)
            else:
                px, py = np.unique(px), np.unique(py)
                got, (gx, gy) = ras.sample((px, py), grid=True), np.meshgrid(px, py)
            value, clear, sure = bilinear(m.array, m.xlim, m.ylim, gx, gy)
            if np.shape(got) != gx.shape:
                raise Violation("stale", f"{what}: sample shape {np.shape(got)} instead of {gx.shape}")
            scale = max(1.0, float(np.abs(np.nan_to_num(m.array.astype(float))).max()))
            tol = (2e-4 if m.single else 1e-7) * scale
            bad = (clear & ~(np.abs(np.asarray(got, float) - value) <= tol)) | (sure & ~np.isnan(np.asarray(got, float)))
            if bad.any():
                raise Violation("stale", f"{what}: samples {np.asarray(got)[bad]} instead of {np.where(sure, np.nan, value)[bad]} at x={gx[bad]} y={gy[bad]}")
        elif kind == "eq":
            if not np.isnan(m.array.astype(float)).any() and not m.single:
                ref = m.raster()
                ref.array, ref.xlim, ref.ylim = np.array(ras.array), np.array(ras.xlim), np.array(ras.ylim)
                if not (ras == ref):
                    raise Violation("stale", f"{what}: raster differs from one rebuilt from its values and limits")
                ref.array = ref.array + 1
                if ras == ref:
                    raise Violation("stale", f"{what}: raster equals one with other values")
        elif kind == "zlim":
            if not np.isnan(m.array.astype(float)).all():
                self.same(ras.zlim, [np.nanmin(m.array), np.nanmax(m.array)], what, tol=1e-5)
        elif kind == "index":
            rc = np.column_stack((g.randint(0, ny, 4), g.randint(0, nx, 4)))
            self.same(ras.rowcol_to_xy(rc), np.column_stack((x[rc[:, 1]], y[rc[:, 0]])), what)
            self.same(ras.xy_to_rowcol(np.column_stack((x[rc[:, 1]], y[rc[:, 0]])), snap=True), rc, what)
        elif kind in ("convert", "snap", "inbounds", "tiles", "extent"):
            getattr(self, "look_" + kind)(ras.grid if g.randint(2) else ras, m, g, d, what)
        elif kind == "subgrid":
            grid = ras.grid
            if not isinstance(grid, Grid):
                raise Violation("stale", f"{what}: not a grid")
            self.same(grid.x, x, what)
            self.same(grid.y, y, what)

    def look_convert(self, ras, m, g, d, what):
        n = np.array(m.array.shape[::-1])
        origin = np.array([m.xlim[0], m.ylim[0]])
        u = g.uniform(-0.5, 1.5, (5, 2)) * n
        xy = origin + u * d
        scale = np.abs(d).max() + np.abs(xy).max()
        given = xy.copy(), u.copy()
        loose = 1e-9 * (1 + scale / np.abs(d).min())
        self.same(ras.xyz_to_uv(np.column_stack((xy, xy[:, 0])) if g.randint(2) else xy), u, f"{what}: xyz_to_uv", tol=loose)
        back = ras.uv_to_xyz(u)
        self.same(back[:, :2], xy, f"{what}: uv_to_xyz", tol=1e-9)
        if back.shape != (5, 3) or not np.isnan(back[:, 2]).all():
            raise Violation("stale", f"{what}: uv_to_xyz {back}")
        self.same(ras.xy_to_rowcol(xy), u[:, ::-1] - 0.5, f"{what}: xy_to_rowcol", tol=loose)
        self.same(ras.rowcol_to_xy(u[:, ::-1] - 0.5), xy, f"{what}: rowcol_to_xy", tol=1e-9)
        rc = np.column_stack((g.randint(0, n[1], 5), g.randint(0, n[0], 5)))
        idx = rc[:, 0] * n[0] + rc[:, 1]
        self.same(ras.rowcol_to_idx(rc), idx, f"{what}: rowcol_to_idx")
        self.same(ras.idx_to_rowcol(idx), rc, f"{what}: idx_to_rowcol")
        if not (np.array_equal(given[0], xy) and np.array_equal(given[1], u)):
            raise Violation("argument-changed", f"{what}: {given} became {xy}, {u}")

    def look_snap(self, ras, m, g, d, what):
        n = np.array(m.array.shape[::-1])
        origin = np.array([m.xlim[0], m.ylim[0]])
        # away from where the nearest position changes
        u = np.column_stack([g.randint(0, k, 5) for k in n]) + g.choice([0.0, 0.5], (5, 2)) + g.uniform(0.1, 0.4, (5, 2))
        xy = origin + u * d
        # the far corner, exactly
        u, xy = np.vstack((u, n)), np.vstack((xy, (ras.xlim[1], ras.ylim[1])))
        kept = xy.copy()
        for centers, edges, inbounds in ((True, False, True), (True, False, False), (False, True, True), (True, True, True)):
            if edges:
                want = np.round(2 * u) / 2 if centers else np.round(u)
            else:
                want = np.floor(u) + 0.5
                if inbounds:
                    want = np.minimum(want, n - 0.5)
                else:
                    # by rounding, the far edges may be those of either cell
                    want[-1] = ((ras.snap_xy(xy, centers=True, inbounds=False)[-1] - origin) / d).round(3)
            self.same(ras.snap_xy(xy, centers=centers, edges=edges, inbounds=inbounds), origin + want * d, f"{what}: snap_xy({xy.tolist()}, {centers}, {edges}, {inbounds})", tol=1e-9)
        self.same(ras.xy_to_rowcol(xy, snap=True), np.minimum(np.floor(u), n - 1)[:, ::-1], f"{what}: xy_to_rowcol of {xy.tolist()}")
        if not np.array_equal(kept, xy):
            raise Violation("argument-changed", f"{what}: {kept} became {xy}")

    def look_inbounds(self, ras, m, g, d, what):
        n = np.array(m.array.shape[::-1])
        origin = np.array([m.xlim[0], m.ylim[0]])
        u = g.uniform(-1, 2, (8, 2)) * n
        u[np.abs(u) < 1e-3] = 0.5
        u = np.where(np.abs(u - n) < 1e-3, n - 0.5, u)
        xy = origin + u * d
        # on the bounds is inside
        lim = np.column_stack((ras.xlim, ras.ylim))
        u, xy = np.vstack((u, [[0, 0], n])), np.vstack((xy, lim))
        inside = (u >= 0) & (u <= n)
        self.same(ras.inbounds_xy(xy).ravel(), inside.all(axis=1), f"{what}: inbounds_xy({xy.tolist()})")
        got = ras.inbounds_xy((xy[:, 0], xy[-4:, 1]), grid=True)
        self.same(got[0], inside[:, 0], f"{what}: inbounds_xy grid columns")
        self.same(got[1], inside[-4:, 1], f"{what}: inbounds_xy grid rows")
        self.same(ras.inbounds(u).ravel(), inside.all(axis=1), f"{what}: inbounds({u.tolist()})")

    def look_tiles(self, ras, m, g, d, what):
        ny, nx = m.array.shape
        size = np.array([g.randint(1, 2 * nx + 1), g.randint(1, 2 * ny + 1)])
        overlap = (int(g.randint(0, 4)), int(g.randint(0, 4)))
        what = f"{what}: tile_indices of {nx} by {ny} ({size.tolist()}, {overlap})"
        tiles = ras.tile_indices(size=size)
        count = np.zeros((ny, nx), dtype=int)
        for ij in tiles:
            count[ij] += 1
        self.same(count, np.ones((ny, nx)), what)
        for k in (0, 1):
            spans = sorted({(ij[k].start, ij[k].stop) for ij in tiles})
            lengths = [b - a for a, b in spans]
            if len(set(lengths[:-1])) > 1 or lengths[-1] > lengths[0] or min(lengths) < 1:
                raise Violation("stale", f"{what}: tiles of {lengths}")
        if list(tiles) != sorted(tiles, key=lambda ij: (ij[0].start, ij[1].start)):
            raise Violation("stale", f"{what}: order {tiles}")
        over = ras.tile_indices(size=size, overlap=overlap)
        want = [tuple(slice(max(0, s.start - o) if s.start else 0, s.stop) for s, o in zip(ij, overlap[::-1])) for ij in tiles]
        if list(over) != want:
            raise Violation("stale", f"{what}: {over} instead of {want}")

    def look_extent(self, ras, m, g, d, what):
        n = np.array(m.array.shape[::-1])
        cells, lims = [], []
        for k, lim in enumerate((m.xlim, m.ylim)):
            c = sorted(int(q) for q in g.randint(0, n[k], 2))
            cells.append(c)
            lims.append(lim[0] + d[k] * np.array([c[0] + g.uniform(0.1, 0.9), c[1] + g.uniform(0.1, 0.9)]))
            if c[0] == c[1]:
                lims[k] = lim[0] + d[k] * (c[0] + np.array([0.2, 0.8]))
            if g.randint(5) == 0:
                # beyond the bounds
                cells[k] = [0, n[k] - 1]
                lims[k] = lim[0] + d[k] * np.array([-1.5, n[k] + 2.0])
            if g.randint(3) == 0:
                lims[k] = lims[k][::-1]
        which = g.randint(4)
        xlim, ylim = lims
        if which == 0:
            xlim, cells[0] = None, [0, n[0] - 1]
        if which == 1:
            ylim, cells[1] = None, [0, n[1] - 1]
        got = ras.crop_extent(xlim=xlim, ylim=ylim)
        want = (m.xlim[0] + d[0] * np.array([cells[0][0], cells[0][1] + 1]), m.ylim[0] + d[1] * np.array([cells[1][0], cells[1][1] + 1]), cells[1], cells[0])
        for a, b in zip(got, want):
            self.same(a, np.array(b), f"{what}: crop_extent({xlim}, {ylim})", tol=1e-9)

    # ---- operations ----

    def do_observe(self, ctx, op, i, what):
        if op["what"] in ("points", "X"):
            ctx.probe("warm-interpolant")
        self.observe(i, op, what)
        ctx.state(("observe", op["what"], 1 in self.models[i].array.shape))

    def do_mutate(self, ctx, op, i, what):
        ras, m = self.objs[i], self.models[i]
        kind = op["what"]
        ctx.probe(kind)
        if ras._array is None if hasattr(ras, "_array") else False:
            ctx.probe("unread-mutation")
        new = self.mutate(ras, m, op)
        if new is not None:
            self.models[i] = new
            self.state(i, what)
        ctx.state(("mutate", kind, new is None, 1 in m.array.shape, m.array.dtype.str, np.isnan(m.array.astype(float)).any()))

    def mutate(self, ras, m, op):
        """Apply the operation to raster and model; the new model, or None if the operation does not apply to this raster."""
        import scipy.ndimage

        from glimpse.raster import Grid

        kind, g = op["what"], worlds.rng("mutate", op["seed"])
        ny, nx = m.array.shape
        new = m.copy()
        d = np.array([(m.xlim[1] - m.xlim[0]) / nx, (m.ylim[1] - m.ylim[0]) / ny])
        if kind == "shift":
            dx, dy, dz = op["by"]
            ras.shift(dx=dx, dy=dy, dz=dz)
            new.xlim, new.ylim = m.xlim + (dx or 0), m.ylim + (dy or 0)
            if dz is not None:
                new.array = m.array + np.asarray(dz, dtype=m.array.dtype if m.array.dtype.kind == "f" else None)
        elif kind == "crop":
            c = sorted(g.randint(0, nx, 2))
            r = sorted(g.randint(0, ny, 2))
            which = g.randint(3)
            xlim = m.xlim[0] + d[0] * np.array([c[0] + 0.3, c[1] + 0.7])
            ylim = m.ylim[0] + d[1] * np.array([r[0] + 0.3, r[1] + 0.7])
            if which == 0:
                c = [0, nx - 1]
                xlim = None
            if which == 1:
                r = [0, ny - 1]
                ylim = None
            ras.crop(xlim=None if xlim is None else tuple(xlim if g.randint(2) else xlim[::-1]), ylim=None if ylim is None else tuple(ylim))
            new.array = m.array[r[0] : r[1] + 1, c[0] : c[1] + 1].copy()
            new.xlim = m.xlim[0] + d[0] * np.array([c[0], c[1] + 1.0])
            new.ylim = m.ylim[0] + d[1] * np.array([r[0], r[1] + 1.0])
        elif kind == "zcrop":
            z = m.array.astype(float)
            if np.isnan(z).all():
                return None
            lo, hi = np.nanpercentile(z, sorted(g.uniform(0, 100, 2)))
            if lo == hi or np.abs(z - lo).min() < 1e-3 or np.abs(z - hi).min() < 1e-3:
                return None
            ras.crop(zlim=(lo, hi))
            out = (z < lo) | (z > hi)
            if out.any():
                new.array = np.where(out, np.nan, m.array).astype(m.array.dtype if m.array.dtype.kind == "f" else float)
        elif kind == "resize":
            if round(min(ny, nx) * op["scale"]) < 1 or max(ny, nx) * op["scale"] > 40:
                return None
            ras.resize(op["scale"], order=op["order"])
            new.array = scipy.ndimage.zoom(m.array, zoom=float(op["scale"]), order=op["order"])
        elif kind == "resample":
            if np.isnan(m.array.astype(float)).any() or 1 in m.array.shape:
                return None
            n = g.randint(2, 9, 2)
            (x0, x1), (y0, y1) = (np.sort(g.uniform(0, 1, 2)) + (0, 0.01) for _ in range(2))
            grid = Grid(n, x=m.xlim[0] + (m.xlim[1] - m.xlim[0]) * np.array([x0, min(x1, 1)]), y=m.ylim[0] + (m.ylim[1] - m.ylim[0]) * np.array([y0, min(y1, 1)]))
            if g.randint(2):
                grid.x, grid.Y
            ras.resample(grid)
            new.xlim, new.ylim = grid.xlim.copy(), grid.ylim.copy()
            x = new.xlim[0] + (np.arange(n[0]) + 0.5) * (new.xlim[1] - new.xlim[0]) / n[0]
            y = new.ylim[0] + (np.arange(n[1]) + 0.5) * (new.ylim[1] - new.ylim[0]) / n[1]
            new.array = bilinear(m.array, m.xlim, m.ylim, *np.meshgrid(x, y))[0]
        elif kind == "array":
            shape = (ny, nx) if g.randint(2) else tuple(g.randint(1, 8, 2))
            new.array = g.uniform(0, 50, shape).round(2)
            ras.array = new.array.copy()
        elif kind in ("xlim", "ylim"):
            lim = np.array([float(g.randint(-9, 0)), float(g.randint(1, 9))])
            lim = lim[::-1].copy() if g.randint(2) else lim
            setattr(ras, kind, lim.copy())
            setattr(new, kind, lim)
        elif kind in ("circle", "crevasses"):
            if min(ny, nx) < 2:
                return None
            center = [m.xlim.mean() + 0.1, m.ylim.mean() + 0.1]
            if kind == "circle":
                apply = lambda r_: r_.fill_circle(center, abs(d[0]) * 1.2, 7)  # noqa: E731
            else:
                apply = lambda r_: r_.fill_crevasses(maximum={"size": 3}, gaussian={"sigma": 1})  # noqa: E731
            ref = m.raster()
            apply(ref)
            apply(ras)
            new.array = np.array(ref.array)
        elif kind == "trim":
            z = m.array.astype(float)
            if np.isnan(z).all():
                return None
            rows, cols = np.where(~np.isnan(z).all(axis=1))[0], np.where(~np.isnan(z).all(axis=0))[0]
            ras.crop_to_data()
            new.array = m.array[rows[0] : rows[-1] + 1, cols[0] : cols[-1] + 1].copy()
            new.xlim = m.xlim[0] + d[0] * np.array([cols[0], cols[-1] + 1.0])
            new.ylim = m.ylim[0] + d[1] * np.array([rows[0], rows[-1] + 1.0])
        return new

    def do_copy(self, ctx, op, i, what):
        if len(self.objs) >= 5:
            return
        ras, m = self.objs[i], self.models[i]
        ny, nx = m.array.shape
        if op["how"] == "copy":
            ctx.probe("copy")
            new = ras.copy()
            if new.crs != ras.crs or new.datetime != ras.datetime:
                raise Violation("wrong-copy", f"{what}: copy has coordinate system {new.crs!r} instead of {ras.crs!r}")
            self.objs.append(new)
            self.models.append(m.copy())
        else:
            # A slice may share values with its source, so only one is kept in use: the source's values must not follow later shifts
            ctx.probe("slice")
            g = worlds.rng("slice", op["seed"])
            r0, c0 = g.randint(0, ny), g.randint(0, nx)
            r1, c1 = g.randint(r0, ny) + 1, g.randint(c0, nx) + 1
            if op["how"] == "row":
                r1 = r0 + 1
            d = np.array([(m.xlim[1] - m.xlim[0]) / nx, (m.ylim[1] - m.ylim[0]) / ny])
            sub = ras[r0 if op["how"] == "row" else slice(r0, r1), slice(c0, c1)]
            new = Model(m.array[r0:r1, c0:c1].copy(), m.xlim[0] + d[0] * np.array([c0, float(c1)]), m.ylim[0] + d[1] * np.array([r0, float(r1)]))
            self.same(sub.array, new.array, f"{what}: values of a slice", "wrong-values", tol=1e-5 if m.single else 1e-9)
            self.same(np.hstack((sub.xlim, sub.ylim)), np.hstack((new.xlim, new.ylim)), f"{what}: limits of a slice", "wrong-limits")
            sub.shift(dx=1.5, dy=-1)
            self.same(np.hstack((sub.xlim, sub.ylim)), np.hstack((new.xlim + 1.5, new.ylim - 1)), f"{what}: limits of a shifted slice", "wrong-limits")
        self.state(i, what)

    def do_fail(self, ctx, op, i, what):
        """An operation that cannot be done changes nothing."""
        from glimpse.raster import Grid

        ras, m, kind = self.objs[i], self.models[i], op["what"]
        ny, nx = m.array.shape

        def mask(a):
            ctx.fault("callable")
            ctx.probe("callable-fault")
            raise RuntimeError("mask failed")

        w = abs(m.xlim[1] - m.xlim[0])
        try:
            if kind == "crop":
                ras.crop(xlim=(max(m.xlim) + w, max(m.xlim) + 2 * w))
            elif kind == "limits":
                ras.xlim = (1, 2, 3)
            elif kind == "array-text":
                ras.resize("large")
            elif kind == "resample-outside":
                ras.resample(Grid((3, 3), x=np.array([max(m.xlim) + w, max(m.xlim) + 2 * w]), y=m.ylim))
            elif kind == "mask":
                ras.fill_crevasses(mask=mask)
            elif kind == "circle-nan":
                if m.array.dtype.kind == "f" or min(ny, nx) < 3:
                    return
                ras.fill_circle([m.xlim.mean() + 0.1, m.ylim.mean() + 0.1], 1.2 * w / nx)
            elif kind == "box":
                ras.read(box=[0, 0, nx + 5, ny], cache=True)
        except (HarnessError, Deadlock, StepLimit):
            raise
        except Exception as e:  # noqa: BLE001
            ctx.probe("failed")
            ctx.log("failed", type(e).__name__)
            self.everything(i, f"{what}: after {type(e).__name__}")
            return
        raise Violation("no-error", f"{what}: an operation that cannot be done raised nothing")

    def do_fault(self, ctx, op, i, what):
        ras, m = self.objs[i], self.models[i]
        self.seam.arm(op["on"])
        try:
            new = self.mutate(ras, m, op)
        except (HarnessError, Deadlock, StepLimit):
            raise
        except Exception as e:  # noqa: BLE001
            if not self.seam.disarm():
                raise
            ctx.probe("gdal-fault")
            ctx.log("fault", type(e).__name__)
            self.everything(i, f"{what}: after {type(e).__name__}")
            return
        self.seam.disarm()
        if new is not None:
            self.models[i] = new
        self.everything(i, what)

    # ---- grids ----

    def grids(self, ctx, plan):
        from glimpse.raster import Grid, Raster

        ctx.probe("grid-object")
        p = plan["rasters"][0]
        m = Model(np.zeros(p["shape"]), [0, p["shape"][1] * p["cell"]], [p["shape"][0] * p["cell"], 0])
        size = (p["shape"][1], p["shape"][0])
        path = os.path.join(ctx.scratch, "grid.tif")
        worlds.write_tif(path, m.array, m.xlim, m.ylim)
        for crop in (None, [0.3, 1.6]):
            for d in (None, p["cell"] * 2, p["cell"] / 2):
                kw = {"d": d, "xlim": crop and [m.xlim[0] + p["cell"] * c for c in crop]}
                if crop is not None and p["shape"][1] < 2:
                    continue
                got, want = Grid.read(path, **kw), Raster.open(path, **kw).grid
                self.same(np.array(got.size), np.array(want.size), f"size of the grid read with {kw}", "wrong-grid")
                self.same(np.hstack((got.xlim, got.ylim)), np.hstack((want.xlim, want.ylim)), f"limits of the grid read with {kw}", "wrong-grid")
        pool = [(Grid(np.array(size) if p["shape"][0] % 2 else size, x=m.xlim.copy(), y=m.ylim.copy()), [list(size), m.xlim.copy(), m.ylim.copy()])]

        def check(what):
            for grid, (n, xlim, ylim) in pool:
                d = np.array([(xlim[1] - xlim[0]) / n[0], (ylim[1] - ylim[0]) / n[1]])
                x, y = xlim[0] + (np.arange(n[0]) + 0.5) * d[0], ylim[0] + (np.arange(n[1]) + 0.5) * d[1]
                self.same(np.array(grid.size), n, f"{what}: grid size", "stale-grid")
                self.same(np.hstack((grid.xlim, grid.ylim)), np.hstack((xlim, ylim)), f"{what}: grid limits", "stale-grid")
                self.same(grid.d, d, f"{what}: grid cell size", "stale-grid")
                self.same(grid.x, x, f"{what}: grid x", "stale-grid")
                self.same(grid.y, y, f"{what}: grid y", "stale-grid")
                self.same(grid.X, np.tile(x, (n[1], 1)), f"{what}: grid X", "stale-grid")
                self.same(grid.Y, np.tile(y[:, None], (1, n[0])), f"{what}: grid Y", "stale-grid")

        for number, o in enumerate(plan["gridops"]):
            k = number % len(pool)
            grid, (n, xlim, ylim) = pool[k]
            kind = o["what"]
            what = f"grid operation {number} ({kind})"
            ctx.log("gridop", number, kind)
            if kind == "shift":
                grid.shift(dx=o["by"][0], dy=o["by"][1])
                pool[k] = (grid, [n, xlim + (o["by"][0] or 0), ylim + (o["by"][1] or 0)])
            elif kind == "resize":
                new = [int(np.floor(x * o["scale"] + 0.5)) for x in n]
                if min(new) < 1 or max(new) > 60:
                    continue
                grid.resize(o["scale"])
                pool[k] = (grid, [new, xlim, ylim])
            elif kind == "size":
                grid.size = o["size"]
                pool[k] = (grid, [o["size"], xlim, ylim])
            elif kind in ("xlim", "ylim"):
                lim = np.array(o["lim"], float)
                setattr(grid, kind, lim.copy())
                pool[k] = (grid, [n, lim, ylim] if kind == "xlim" else [n, xlim, lim])
            elif kind == "copy":
                if len(pool) < 3:
                    pool.append((grid.copy(), [list(n), xlim.copy(), ylim.copy()]))
            elif kind == "bad":
                try:
                    grid.size = [0, 2]
                except ValueError:
                    pass
                else:
                    raise Violation("no-error", f"{what}: grid size 0 was accepted")
            else:
                getattr(grid, kind)
                continue
            check(what)

    def shrink(self, plan):
        ops = plan["ops"]
        for size in (8, 4, 2, 1):
            for i in range(0, len(ops), size):
                yield {**plan, "ops": ops[:i] + ops[i + size :]}
        if plan["grid"]:
            yield {**plan, "grid": False}
            for i in range(len(plan["gridops"])):
                yield {**plan, "gridops": plan["gridops"][:i] + plan["gridops"][i + 1 :]}
        if len(plan["rasters"]) > 1:
            yield {**plan, "rasters": plan["rasters"][:1]}
            yield {**plan, "rasters": plan["rasters"][1:]}
        for k, p in enumerate(plan["rasters"]):
            for a, b in {"src": "memory", "dtype": "f8", "holes": 0, "flip": [False, False], "cell": 1, "origin": [0, 0], "limits": "float", "shape": [2, 2]}.items():
                if p[a] != b:
                    yield {**plan, "rasters": plan["rasters"][:k] + [{**p, a: b}] + plan["rasters"][k + 1 :]}


CHECK = C16()
