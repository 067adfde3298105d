"""C18: a raster or image write that returns has written everything."""
import datetime
import gc
import os
import resource
import signal
import traceback
import warnings

import numpy as np

from sim import worlds
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation, digest
from sim.interrupt import LineInterrupt
from sim.tracking import make_streams, use_pool

# format: (data types it holds exactly, numbers of bands)
FORMATS = {
    "tif": ("u1 i1 u2 i2 u4 i4 f4 f8 c8 c16", (1, 2, 3, 4, 7)),
    "img": ("u1 i1 u2 i2 u4 i4 f4 f8 c8", (1, 2, 3, 4)),
    "png": ("u1 u2", (1, 2, 3, 4)),
    "bmp": ("u1", (1, 3)),
    "gif": ("u1", (1,)),
    "bil": ("u1 u2 i2 u4 i4 f4", (1, 2, 3)),
    "jpg": ("u1", (1, 3)),
}
INTEGER = ("png", "gif", "jpg")  # formats that convert to their own integers
DRIVERS = {"tif": "GTiff", "img": "HFA", "png": "PNG", "bmp": "BMP", "gif": "GIF", "bil": "EHdr", "jpg": "JPEG"}
CRS = {"epsg": 32633, "geo": 4326, "proj4": "+proj=utm +zone=7 +datum=WGS84 +units=m +no_defs", "bad": 999999, "junk": "not a coordinate system"}


class Full:
    """No file can grow beyond ``limit`` bytes (errno EFBIG from the kernel, also for GDAL's own writes)."""

    def __init__(self, ctx, limit):
        self.ctx, self.limit = ctx, limit

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


class C18(Check):
    id = "C18"
    quick = (6000, 80)
    thorough = (300000, 840)
    rule = (
        "A run makes 2-9 writes of arrays, rasters and images (7 formats, all data types, layouts, bands and metadata) over each other's files with the "
        "disk filling up at a chosen byte, missing directories, directories in the way, interrupts at chosen lines and invalid arguments, some interleaved "
        "line by line across threads, reading every file back with GDAL; runs are distinct by event log."
    )
    measure = "distinct (source, format, data type, bands, layout, metadata, fault, outcome)"
    real = ["helpers.write_raster", "Raster.write", "Image.write", "GDAL writing and reading real files", "kernel file size limit"]
    stubs = ["a full disk is a file size limit (every file of the process, EFBIG instead of ENOSPC)", "sharedmem pool (simulated)"]
    assumptions = ["GDAL reads back a healthy file correctly", "values that a format has to convert (JPEG, floats in a PNG) are judged by shape, range and rounding only"]
    expect_probes = ("array", "raster", "image", "disk-full", "disk-full-noticed", "disk-just-enough", "no-directory", "directory-in-the-way", "interrupted", "threads", "overwrite",
                     "after-fault", "exceptions", "unfit", "layout", "nodata", "transform", "crs", "self", "unsupported", "bad-crs") + tuple(FORMATS)

    # ---- plans ----

    def gen_write(self, r):
        ext = r.choice(["tif", "tif", "tif", "png", "png", "img", "bmp", "gif", "bil", "jpg"])
        types = FORMATS[ext][0].split()
        w = {"src": r.choice(["array", "array", "array", "raster", "image"]), "ext": ext, "slot": r.randrange(2), "upper": r.random() < 0.1,
             "driver": r.random() < 0.2, "dtype": r.choice(types) if r.random() < 0.85 else r.choice(["i1", "i2", "f4", "f8", "i4", "b1", "f2", "u8"]),
             "shape": [r.randint(1, 40), r.randint(1, 40)], "bands": r.choice(FORMATS[ext][1]) if r.random() < 0.95 else 5, "flat": r.random() < 0.5,
             "layout": r.choice(["C", "C", "C", "F", "reversed", "strided", "readonly", "1d"]), "special": r.choice([None, None, None, "extremes", "nan", "zero"]),
             "nan": r.choice([None, None, 0, 7, 200, -9999, 1e30, "nan"]), "transform": r.choice([None, [10.0, 2.0, 0, 100.0, 0, -2.0], [0.1, 0.3, 0, -7.7, 0, 0.1], [5, 1, 0, 6, 0, -1], [1e6 + 0.1, 1 / 3, 0.25, 5, -0.5, -1 / 7]]),
             "crs": r.choice([None, None, "epsg", "geo", "proj4", "epsg", "bad", "junk"]) if r.random() < 0.5 else None, "seed": r.randrange(10**6),
             "lim": r.choice(["float", "int", "flip"]), "file": r.choice(["memory", "memory", "file", "self"]), "scale": r.choice([1, 1, 0.5]), "cached": r.random() < 0.5, "given": r.random() < 0.3}
        k = r.random()
        if k < 0.45:
            w["fault"] = None
        elif k < 0.83:
            w["fault"] = {"kind": "full", "at": r.choice([0.0, 1.0, r.random(), r.random(), r.random(), 1 - r.random() * 0.05]), "less": r.choice([0, 0, 1, 2, 40])}
        elif k < 0.87:
            w["fault"] = {"kind": "no-directory"}
        elif k < 0.9:
            w["fault"] = {"kind": "directory"}
        else:
            w["fault"] = {"kind": "interrupt", "n": r.choice([r.randint(0, 25), r.randint(0, 250)])}
        return w

    def gen(self, r, tier):
        ops = []
        for _ in range(r.randint(2, 9)):
            if r.random() < 0.08:
                ops.append({"op": "threads", "writes": [dict(self.gen_write(r), slot=10 + i, fault=None) for i in range(r.randint(2, 3))]})
            else:
                ops.append({"op": "write", "w": self.gen_write(r)})
        return {"ops": ops, "exceptions": r.random() < 0.3, "many": r.random() < 0.3}

    # ---- execution ----

    def array(self, w):
        """The array to write, and its plain C-ordered value."""
        g = worlds.rng(w["seed"], "values")
        ny, nx = w["shape"]
        dt = np.dtype(w["dtype"])
        shape = (ny, nx) if w["bands"] == 1 and w["flat"] else (ny, nx, w["bands"])
        if w["layout"] == "1d" and w["src"] == "array":
            shape = (nx,)
        if dt.kind in "ui":
            info = np.iinfo(dt)
            lo, hi = max(info.min, -100000), min(info.max, 100000)
            if w["special"] == "extremes":
                lo, hi = info.min, info.max
            a = g.uniform(lo, hi, shape).round()
            a = np.clip(a, float(info.min), float(info.max) - (0 if info.max < 2**53 else 2**11)).astype(dt)
            if w["ext"] in INTEGER and w["dtype"] not in FORMATS[w["ext"]][0].split() and w["special"] != "extremes":
                a = g.randint(0, 100, shape).astype(dt)
        elif dt.kind == "b":
            a = g.uniform(size=shape) < 0.5
        else:
            a = g.uniform(0, 255, shape).astype(dt)
            if w["special"] == "extremes":
                a = g.normal(0, 1e6, shape).astype(dt)
            if dt.kind == "c":
                a = (a + 1j * g.uniform(-5, 5, shape)).astype(dt)
            elif w["special"] == "nan" and a.size:
                a[g.uniform(size=shape) < 0.3] = np.nan
        if w["special"] == "zero":
            a = np.zeros(shape, dt)
        if w["ext"] == "jpg":
            a[...] = a.flat[0]
        plain = a.copy()
        if w["layout"] == "F":
            a = np.asfortranarray(a)
        elif w["layout"] == "reversed":
            a = np.ascontiguousarray(a[::-1])[::-1]
        elif w["layout"] == "strided":
            big = np.zeros((shape[0] * 2, *shape[1:]), dt)
            big[::2] = a
            a = big[::2]
        elif w["layout"] == "readonly":
            a.setflags(write=False)
        return a, plain

    def path(self, w, slot=None):
        ext = w["ext"].upper() if w["upper"] else w["ext"]
        if w["driver"] and w["src"] != "raster":
            ext = "data" + w["ext"]
        # files of different names share no side files
        stem = f"{w['ext']}{w['slot'] if slot is None else slot}{'u' * w['upper']}{'d' * ext.startswith('data')}"
        return os.path.join(self.folder, f"{stem}.{ext}")

    def prepare(self, w):
        """The write as a function of the path, what the file must hold, and a check that inputs are unchanged."""
        from glimpse.camera import Camera
        from glimpse.image import Image
        from glimpse.raster import Raster
        from glimpse import helpers

        driver = DRIVERS[w["ext"]] if w["driver"] else None
        nan = None if w["nan"] is None else float("nan") if w["nan"] == "nan" else w["nan"]
        want = {"nan": None, "transform": None, "crs": None}
        if w["src"] == "image":
            dt, nb = "u1", 3 if w["bands"] >= 3 else 1
            g = worlds.rng(w["seed"], "image")
            a = g.randint(0, 255, (w["shape"][0] * 2, w["shape"][1] * 2) + ((nb,) if nb > 1 else ())).astype(np.uint8)
            if w["ext"] == "jpg":
                a[...] = a.flat[0]
            source = os.path.join(self.scratch, f"source{w['seed']}.png")
            worlds.write_image(source, a)
            cam = {"imgsz": (a.shape[1], a.shape[0]), "f": (50, 50)}
            img = Image(source, cam=Camera(**cam), datetime=worlds.T0)
            if w["scale"] != 1:
                img.cam.resize(w["scale"])
            if w["cached"]:
                img.read()
            fresh = Image(source, cam=Camera(**cam), datetime=worlds.T0)
            fresh.cam.resize(w["scale"])
            plain = np.array(fresh.read())
            before = digest(np.array(img.cam._vector))
            given = None
            if w["given"]:
                given, plain = self.array({**w, "src": "array", "dtype": "u1", "layout": "C"})

            def write(path):
                img.write(path, given, driver=driver)

            def unchanged():
                with open(source, "rb") as f:
                    f.read()
                if digest(np.array(img.cam._vector)) != before or img.path != source:
                    raise Violation("input-changed", "the image changed while it was written")
                if not np.array_equal(img.read(), fresh.read()):
                    raise Violation("input-changed", "the pixels of the image changed while it was written")
                if given is not None and not np.array_equal(given, plain):
                    raise Violation("input-changed", "the array changed while it was written")

            want["array"] = plain
            return write, want, unchanged, None
        a, plain = self.array(w)
        kw = {}
        if nan is not None:
            kw["nan"] = want["nan"] = nan
        if w["crs"] is not None:
            kw["crs"] = want["crs"] = CRS[w["crs"]]
        if driver:
            kw["driver"] = driver
        if w["src"] == "array":
            if w["transform"] is not None:
                kw["transform"] = want["transform"] = list(w["transform"])
            kept = dict(kw)

            def write(path):
                helpers.write_raster(a, path, **kw)

            def unchanged():
                if not np.array_equal(a, plain, equal_nan=a.dtype.kind in "fc") or a.dtype != plain.dtype or a.shape != plain.shape:
                    raise Violation("input-changed", "the array changed while it was written")
                if kw != kept and nan == nan:
                    raise Violation("input-changed", "the arguments changed while the array was written")

            want["array"] = plain
            return write, want, unchanged, None
        # rasters have one band
        if a.ndim == 1:
            a, plain = a.reshape(1, -1), plain.reshape(1, -1)
        if a.ndim == 3:
            a, plain = a[:, :, 0], plain[:, :, 0]
        ny, nx = a.shape
        x0, y0, d = (10, -20, 2) if w["lim"] == "int" else (10.3, -20.7, 0.7)
        xlim, ylim = np.array([x0, x0 + nx * d]), np.array([y0 + ny * d, y0])
        if w["lim"] == "flip":
            xlim, ylim = xlim[::-1], ylim[::-1]
        crs = kw.pop("crs", None)
        t0 = datetime.datetime(2020, 1, 2)
        where = None
        dtype = a.dtype
        if w["file"] != "memory" and dtype.kind in "uif" and dtype.str[1:] not in ("i1", "u8", "f2"):
            where = os.path.join(self.scratch, f"source{w['seed']}.tif")
            if w["file"] == "self" and w["ext"] == "tif":
                where = self.path(w)
            worlds.write_tif(where, plain, xlim, ylim)
            raster = Raster.open(where, datetime=t0)
            raster.crs = crs
            self.ctx.probe("file")
        else:
            raster = Raster(a, x=xlim.copy(), y=ylim.copy(), crs=crs, datetime=t0)
        kept = dict(kw)

        def write(path):
            raster.write(path, **kw)

        def unchanged():
            if not np.allclose(raster.xlim, xlim, rtol=1e-12) or not np.allclose(raster.ylim, ylim, rtol=1e-12) or raster.crs != crs or raster.datetime != t0 or raster.path != where:
                raise Violation("input-changed", "the raster changed while it was written")
            if where is None or where != self.path(w):
                if not np.array_equal(raster.array, plain, equal_nan=plain.dtype.kind in "fc"):
                    raise Violation("input-changed", "the values of the raster changed while it was written")
            if kw != kept and nan == nan:
                raise Violation("input-changed", "the arguments changed while the raster was written")

        want.update(array=plain, transform=[xlim[0], (xlim[1] - xlim[0]) / nx, 0, ylim[0], 0, (ylim[1] - ylim[0]) / ny])
        return write, want, unchanged, where if where and where == self.path(w) else None

    def legal(self, w, want):
        """Whether the format can hold the array: "yes", "no" or (values converted) "maybe"."""
        a = np.atleast_3d(want["array"])
        name = a.dtype.str[1:]
        if w["src"] != "image" and w["crs"] in ("bad", "junk"):
            return "no"
        if name in ("b1", "f2", "u8"):
            return "maybe" if name == "u8" else "no"
        if name in FORMATS[w["ext"]][0].split() and a.shape[2] in FORMATS[w["ext"]][1]:
            return "yes" if w["ext"] != "jpg" else "lossy"
        return "maybe"

    def verify(self, w, path, want, what, full=False, was_broken=False):
        """The file at the path holds what was to be written."""
        import osgeo.gdal as gdal
        import osgeo.osr as osr
        from glimpse.raster import Raster

        gdal.DontUseExceptions()
        try:
            ds = gdal.Open(path)
            if ds is None:
                raise Violation("not-written", f"{what}: returned, but the file cannot be opened")
            a = np.atleast_3d(want["array"])
            got = ds.ReadAsArray()
            if got is None:
                raise Violation("not-written", f"{what}: returned, but the file cannot be read")
            got = got[:, :, None] if got.ndim == 2 else got.transpose(1, 2, 0)
            if got.shape != a.shape and not (w["ext"] == "jpg" and a.shape[2] == 4):
                raise Violation("not-written", f"{what}: returned, but the file has shape {got.shape} instead of {a.shape}")
            legal = self.legal(w, want)
            # the EHdr driver ignores errors of the buffered writes it makes for several bands
            kind = "bil-bands-disk-full" if full and w["ext"] == "bil" and a.shape[2] > 1 else "not-written"
            if legal == "yes":
                if not np.array_equal(got, a, equal_nan=a.dtype.kind in "fc"):
                    raise Violation(kind, f"{what}: returned, but {np.sum(~np.isclose(got, a, equal_nan=True))} values of {a.size} differ: {got!r} instead of {a!r}")
            elif w["ext"] == "jpg" or a.dtype.kind == "c":
                if got.shape == a.shape and a.dtype.kind in "ui" and a.size and np.abs(got.astype(float) - a).max() > 6:
                    raise Violation("not-written", f"{what}: returned, but values differ by {np.abs(got.astype(float) - a).max()}")
            else:
                if not np.allclose(got, a, rtol=1e-6, atol=1 if a.dtype.kind == "f" else 0, equal_nan=True):
                    raise Violation(kind, f"{what}: returned, but values differ: {got!r} instead of {a!r}")
            # metadata (GDAL deletes the side files of a previous file only if it can open that)
            meta = "bmp-side-files-of-failed-write" if was_broken and w["ext"] == "bmp" else "not-written"
            t = ds.GetGeoTransform()
            wt = want["transform"] or (0, 1, 0, 0, 0, 1)
            northup = wt[1] > 0 > wt[5] and not wt[2] and not wt[4]
            if w["ext"] not in ("bil", "img") and not np.allclose(t, wt, rtol=1e-9, atol=1e-9):
                raise Violation(meta, f"{what}: returned, but the transform is {t} instead of {wt}")
            for b in range(ds.RasterCount):
                n = ds.GetRasterBand(b + 1).GetNoDataValue()
                wn = want["nan"]
                if w["ext"] in ("tif", "png", "jpg", "bmp", "gif") and self.fits(wn, ds.GetRasterBand(b + 1)):
                    if (n is None) != (wn is None) or (wn is not None and not np.isclose(n, wn, rtol=1e-6, equal_nan=True)):
                        raise Violation(meta, f"{what}: returned, but the no-data value is {n} instead of {wn}")
            if w["ext"] in ("tif", "png", "jpg", "bmp", "gif"):
                wkt = ds.GetProjection()
                if bool(wkt) != bool(want["crs"]):
                    raise Violation(meta, f"{what}: returned, but the projection is {wkt!r} instead of {want['crs']}")
                if want["crs"]:
                    one, two = osr.SpatialReference(), osr.SpatialReference()
                    one.ImportFromWkt(wkt)
                    (two.ImportFromEPSG if isinstance(want["crs"], int) else two.ImportFromProj4)(want["crs"])
                    if not one.IsSame(two) and not (one.GetUTMZone() == two.GetUTMZone() != 0):
                        raise Violation(meta, f"{what}: returned, but the projection is {wkt!r} instead of {want['crs']}")
            ds = None
            if legal == "yes" and a.shape[2] == 1 and a.dtype.kind == "f":
                r = Raster.open(path)
                z = a[:, :, 0].astype(float)
                if want["nan"] is not None:
                    z = np.where(np.isclose(z, want["nan"], rtol=0, atol=0), np.nan, z)
                if w["ext"] in ("tif",) and not np.allclose(r.array, z, equal_nan=True):
                    raise Violation("not-written", f"{what}: returned, but Raster.open gives {r.array} instead of {z}")
        finally:
            if self.plan["exceptions"]:
                gdal.UseExceptions()

    def fits(self, nan, band):
        """Whether the no-data value can be one of the band."""
        from osgeo import gdal_array

        if nan is None:
            return True
        dt = gdal_array.GDALTypeCodeToNumericTypeCode(band.DataType)
        if np.issubdtype(dt, np.integer):
            return nan == nan and np.iinfo(dt).min <= nan <= np.iinfo(dt).max
        return True

    def clear(self, path):
        """Remove the target and what belongs to it."""
        stem = os.path.splitext(os.path.basename(path))[0]
        for name in os.listdir(self.folder):
            full = os.path.join(self.folder, name)
            if name.split(".")[0] == stem:
                os.rmdir(full) if os.path.isdir(full) else os.unlink(full)
        self.broken.discard(path)

    def others(self, path):
        """Other files of the folder (not the target and what belongs to it)."""
        stem = os.path.splitext(os.path.basename(path))[0]
        out = {}
        for name in sorted(os.listdir(self.folder)):
            full = os.path.join(self.folder, name)
            if name.split(".")[0] != stem and os.path.isfile(full):
                with open(full, "rb") as f:
                    out[name] = f.read()
        return out

    def run(self, plan, ctx):
        import osgeo.gdal as gdal

        gc.disable()
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        gdal.SetConfigOption("GDAL_PAM_ENABLED", "YES")
        gdal.PushErrorHandler("CPLQuietErrorHandler")
        self.ctx, self.plan, self.scratch = ctx, plan, ctx.scratch
        self.folder = os.path.join(ctx.scratch, "out")
        os.mkdir(self.folder)
        self.probes = 0
        self.broken = set()
        if plan["exceptions"]:
            gdal.UseExceptions()
            ctx.probe("exceptions")
        for number, op in enumerate(plan["ops"]):
            if op["op"] == "threads":
                self.do_threads(ctx, op, f"operation {number} (threads)")
            else:
                self.do_write(ctx, op["w"], f"operation {number}")
        gdal.DontUseExceptions()

    def describe(self, w, want, what):
        a = want["array"]
        return f"{what}: {w['src']} {a.dtype}{list(a.shape)} ({w['layout']}) to .{w['ext']} nan={w['nan']} crs={w['crs']}"

    def call(self, write, path):
        try:
            write(path)
            return None
        except (HarnessError, Deadlock, StepLimit):
            raise
        except BaseException as e:  # noqa: BLE001
            # an open file of the failed call is closed now, not whenever the garbage is collected
            traceback.clear_frames(e.__traceback__)
            return e

    def full_size(self, w, write, path):
        """Size of the largest file of this write where nothing goes wrong."""
        self.probes += 1
        root = os.path.join(self.scratch, f"probe{self.probes}")
        os.mkdir(root)
        err = self.call(write, os.path.join(root, os.path.basename(path)))
        sizes = [os.path.getsize(os.path.join(root, n)) for n in os.listdir(root)]
        return max(sizes, default=0) if err is None else None

    def do_write(self, ctx, w, what):
        path = self.path(w)
        if os.path.isdir(path):
            os.rmdir(path)
            self.clear(path)
        if path in self.broken and (self.plan["exceptions"] or w["ext"] == "bil"):
            # GDAL fails on a previous file with broken side files (with exceptions enabled, on any broken file)
            self.clear(path)
        write, want, unchanged, itself = self.prepare(w)
        what = self.describe(w, want, what)
        legal = self.legal(w, want)
        ctx.probe(w["src"])
        ctx.probe(w["ext"])
        if itself:
            ctx.probe("self")
        if os.path.exists(path):
            ctx.probe("after-fault" if path in self.broken else "overwrite")
        fault = w["fault"]
        if w["layout"] not in ("C",) and w["src"] == "array":
            ctx.probe("layout")
        kind = fault["kind"] if fault else None
        size = limit = None
        if kind == "full":
            size = self.full_size(w, write, path)
            if size is None or itself:
                kind = fault = None
            else:
                limit = max(0, int(size * fault["at"]) - fault["less"])
        if kind == "no-directory":
            path = os.path.join(self.folder, "missing", os.path.basename(path))
        if kind == "directory":
            self.clear(path)
            os.mkdir(path)
        others = self.others(path)
        noticed = False
        if kind == "full":
            ctx.fault("disk-full")
            ctx.probe("disk-full")
            with Full(ctx, limit):
                err = self.call(write, path)
            noticed = err is not None
            ctx.probe("disk-full-noticed" if noticed else "disk-just-enough")
        elif kind == "interrupt":
            with LineInterrupt(ctx, fault["n"], KeyboardInterrupt) as line:
                err = self.call(write, path)
            if line.fired:
                ctx.probe("interrupted")
            else:
                kind = None
        else:
            if kind in ("no-directory", "directory"):
                ctx.fault(kind)
                ctx.probe("no-directory" if kind == "no-directory" else "directory-in-the-way")
            err = self.call(write, path)
        ctx.log("write", w["ext"], kind, type(err).__name__, None if err is not None else digest(want["array"]))
        ctx.state((w["src"], w["ext"], want["array"].dtype.str, want["array"].ndim, w["layout"], w["nan"] is None, w["transform"] is None, w["crs"], kind, type(err).__name__))
        if not itself:
            unchanged()
        if self.others(path) != others:
            raise Violation("other-file", f"{what}: files other than the target changed")
        self.settle(ctx, w, path, want, legal, kind, err, what)

    def settle(self, ctx, w, path, want, legal, kind, err, what):
        if err is not None:
            self.broken.add(path)
            if kind is not None:
                return
            if legal in ("yes", "lossy"):
                raise Violation("write-failed", f"{what}: {type(err).__name__}: {err}") from err
            ctx.probe("unsupported" if legal == "no" else "unfit")
            if w["src"] != "image" and w["crs"] in ("bad", "junk"):
                ctx.probe("bad-crs")
            return
        was_broken = path in self.broken
        self.broken.discard(path)
        if kind in ("no-directory", "directory"):
            raise Violation("not-written", f"{what}: returned, but {path} cannot have been written")
        if legal == "no":
            raise Violation("not-written", f"{what}: returned, although it cannot be written")
        if want["nan"] is not None:
            ctx.probe("nodata")
        if want["transform"] is not None:
            ctx.probe("transform")
        if want["crs"] is not None:
            ctx.probe("crs")
        self.verify(w, path, want, what, full=kind == "full", was_broken=was_broken)

    def do_threads(self, ctx, op, what):
        import glimpse.config

        ctx.probe("threads")
        use_pool(ctx, "thread", make_streams(1))
        jobs = [(w, *self.prepare({**w, "file": "memory"})) for w in op["writes"]]
        paths = [self.path(w) for w in op["writes"]]

        def work(i):
            return self.call(jobs[i][1], paths[i])

        with glimpse.config.backend(np=len(jobs)) as pool:
            errors = pool.map(work, list(range(len(jobs))))
        for (w, _, want, unchanged, _), path, err in zip(jobs, paths, errors):
            unchanged()
            ctx.log("write", w["ext"], type(err).__name__)
            self.settle(ctx, w, path, want, self.legal(w, want), None, err, self.describe(w, want, what))

    def shrink(self, plan):
        ops = plan["ops"]
        for size in (4, 2, 1):
            for i in range(0, len(ops), size):
                if len(ops) > size:
                    yield {**plan, "ops": ops[:i] + ops[i + size :]}
        if plan["exceptions"]:
            yield {**plan, "exceptions": False}
        easy = {"upper": False, "driver": False, "bands": 1, "flat": True, "layout": "C", "special": None, "nan": None, "transform": None, "crs": None, "lim": "int",
                "file": "memory", "scale": 1, "cached": False, "given": False, "fault": None, "shape": [4, 4], "slot": 0, "dtype": "u1", "src": "array"}
        for i, o in enumerate(ops):
            if o["op"] == "threads":
                if len(o["writes"]) > 2:
                    yield {**plan, "ops": ops[:i] + [{**o, "writes": o["writes"][:-1]}] + ops[i + 1 :]}
                for j, w in enumerate(o["writes"]):
                    for a, b in easy.items():
                        if a not in ("slot", "fault") and w[a] != b:
                            yield {**plan, "ops": ops[:i] + [{**o, "writes": o["writes"][:j] + [{**w, a: b}] + o["writes"][j + 1 :]}] + ops[i + 1 :]}
                continue
            for a, b in easy.items():
                if o["w"][a] != b:
                    yield {**plan, "ops": ops[:i] + [{**o, "w": {**o["w"], a: b}}] + ops[i + 1 :]}


CHECK = C18()
