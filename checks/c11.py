"""C11: image caching is invisible: a read returns the file's pixels."""
import datetime
import os

import numpy as np

from sim import worlds
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation, digest
from sim.gdalseam import GdalSeam
from sim.tracking import make_streams, use_pool

BIG = 400  # pixels: large enough that GDAL reads resized JPEG files from their reduced versions


def gen_box(r):
    """A box as fractions of the image."""
    k = r.random()
    if k < 0.3:
        return None
    a, b = sorted((r.random(), r.random()))
    c, d = sorted((r.random(), r.random()))
    if k < 0.4:
        a, c = 0, 0
    if k < 0.5:
        b, d = 1, 1
    return [a, c, b, d]


class C11(Check):
    id = "C11"
    quick = (4000, 100)
    thorough = (250000, 840)
    rule = (
        "A run performs 4-25 operations on 1-3 images (reads of all or part, cached or not, through images or observers, camera resizes, "
        "cache clears, tiles shifted and sampled) while files vanish, are cut short, and GDAL or allocation calls fail, some reads "
        "interleaved line by line across threads, comparing every pixel returned with the file; runs are distinct by event log."
    )
    measure = "distinct (format, scale, cache state, box, fault, outcome)"
    real = ["Image.read", "Observer.tile_box / extract_tile / shift_tile / sample_tile / cache_images / clear_images", "Camera.resize", "GDAL on real files",
            "threads (real, one running at a time)"]
    stubs = ["GDAL Open / ReadAsArray (pass through unless a fault is due)", "sharedmem.copy (fails on demand)", "sharedmem.MapReduceByThread "
             "(simulated pool)"]
    assumptions = ["GDAL's own read of a whole healthy file is what the file's pixels are", "a file changes only by being damaged and restored"]
    expect_probes = ("cached", "uncached", "boxed", "resized", "from-cache", "missing", "truncated", "gdal-fault", "alloc-fault", "failed-read",
                     "threads", "observer", "shift-tile", "stale-cache", "tile", "tile-refused", "sample-points", "sample-grid", "sample-outside", "jpg", "png", "tif")

    def gen(self, r, tier):
        n = r.choice([1, 1, 2, 3])
        big = r.random() < 0.03
        files = []
        for k in range(n):
            f = r.choice([4, 8, 12])
            w, h = f * r.randint(1, 6), f * r.randint(1, 5)
            if big:
                w, h = BIG * 2, BIG
            files.append({"ext": r.choice(["png", "png", "jpg", "tif"]), "bands": r.choice([1, 1, 3]), "size": [w, h], "f": f})
        ops = []

        def read():
            return {"op": "read", "img": r.randrange(n), "box": gen_box(r), "cache": r.random() < 0.5, "how": r.choice(["image", "image", "observer"])}

        for _ in range(r.randint(4, 25)):
            k = r.random()
            if k < 0.5:
                ops.append(read())
            elif k < 0.62:
                ops.append({"op": "resize", "img": r.randrange(n), "by": r.choice([1, 1, 0.5, 0.25, 2])})
            elif k < 0.68:
                ops.append({"op": "clear", "img": r.randrange(n), "how": r.choice(["image", "observer", "all"])})
            elif k < 0.72:
                ops.append({"op": "cache", "img": r.randrange(n), "how": r.choice(["one", "all", "slice"])})
            elif k < 0.78:
                ops.append({"op": "damage", "img": r.randrange(n), "how": r.choice(["missing", "cut", "cut", "empty"]), "at": r.random()})
            elif k < 0.84:
                ops.append({"op": "restore", "img": r.randrange(n)})
            elif k < 0.90:
                ops.append({"op": "fault", "on": r.choice([["open"], ["read"], ["read"], ["alloc"]]), "after": r.choice([0, 0, 1, 2]),
                            "read": read()})
            elif k < 0.92:
                order = r.choice([1, 3, 3])
                ops.append({"op": "tile", "img": r.randrange(n), "uv": [r.uniform(-0.1, 1.1) if r.random() < 0.2 else r.uniform(0.3, 0.7) for _ in "uv"], "size": [r.randint(order + 1, 9) for _ in "uv"],
                            "order": order, "duv": [r.choice([r.uniform(-0.5, 0.5), r.uniform(-0.5, 0.5), 0.5, 0, -0.5, 0.6]) for _ in "uv"], "grid": r.random() < 0.4, "n": [r.randint(1, 5), r.randint(1, 5)],
                            "at": [r.choice([0, 0, r.uniform(-3, 30)]) for _ in "uv"], "cell": [r.choice([1, 1, 0.5, 2, r.uniform(0.2, 3)]) for _ in "uv"], "outside": r.random() < 0.15,
                            "cache": r.random() < 0.7, "seed": r.randrange(10**6), "float": r.random() < 0.4})
            elif k < 0.95:
                ops.append({"op": "shift", "img": r.randrange(n), "box": gen_box(r), "duv": [r.uniform(-0.5, 0.5), r.uniform(-0.5, 0.5)],
                            "cache": r.random() < 0.7})
            else:
                ops.append({"op": "threads", "jobs": [[(read() if r.random() < 0.75 else {"op": "clear", "img": r.randrange(n), "how": "image"})
                                                       for _ in range(r.randint(1, 3))] for _ in range(r.randint(2, 3))]})
        return {"files": files, "ops": ops, "seed": r.randrange(10**6), "obs_cache": r.random() < 0.5}

    def run(self, plan, ctx):
        import osgeo.gdal as gdal
        import sharedmem

        from glimpse.image import Image
        from glimpse.track.observer import Observer

        self.gdal_open = gdal.Open
        self.full = {}
        self.bytes, self.paths, self.images = [], [], []
        for k, f in enumerate(plan["files"]):
            path = os.path.join(ctx.scratch, f"p{k}.{f['ext']}")
            a = worlds.texture(plan["seed"] + k, *f["size"], bands=f["bands"])
            a = a if min(a.shape[:2]) > 40 else worlds.rng(plan["seed"], k).randint(0, 255, a.shape).astype(np.uint8)
            if f["ext"] == "tif":
                import cv2

                ok, buf = cv2.imencode(".tif", a if a.ndim == 2 else a[:, :, ::-1])
                with open(path, "wb") as fp:
                    fp.write(buf.tobytes())
            else:
                worlds.write_image(path, a)
            with open(path, "rb") as fp:
                self.bytes.append(fp.read())
            self.paths.append(path)
            whole = self.whole(k, tuple(f["size"]))
            if f["ext"] != "jpg" and not np.array_equal(whole, a):
                raise HarnessError("GDAL read other pixels than were written")
            for s in (1, 0.5, 0.25, 2):
                size = tuple(int(x * s) for x in f["size"])
                if min(size) >= 1:
                    self.full[k, size] = self.whole(k, size)
            self.images.append(Image(path, cam=dict(imgsz=f["size"], f=(90, 90)), datetime=worlds.T0 + datetime.timedelta(hours=k)))
            ctx.probe(f["ext"])
        self.observer = Observer(self.images, cache=plan["obs_cache"]) if len(self.images) > 1 else None
        self.damage = [None] * len(self.images)
        self.seam = GdalSeam(ctx)
        self.alloc = None
        copy = sharedmem.copy

        def failing_copy(*a, **k):
            if self.alloc is not None:
                self.alloc -= 1
                if self.alloc < 0:
                    self.alloc = None
                    self.alloc_fired = True
                    ctx.fault("allocation")
                    raise MemoryError("no shared memory")
            return copy(*a, **k)

        sharedmem.copy = failing_copy
        self.alloc_fired = False
        for number, op in enumerate(plan["ops"]):
            what = f"operation {number} ({op['op']})"
            ctx.log("op", number, op["op"])
            getattr(self, "do_" + op["op"])(ctx, plan, op, what)

    def whole(self, k, size):
        ds = self.gdal_open(self.paths[k])
        a = np.dstack([ds.GetRasterBand(i + 1).ReadAsArray(buf_xsize=int(size[0]), buf_ysize=int(size[1])) for i in range(ds.RasterCount)])
        return a[:, :, 0] if a.shape[2] == 1 else a

    def box(self, k, frac):
        if frac is None:
            return None
        w, h = (int(x) for x in self.images[k].cam.imgsz)
        left, top = min(int(frac[0] * w), w - 1), min(int(frac[1] * h), h - 1)
        return [left, top, max(left + 1, int(np.ceil(frac[2] * w))), max(top + 1, int(np.ceil(frac[3] * h)))]

    def do_read(self, ctx, plan, op, what, faulty=False):
        k = op["img"]
        im = self.images[k]
        box = self.box(k, op["box"])
        size = tuple(int(x) for x in im.cam.imgsz)
        cached = im.array is not None and im.array.shape[1::-1] == size
        if im.array is not None and not cached:
            ctx.probe("stale-cache")
        how = op["how"] if self.observer is not None else "image"
        if how == "observer" and box is None:
            box = [0, 0, *size]
        calls = self.seam.calls
        try:
            if how == "observer":
                ctx.probe("observer")
                got = self.observer.extract_tile(np.array(box), k)
            else:
                got = im.read(box=None if box is None else tuple(box), cache=op["cache"])
            err = None
        except (HarnessError, Deadlock, StepLimit):
            raise
        except Exception as e:  # noqa: BLE001
            got, err = None, e
        ctx.state((plan["files"][k]["ext"], size == tuple(plan["files"][k]["size"]), cached, box is None, op["cache"], self.damage[k] and self.damage[k][0], faulty,
                   type(err).__name__))
        ctx.probe("cached" if op["cache"] else "uncached")
        if box is not None:
            ctx.probe("boxed")
        if size != tuple(plan["files"][k]["size"]):
            ctx.probe("resized")
        if err is None and self.seam.calls == calls:
            ctx.probe("from-cache")
        if err is not None:
            ctx.probe("failed-read")
            if self.damage[k] is None and not faulty:
                raise Violation("read-failed", f"{what}: {os.path.basename(im.path)} box {box}: {type(err).__name__}: {err}")
            return
        self.compare(ctx, k, size, box, got, what)

    def compare(self, ctx, k, size, box, got, what):
        want = self.full[k, size]
        if box is not None:
            want = want[box[1] : box[3], box[0] : box[2]]
        if not isinstance(got, np.ndarray) or got.shape != want.shape or got.dtype != want.dtype:
            raise Violation("wrong-shape", f"{what}: image {k} at {size}, box {box}: {getattr(got, 'dtype', None)} {np.shape(got)} instead of "
                                           f"{want.dtype} {want.shape}")
        if not np.array_equal(got, want):
            raise Violation("wrong-pixels", f"{what}: image {k} at {size}, box {box}: {float((got != want).mean()):.2f} of the pixels differ from the file's")

    def do_resize(self, ctx, plan, op, what):
        k = op["img"]
        if all(int(x * op["by"]) >= 1 for x in plan["files"][k]["size"]):
            self.images[k].cam.resize(op["by"])

    def do_clear(self, ctx, plan, op, what):
        if op["how"] == "image" or self.observer is None:
            self.images[op["img"]].array = None
        elif op["how"] == "observer":
            self.observer.clear_images([op["img"]])
        else:
            self.observer.clear_images()

    def do_cache(self, ctx, plan, op, what):
        if self.observer is None:
            return
        index = {"one": [op["img"]], "all": slice(None), "slice": slice(op["img"], None)}[op["how"]]
        which = list(range(len(self.images)))[index] if isinstance(index, slice) else index
        try:
            self.observer.cache_images(index)
        except Exception as e:  # noqa: BLE001
            if not any(self.damage[k] for k in which):
                raise Violation("read-failed", f"{what}: {type(e).__name__}: {e}") from None
            return
        for k in which:
            ctx.check(self.images[k].array is not None, "not-cached", f"{what}: image {k} is not cached")

    def do_damage(self, ctx, plan, op, what):
        k, how = op["img"], op["how"]
        self.put(k, None)
        data = self.bytes[k]
        if how == "missing":
            ctx.probe("missing")
            os.unlink(self.paths[k])
        else:
            ctx.probe("truncated")
            with open(self.paths[k], "wb") as f:
                f.write(data[: 0 if how == "empty" else int(len(data) * op["at"])])
        ctx.fault("file-" + how)
        self.damage[k] = (how,)

    def put(self, k, _):
        tmp = self.paths[k] + ".new"
        with open(tmp, "wb") as f:
            f.write(self.bytes[k])
        os.replace(tmp, self.paths[k])
        self.damage[k] = None

    def do_restore(self, ctx, plan, op, what):
        self.put(op["img"], None)

    def do_fault(self, ctx, plan, op, what):
        self.alloc_fired = False
        if op["on"] == ["alloc"]:
            self.alloc = op["after"]
            self.do_read(ctx, plan, {**op["read"], "cache": True}, what, faulty=True)
            self.alloc = None
            if self.alloc_fired:
                ctx.probe("alloc-fault")
        else:
            self.seam.arm(op["on"], op["after"])
            self.do_read(ctx, plan, op["read"], what, faulty=True)
            if self.seam.disarm():
                ctx.probe("gdal-fault")

    def do_shift(self, ctx, plan, op, what):
        """Shifting a tile is the caller's business: it changes no later read."""
        if self.observer is None:
            return
        k = op["img"]
        box = self.box(k, op["box"] or [0, 0, 1, 1])
        if min(box[2] - box[0], box[3] - box[1]) < 4:
            return
        size = tuple(int(x) for x in self.images[k].cam.imgsz)
        self.observer.cache = op["cache"]
        try:
            tile = self.observer.extract_tile(box, k)
        except Exception as e:  # noqa: BLE001
            if not self.damage[k]:
                raise Violation("read-failed", f"{what}: {type(e).__name__}: {e}") from None
            return
        finally:
            self.observer.cache = plan["obs_cache"]
        self.compare(ctx, k, size, box, tile, what)
        self.observer.shift_tile(tile, op["duv"])
        ctx.probe("shift-tile")
        if self.damage[k] is None or self.images[k].array is not None:
            self.do_read(ctx, plan, {"img": k, "box": None, "cache": True, "how": "image"}, what + ", then read")

    def do_tile(self, ctx, plan, op, what):
        """Tiles around a point, shifted and sampled, are those of the photo, and remain so."""
        import scipy.interpolate

        if self.observer is None:
            return
        k = op["img"]
        size = np.array([int(x) for x in self.images[k].cam.imgsz])
        uv = np.array(op["uv"]) * size
        corners = np.array([uv - np.array(op["size"]) / 2, uv + np.array(op["size"]) / 2])
        fits = bool(((corners >= 0) & (corners <= size)).all())
        try:
            box = self.observer.tile_box(uv.copy(), op["size"], img=k)
        except IndexError:
            if fits:
                raise Violation("tile-box", f"{what}: {op['size']} around {uv.tolist()} in {size.tolist()} refused") from None
            ctx.probe("tile-refused")
            return
        want = np.floor(corners + 0.5).astype(int).ravel()
        if not fits or not np.array_equal(box, want):
            raise Violation("tile-box", f"{what}: {op['size']} around {uv.tolist()} in {size.tolist()} is {np.asarray(box).tolist()} instead of {want.tolist() if fits else 'refused'}")
        if min(box[2] - box[0], box[3] - box[1]) <= op["order"]:
            return
        self.observer.cache = op["cache"]
        try:
            tile = self.observer.extract_tile(box, k)
        except Exception as e:  # noqa: BLE001
            if not self.damage[k]:
                raise Violation("read-failed", f"{what}: {type(e).__name__}: {e}") from None
            return
        finally:
            self.observer.cache = plan["obs_cache"]
        self.compare(ctx, k, tuple(size.tolist()), want, tile, what)
        ctx.probe("tile")
        if op["float"]:
            tile = tile / 7
        before = tile.copy()
        h, w = tile.shape[:2]
        kw = {} if op["order"] == 3 else {"kx": 1, "ky": 1}
        try:
            shifted = self.observer.shift_tile(tile, tuple(op["duv"]), **kw)
        except ValueError as e:
            if max(map(abs, op["duv"])) <= 0.5:
                raise Violation("shift", f"{what}: shift by {op['duv']}: {e}") from e
        else:
            if max(map(abs, op["duv"])) > 0.5:
                raise Violation("shift", f"{what}: shifted by {op['duv']}")
            y, x = np.arange(h) + 0.5, np.arange(w) + 0.5
            bands = np.atleast_3d(before).astype(float)
            values = np.dstack([scipy.interpolate.RectBivariateSpline(y, x, bands[:, :, b], **kw)(y + op["duv"][1], x + op["duv"][0]) for b in range(bands.shape[2])]).reshape(before.shape)
            tol = 1e-6
            if before.dtype == np.uint8:
                values, tol = np.clip(values, 0, 255), 0.5 + 1e-6
            if shifted.shape != before.shape or shifted.dtype != before.dtype or np.abs(shifted.astype(float) - values).max() > tol:
                raise Violation("shift", f"{what}: {before.tolist()} shifted by {op['duv']} is {shifted.tolist()} instead of {values.tolist()}"[:900])
            if tile is shifted or np.shares_memory(tile, shifted):
                raise Violation("shift", f"{what}: the shifted tile is the tile")
        # a band of it, placed anywhere
        band = np.atleast_3d(tile)[:, :, 0]
        g = worlds.rng(op["seed"], "points")
        low = np.array(op["at"])
        cell = np.array(op["cell"])
        high = low + cell * (w, h)
        y, x = low[1] + cell[1] * (np.arange(h) + 0.5), low[0] + cell[0] * (np.arange(w) + 0.5)
        spline = scipy.interpolate.RectBivariateSpline(y, x, band.astype(float), **kw)
        nu, nv = op["n"] if op["grid"] else [op["n"][0]] * 2
        u, v = (np.sort(g.uniform(a, b, m)) for a, b, m in ((low[0], high[0], nu), (low[1], high[1], nv)))
        if op["outside"]:
            # a bit outside on any side
            side = g.randint(4)
            pick = u if side % 2 else v
            pick[-1 if side < 2 else 0] = (high if side < 2 else low)[0 if side % 2 else 1] + (1e-3 if side < 2 else -1e-3)
        if not op["grid"]:
            g.shuffle(v)
        want = spline(v, u, grid=True) if op["grid"] else spline(v, u, grid=False)
        told = f"{what}: sample of {'grid' if op['grid'] else 'points'} {u.tolist()} {v.tolist()} in {low.tolist()} {high.tolist()}"
        try:
            got = self.observer.sample_tile((u, v) if op["grid"] else np.column_stack((u, v)), tile=band, box=(*low, *high), grid=op["grid"], **kw)
        except ValueError as e:
            if not op["outside"]:
                raise Violation("sample", f"{told}: {e}") from e
            ctx.probe("sample-outside")
        else:
            if op["outside"]:
                raise Violation("sample", f"{told}: returned {got.tolist()}")
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-6):
                raise Violation("sample", f"{told}: {got.tolist()} instead of {want.tolist()}")
            ctx.probe("sample-grid" if op["grid"] else "sample-points")
        if not np.array_equal(tile, before):
            raise Violation("tile-changed", f"{what}: shifting or sampling the tile changed it")
        if self.damage[k] is None or self.images[k].array is not None:
            self.do_read(ctx, plan, {"img": k, "box": None, "cache": True, "how": "image"}, what + ", then read")

    def do_threads(self, ctx, plan, op, what):
        ctx.probe("threads")
        use_pool(ctx, "thread", make_streams(1))
        import glimpse.config

        def work(i, jobs):
            out = []
            for j in jobs:
                k = j["img"]
                if j["op"] == "clear":
                    self.images[k].array = None
                    continue
                box = self.box(k, j["box"])
                try:
                    got = self.images[k].read(box=box, cache=j["cache"])
                except (HarnessError, Deadlock, StepLimit):
                    raise
                except Exception as e:  # noqa: BLE001
                    out.append((k, box, None, f"{type(e).__name__}: {e}"))
                else:
                    out.append((k, box, got.copy(), None))
            return out

        with glimpse.config.backend(np=len(op["jobs"])) as pool:
            results = pool.map(work, list(enumerate(op["jobs"])), star=True)
        for out in results:
            for k, box, got, err in out:
                if err is not None:
                    if self.damage[k] is None:
                        raise Violation("read-failed", f"{what}: image {k}, box {box}: {err}")
                    continue
                self.compare(ctx, k, tuple(int(x) for x in self.images[k].cam.imgsz), box, got, what)
        ctx.log("threads", [[(k, box, err is None and digest(got)) for k, box, got, err in out] for out in results])

    def shrink(self, plan):
        ops = plan["ops"]
        for size in (8, 4, 2, 1):
            for i in range(0, len(ops), size):
                if len(ops) > size:
                    yield {**plan, "ops": ops[:i] + ops[i + size :]}
        for k, f in enumerate(plan["files"]):
            for a, b in {"ext": "png", "bands": 1, "size": [8, 4]}.items():
                if f[a] != b:
                    yield {**plan, "files": plan["files"][:k] + [{**f, a: b}] + plan["files"][k + 1 :]}
        for i, o in enumerate(ops):
            for a, b in {"how": "image", "box": None, "img": 0}.items():
                if o["op"] == "read" and o[a] != b:
                    yield {**plan, "ops": ops[:i] + [{**o, a: b}] + ops[i + 1 :]}


CHECK = C11()
