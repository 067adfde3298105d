"""C26: a photo's camera and time come from its metadata and what overrides it."""
import builtins
import copy
import datetime
import os
import pickle

import numpy as np

from checks import c24, c25
from sim import worlds
from sim.check import Check
from sim.core import HarnessError, Violation, digest
from sim.interrupt import LineInterrupt

part = c24.part
# Data from dpreview.com
SENSORS = {
    ("NIKON CORPORATION", "NIKON D2X"): (23.7, 15.7), ("NIKON CORPORATION", "NIKON D200"): (23.6, 15.8), ("NIKON CORPORATION", "NIKON D300S"): (23.6, 15.8),
    ("NIKON", "E8700"): (8.8, 6.6), ("Canon", "Canon EOS 20D"): (22.5, 15.0), ("Canon", "Canon EOS 40D"): (22.2, 14.8),
}
OPS = ["open"] * 6 + ["attributes", "attributes", "rewrite", "rewrite", "insert", "vanish", "move", "move", "project", "project", "project", "pickle", "read"]
ATTRS = ("imgsz", "datetime", "exposure", "aperture", "iso", "fmm", "make", "model", "sensorsz")


class Blocked:
    """Reading a file fails, or is only noticed."""

    def __init__(self, ctx, path, fail):
        self.ctx, self.path, self.fail, self.touched = ctx, os.path.realpath(path), fail, False

    def __enter__(self):
        self.open = builtins.open

        def opened(file, *args, **kwargs):
            if isinstance(file, str) and os.path.realpath(file) == self.path:
                self.touched = True
                if self.fail:
                    self.ctx.fault("read-error")
                    raise OSError(5, "Input/output error", file)
            return self.open(file, *args, **kwargs)

        builtins.open = opened
        return self

    def __exit__(self, *args):
        builtins.open = self.open


class C26(Check):
    id = "C26"
    quick = (9000, 70)
    thorough = (300000, 840)
    rule = (
        "A run writes 1-3 photos with any part of the metadata, then opens them 5-20 times with overrides of any part of the camera, given times and given "
        "metadata, while tags are rewritten, files vanish, fail to read and return, cameras move and photos are projected and pickled; runs are distinct by event log."
    )
    measure = "distinct histories (operations and outcomes in order)"
    real = ["Image", "Exif", "Camera", "piexif", "gdal"]
    stubs = ["open (fails for chosen files)"]
    assumptions = []
    expect_probes = tuple(dict.fromkeys(OPS)) + ("from-metadata", "overridden", "f-overrides", "not-read", "unreadable", "given-exif", "given-camera", "given-time", "refused", "unknown-sensor", "nearest", "linear",
                                                 "grey", "outside", "snapshot", "interrupted", "zero-denominator")

    # ---- plans ----

    def gen(self, r, tier):
        files = [self.gen_file(r) for _ in range(r.choice([1, 2, 2, 3]))]
        ops = []
        for _ in range(r.randint(5, 20)):
            o = {"op": r.choice(OPS), "file": r.randrange(len(files)), "image": r.randrange(8), "seed": r.randrange(10**6), "cut": int(60 ** r.random()) if r.random() < 0.1 else None}
            if o["op"] == "open":
                o["cam"] = r.choice([None, None, "dict", "dict", "dict", "dict", "dict", "camera", "empty"])
                o["keys"] = r.sample(["imgsz", "f", "fmm", "sensorsz", "c", "cmm", "k", "xyz", "viewdir"], r.randint(1, 5))
                o["time"] = r.random() < 0.4
                o["exif"] = r.choice([None, None, None, "own", "other"])
                o["fail"] = r.random() < 0.15
            elif o["op"] == "rewrite":
                o["meta"] = self.gen_file(r)
            elif o["op"] == "project":
                o["method"], o["how"] = r.choice(["linear", "linear", "nearest"]), r.choice(["same", "turned", "turned", "behind", "size", "size", "away"])
            ops.append(o)
        return {"files": files, "ops": ops}

    @staticmethod
    def gen_file(r):
        size = r.choice([[8, 6], [6, 8], [16, 12], [24, 24]])
        known = r.choice(sorted(SENSORS))
        return {
            "size": size, "bands": r.choice([1, 3, 3]), "seed": r.randrange(10**6),
            "pixels": r.choice([size, size, size, [size[0] * 2, size[1] * 2], None, [size[0], None]]),
            "fl": r.choice([[20, 1], [200, 10], [355, 10], None, [0, 0], [1, 0]]), "make": r.choice([known[0], known[0], known[0] + " ", known[0], None, "Nobody"]), "model": r.choice([known[1], known[1], known[1], None, "X1", known[1] + "  "]),
            "time": r.choice(["2014:10:13 02:03:36", "1999:12:31 23:59:59", "2020:02:29 12:00:00", "2014:10:13 02:03:36", None]), "ss": r.choice([None, "28", "5", "007", "123456", "0"]),
            "exp": r.choice([[1, 80], [10, 8], None, [0, 0], [7, 0], [1, 4000]]), "fn": r.choice([[8, 1], [28, 10], None, [0, 0], [4294967295, 0]]), "iso": r.choice([100, 200, 3200, None]), "gps": r.random() < 0.3,
        }

    # ---- metadata ----

    def tags(self, m):
        t = {"0th": {}, "Exif": {}}
        for name, tag in (("make", "Make"), ("model", "Model")):
            if m[name] is not None:
                t["0th"][tag] = m[name].encode()
        if m["pixels"]:
            t["Exif"]["PixelXDimension"] = m["pixels"][0]
            if m["pixels"][1]:
                t["Exif"]["PixelYDimension"] = m["pixels"][1]
        for name, tag in (("fl", "FocalLength"), ("exp", "ExposureTime"), ("fn", "FNumber")):
            if m[name]:
                t["Exif"][tag] = tuple(m[name])
        if m["time"]:
            t["Exif"]["DateTimeOriginal"] = m["time"].encode()
        if m["ss"]:
            t["Exif"]["SubSecTimeOriginal"] = m["ss"].encode()
        if m["iso"]:
            t["Exif"]["ISOSpeedRatings"] = m["iso"]
        if m["gps"]:
            t["GPS"] = {"GPSAltitude": (5, 2)}
        return t

    def write(self, path, m):
        import cv2
        import piexif

        array = worlds.texture(m["seed"], m["size"][0], m["size"][1], bands=m["bands"]).astype(np.uint8)
        if not cv2.imwrite(path + ".jpg", array):
            raise HarnessError("cannot write a photo")
        t = self.tags(m)
        codes = {}
        for g, d in t.items():
            names = getattr(piexif, "ImageIFD" if g == "0th" else g + "IFD")
            codes[g] = {getattr(names, k): v for k, v in d.items()}
        piexif.insert(piexif.dump(codes), path + ".jpg", new_file=path + ".new")
        os.replace(path + ".new", path)
        os.remove(path + ".jpg")

    @staticmethod
    def values(m):
        """What the metadata says."""

        def ratio(x):
            return x[0] / x[1] if x and x[1] else None

        time = None
        if m["time"]:
            time = datetime.datetime(*(int(x) for x in m["time"].replace(" ", ":").split(":")), int(m["ss"].ljust(6, "0")) if m["ss"] else 0)
        key = (m["make"] and m["make"].strip(), m["model"] and m["model"].strip())
        return {"imgsz": tuple(m["pixels"]) if m["pixels"] and m["pixels"][1] else None, "datetime": time, "exposure": ratio(m["exp"]), "aperture": ratio(m["fn"]), "iso": m["iso"], "fmm": ratio(m["fl"]),
                "make": m["make"], "model": m["model"], "sensorsz": SENSORS.get(key)}

    def overrides(self, o, g, m):
        kw = {}
        for k in o["keys"]:
            kw[k] = {"imgsz": lambda: tuple(int(x) for x in np.array(m["size"]) * g.choice([1, 1, 2])), "f": lambda: g.choice([20.0, 33.0]) if g.uniform() < 0.5 else tuple(g.uniform(10, 40, 2)),
                     "fmm": lambda: float(g.choice([20, 28])), "sensorsz": lambda: (23.6, 15.8) if g.uniform() < 0.5 else (10.0, 12.0), "c": lambda: tuple(g.uniform(-1, 1, 2)), "cmm": lambda: tuple(g.uniform(-1, 1, 2)),
                     "k": lambda: (0.01, -0.02), "xyz": lambda: tuple(g.uniform(-5, 5, 3)), "viewdir": lambda: tuple(g.uniform(-20, 20, 3))}[k]()
        return kw

    @staticmethod
    def needed(kw):
        """Whether the metadata has parameters of the camera which were not given."""
        return "imgsz" not in kw or "f" not in kw and ("fmm" not in kw or "sensorsz" not in kw) or "cmm" in kw and "sensorsz" not in kw

    @staticmethod
    def camera(kw, known):
        """Camera parameters and sensor size, or None if they are insufficient or contradictory."""
        kw = dict(kw)
        if known is not None:
            for k in ("imgsz", "sensorsz", "fmm"):
                if k not in kw and not (k == "fmm" and "f" in kw):
                    kw[k] = known[k]
        get = kw.get
        n, s = get("imgsz"), get("sensorsz")
        if n is None or (get("f") is None) == (get("fmm") is None) or get("c") is not None and get("cmm") is not None or s is None and (get("fmm") is not None or get("cmm") is not None):
            return None
        n = np.array(n, dtype=float)
        f = np.ones(2) * (get("f") if get("f") is not None else np.array(get("fmm")) * n / s)
        c = get("c") if get("c") is not None else np.array(get("cmm")) * n / s if get("cmm") is not None else (0, 0)
        k = np.zeros(6)
        k[: len(get("k", ()))] = get("k", ())
        return np.concatenate((get("xyz", (0, 0, 0)), get("viewdir", (0, 0, 0)), n, f, c, k, (0, 0))), s

    # ---- runs ----

    def run(self, plan, ctx):
        self.metas = copy.deepcopy(plan["files"])
        self.paths = [os.path.join(ctx.scratch, f"photo{i}.jpg") for i in range(len(self.metas))]
        for p, m in zip(self.paths, self.metas):
            self.write(p, m)
        self.gone, self.images = [False] * len(self.paths), []
        told = []
        for number, o in enumerate(plan["ops"]):
            if o["op"] in ("move", "project", "pickle", "insert", "read") and not self.images:
                continue
            ctx.probe(o["op"])
            g = worlds.rng(o["seed"], "op")
            what = f"operation {number} ({o['op']})"
            files = self.contents()
            self.cut = LineInterrupt(ctx, o["cut"]) if o["cut"] is not None else None
            out = getattr(self, "do_" + o["op"])(ctx, o, g, what)
            if o["op"] not in ("rewrite", "insert", "vanish") and self.contents() != files:
                raise Violation("file-changed", f"{what}: a photo changed")
            for i, e in enumerate(self.images):
                self.agree(e, f"after {what}: image {i}")
            ctx.log(what, out)
            told.append((o["op"], out))
        ctx.state(told)

    def contents(self):
        out = []
        for p in self.paths:
            for q in (p, p + ".away"):
                if os.path.exists(q):
                    with open(q, "rb") as f:
                        out.append((q, f.read()))
        return out

    def attempt(self, ctx, f):
        """(result, None), (None, exception) or None if interrupted."""
        try:
            if self.cut is None:
                return f(), None
            with self.cut:
                return f(), None
        except KeyboardInterrupt:
            if self.cut is None or not self.cut.fired:
                raise
            ctx.probe("interrupted")
            return None
        except (Violation, HarnessError):
            raise
        except Exception as e:
            return None, e

    def agree(self, e, what):
        img, m = e["image"], e
        v, s = m["camera"]["v"], m["camera"]["sensorsz"]
        if not np.allclose(img.cam.to_array(), v, rtol=1e-12, atol=1e-12):
            raise Violation("wrong-camera", f"{what}: camera {img.cam.to_array().tolist()} instead of {v.tolist()}")
        if (img.cam.sensorsz is None) != (s is None) or s is not None and not np.allclose(img.cam.sensorsz, s):
            raise Violation("wrong-camera", f"{what}: sensor {img.cam.sensorsz} instead of {s}")
        if tuple(img.size) != tuple(part(v, "imgsz")):
            raise Violation("wrong-camera", f"{what}: size {img.size}")
        if img.datetime != m["time"]:
            raise Violation("wrong-time", f"{what}: {img.datetime} instead of {m['time']}")
        if img.path != m["path"]:
            raise Violation("wrong-path", f"{what}: {img.path}")
        if (img.exif is None) != (m["meta"] is None):
            raise Violation("wrong-metadata", f"{what}: metadata {img.exif}")
        if img.exif is not None:
            self.attributes(img.exif, m["meta"], what)

    def attributes(self, exif, meta, what):
        want = self.values(meta)
        for name in ATTRS:
            try:
                got = getattr(exif, name)
            except Exception as e:
                raise Violation("raised", f"{what}: metadata {name}: {e!r} for {meta}") from e
            same = got == want[name] or isinstance(want[name], float) and got is not None and np.isclose(got, want[name], rtol=1e-12)
            if not same or isinstance(want[name], (int, str, tuple)) and type(got) is not type(want[name]):
                raise Violation("wrong-metadata", f"{what}: {name} is {got!r} instead of {want[name]!r} for {meta}")

    def do_open(self, ctx, o, g, what):
        from glimpse import Camera, Exif, Image

        i = o["file"]
        m, path = self.metas[i], self.paths[i]
        kw, cam, shared = {}, None, None
        if o["cam"] == "dict":
            kw = self.overrides(o, g, m)
            cam = dict(kw)
        elif o["cam"] == "empty":
            cam = {}
        elif o["cam"] == "camera":
            ctx.probe("given-camera")
            if self.images and g.uniform() < 0.5:
                shared = self.images[o["image"] % len(self.images)]["camera"]
                cam = self.images[o["image"] % len(self.images)]["image"].cam
            else:
                cam = Camera(imgsz=m["size"], f=20, xyz=(1, 2, 3))
                shared = {"v": cam.to_array(), "sensorsz": None}
        time = datetime.datetime(2000, 1, 2, 3, 4, 5) if o["time"] else None
        exif, source = None, None
        if o["exif"]:
            j = i if o["exif"] == "own" else (i + 1) % len(self.paths)
            if not self.gone[j]:
                exif, source = Exif(self.paths[j]), self.metas[j]
                ctx.probe("given-exif")
        needed = o["cam"] != "camera" and self.needed(kw) or time is None
        kept = copy.deepcopy(cam) if isinstance(cam, dict) else None
        with Blocked(ctx, path, o["fail"]) as blocked:
            got = self.attempt(ctx, lambda: Image(path, cam=cam, datetime=time, exif=exif))
        if kept is not None and digest(kept) != digest(cam):
            raise Violation("argument-changed", f"{what}: cam {kept} became {cam}")
        if got is None:
            return "interrupted"
        img, error = got
        told = f"{what}: Image(cam={cam if o['cam'] != 'camera' else 'camera'}, datetime={time}, exif={o['exif']}) of {m}"
        if not needed or exif is not None:
            ctx.probe("not-read")
            if blocked.touched:
                raise Violation("file-read", f"{told}: the file was read")
        elif o["fail"] or self.gone[i]:
            ctx.probe("unreadable")
            contradictory = not self.needed(kw) and o["cam"] != "camera" and self.camera(kw, None) is None
            if not isinstance(error, OSError) and not (contradictory and isinstance(error, ValueError)):
                raise Violation("accepted", f"{told}: {error!r} although the metadata cannot be read")
            return "unreadable"
        if needed and source is None:
            source = m
        known = self.values(source) if source is not None and (o["cam"] != "camera" and self.needed(kw)) else None
        want = (shared["v"], shared["sensorsz"]) if shared else self.camera(kw, known)
        if known is not None and known["sensorsz"] is None:
            ctx.probe("unknown-sensor")
        if want is None:
            ctx.probe("refused")
            if not isinstance(error, (ValueError, TypeError)):
                raise Violation("accepted", f"{told}: {error!r}, camera {img and img.cam.to_array().tolist()}")
            return "refused"
        if error is not None:
            raise Violation("raised", f"{told}: {error!r}") from error
        ctx.probe("overridden" if kw else "from-metadata")
        if "f" in kw and known is not None and known["fmm"]:
            ctx.probe("f-overrides")
        if time is not None:
            ctx.probe("given-time")
        if source is not None and any(source[k] and source[k][1] == 0 for k in ("fl", "exp", "fn")):
            ctx.probe("zero-denominator")
        want_time = time if time is not None else self.values(source)["datetime"]
        entry = {"image": img, "camera": shared or {"v": want[0].copy(), "sensorsz": want[1]}, "time": want_time, "path": path, "meta": copy.deepcopy(source), "file": i}
        self.agree(entry, told)
        if shared and img.cam is not cam:
            raise Violation("wrong-camera", f"{told}: another camera")
        entry["camera"]["v"][:] = img.cam.to_array()
        self.images.append(entry)
        if len(self.images) > 6:
            self.images.pop(0)
        return ("opened", needed)

    def do_attributes(self, ctx, o, g, what):
        from glimpse import Exif

        i = o["file"]
        if self.gone[i]:
            return "gone"
        got = self.attempt(ctx, lambda: Exif(self.paths[i]))
        if got is None:
            return "interrupted"
        if got[1]:
            raise Violation("raised", f"{what}: {got[1]!r}") from got[1]
        exif = got[0]
        self.attributes(exif, self.metas[i], what)
        tags = self.tags(self.metas[i])
        for group, names in (("Exif", ("FocalLength", "ISOSpeedRatings", "LensMake", "DateTimeOriginal")), ("0th", ("Make", "Artist")), ("GPS", ("GPSAltitude",)), ("Nope", ("Nope",))):
            for name in names:
                x = tags.get(group, {}).get(name)
                want = x.decode() if isinstance(x, bytes) else (x[0] / x[1] if x[1] else None) if isinstance(x, tuple) else x
                got = exif.parse_tag(name, group=group)
                if got != want:
                    raise Violation("wrong-metadata", f"{what}: {group} {name} is {got!r} instead of {want!r}")
        return "read"

    def do_rewrite(self, ctx, o, g, what):
        i = o["file"]
        if self.gone[i]:
            return "gone"
        ctx.probe("snapshot")
        self.metas[i] = copy.deepcopy(o["meta"])
        self.write(self.paths[i], self.metas[i])
        for e in self.images:
            # a cached array is that of the earlier file
            if e["file"] == i:
                e["image"].array = None
        return "rewritten"

    def do_insert(self, ctx, o, g, what):
        """Edit the metadata held by an image, and write them to its file."""
        e = self.images[o["image"] % len(self.images)]
        i = e["file"]
        if e["meta"] is None or self.gone[i]:
            return "none"
        exif = e["image"].exif
        sharing = [x for x in self.images if x["image"].exif is exif]
        exif.tags["Exif"]["ISOSpeedRatings"] = 400
        exif.tags["Exif"]["FocalLength"] = (50, 1)
        for x in sharing:
            x["meta"].update(iso=400, fl=[50, 1])
        with open(e["path"], "rb") as f:
            before = f.read()
        got = self.attempt(ctx, lambda: exif.insert(e["path"]))
        if got is None:
            # either state of the file is fine
            with open(e["path"], "rb") as f:
                if f.read() == before:
                    return "interrupted"
        elif got[1]:
            raise Violation("raised", f"{what}: {got[1]!r}") from got[1]
        size = {k: self.metas[i][k] for k in ("size", "bands", "seed")}
        self.metas[i] = {**copy.deepcopy(e["meta"]), **size}
        return "inserted"

    def do_vanish(self, ctx, o, g, what):
        i = o["file"]
        p = self.paths[i]
        ctx.fault("file-vanished" if not self.gone[i] else "file-returned")
        os.rename(*((p, p + ".away") if not self.gone[i] else (p + ".away", p)))
        self.gone[i] = not self.gone[i]
        return self.gone[i]

    def do_move(self, ctx, o, g, what):
        e = self.images[o["image"] % len(self.images)]
        cam, v = e["image"].cam, e["camera"]["v"]
        x = g.uniform(-10, 10, 3)
        if g.uniform() < 0.5:
            cam.viewdir = x
            v[3:6] = x
        else:
            cam.f *= 1.1
            v[8:10] *= 1.1
        return "moved"

    def do_pickle(self, ctx, o, g, what):
        e = self.images[o["image"] % len(self.images)]
        img = pickle.loads(pickle.dumps(e["image"]))
        self.images.append({**e, "image": img, "camera": copy.deepcopy(e["camera"]), "meta": copy.deepcopy(e["meta"])})
        return "copied"

    def pixels(self, e):
        """The pixels of the file at the size of the camera."""
        from osgeo import gdal

        ds = gdal.Open(e["path"])
        n = [int(x) for x in part(e["camera"]["v"], "imgsz")]
        a = np.dstack([ds.GetRasterBand(b + 1).ReadAsArray(**({} if n == [ds.RasterXSize, ds.RasterYSize] else {"buf_xsize": n[0], "buf_ysize": n[1]})) for b in range(ds.RasterCount)])
        return a

    def do_read(self, ctx, o, g, what):
        e = self.images[o["image"] % len(self.images)]
        if self.gone[e["file"]]:
            return "gone"
        got = self.attempt(ctx, lambda: e["image"].read(cache=bool(g.randint(2))))
        if got is None:
            return "interrupted"
        if got[1]:
            raise Violation("raised", f"{what}: {got[1]!r}") from got[1]
        want = self.pixels(e)
        if not np.array_equal(np.atleast_3d(got[0]), want):
            raise Violation("wrong-pixels", f"{what}: not the pixels of the file")
        return "read"

    def do_project(self, ctx, o, g, what):
        from glimpse import Camera

        e = self.images[o["image"] % len(self.images)]
        v = e["camera"]["v"]
        if self.gone[e["file"]] or min(part(v, "imgsz")) < 2:
            return "gone"
        t = v.copy()
        n, f = part(v, "imgsz"), part(v, "f")
        spread = np.degrees(np.arctan(n / f))
        how = o["how"]
        if how == "turned" or how == "size":
            t[3:6] += g.uniform(-1, 1, 3) * [spread[0], spread[1], 20]
        if how == "size":
            t[6:8] = g.randint(2, 30, 2)
            t[8:10] = f * g.uniform(0.5, 2) * t[6] / n[0]
        if how == "behind":
            t[3] += 180 * g.uniform(0.4, 1.2)
        if how == "away":
            t[int(g.randint(3))] += 10.0 ** g.randint(-6, 3)
        if g.uniform() < 0.3:
            t[12], t[10] = g.uniform(-0.02, 0.02), g.uniform(-1, 1)
        cam = Camera(imgsz=t[6:8], f=t[8:10], c=t[10:12], k=t[12:18], p=t[18:20], xyz=t[:3], viewdir=t[3:6])
        before = cam.to_array()
        got = self.attempt(ctx, lambda: e["image"].project(cam, method=o["method"]))
        if not np.array_equal(cam.to_array(), before):
            raise Violation("argument-changed", f"{what}: camera {cam.to_array()}")
        if got is None:
            return "interrupted"
        out, error = got
        if how == "away":
            if not isinstance(error, ValueError):
                raise Violation("accepted", f"{what}: a camera elsewhere: {error!r}")
            return "refused"
        if error:
            raise Violation("raised", f"{what}: {error!r}") from error
        ctx.probe(o["method"])
        source = self.pixels(e)
        w, h = (int(x) for x in t[6:8])
        if out.shape[:2] != (h, w) or out.size != w * h * source.shape[2] or out.dtype != source.dtype:
            raise Violation("wrong-shape", f"{what}: {out.shape} {out.dtype} instead of {(h, w, source.shape[2])} {source.dtype}")
        out = out.reshape(h, w, source.shape[2])
        if source.shape[2] == 1:
            ctx.probe("grey")
        half = (t[6:8] / 2 + np.abs(t[10:12])) / t[8:10]
        if c24.contraction(t, float(np.hypot(*half))) > 0.3:
            return "skipped"
        uv = np.array([(x + 0.5, y + 0.5) for y in range(h) for x in range(w)])
        xy = c25.cam_xy(t, uv)
        rays = np.column_stack((xy, np.ones(len(xy)))) @ c24.rotation(t[3:6])
        at, depth = c24.reference_uv(v, None, rays, True)
        seen = depth > 1e-9
        sure = np.abs(depth) > 1e-9
        pos = np.where(seen[:, None], at - 0.5, -9.0)
        top = n - 1
        inside = ((pos >= 0) & (pos <= top)).all(axis=1)
        sure &= ((np.abs(pos) > 1e-6) & (np.abs(pos - top) > 1e-6)).all(axis=1)
        q = np.clip(pos, 0, top)
        if o["method"] == "nearest":
            frac = q % 1
            sure &= (np.abs(frac - 0.5) > 1e-6).all(axis=1) | ~inside
            ij = np.round(q).astype(int)
            value = source[ij[:, 1], ij[:, 0]].astype(float)
        else:
            lo = np.minimum(np.floor(q), top - 1).astype(int)
            d = q - lo
            s = source.astype(float)
            value = sum(s[lo[:, 1] + j, lo[:, 0] + i] * (np.where(i, d[:, 0], 1 - d[:, 0]) * np.where(j, d[:, 1], 1 - d[:, 1]))[:, None] for i in (0, 1) for j in (0, 1))
        value[~inside] = 0
        got = out.reshape(-1, source.shape[2]).astype(float)
        if not inside.all():
            ctx.probe("outside")
        # the nearest integer
        bad = (np.abs(got - value) > 0.5 + 1e-4)[sure]
        if bad.any():
            k = np.flatnonzero(sure)[np.flatnonzero(bad.any(axis=1))[0]]
            raise Violation("wrong-projection", f"{what}: {o['method']} {how}: pixel {uv[k].tolist()} is {got[k].tolist()} instead of {value[k].tolist()} (seen at {at[k].tolist()} in {n.tolist()}); {int(bad.any(axis=1).sum())} of {len(uv)} differ")
        return ("projected", o["method"], how)

    def shrink(self, plan):
        ops = plan["ops"]
        for i in range(len(ops)):
            if len(ops) > 1:
                yield {**plan, "ops": ops[:i] + ops[i + 1:]}
        for i, o in enumerate(ops):
            for k, v in {"cut": None, "exif": None, "fail": False, "time": True}.items():
                if k in o and o[k] != v:
                    yield {**plan, "ops": ops[:i] + [{**o, k: v}] + ops[i + 1:]}
            for j in range(len(o.get("keys", ()))):
                yield {**plan, "ops": ops[:i] + [{**o, "keys": o["keys"][:j] + o["keys"][j + 1:]}] + ops[i + 1:]}


CHECK = C26()
