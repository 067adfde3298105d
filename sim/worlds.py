"""Small synthetic worlds: photos, rasters, observers, motion models.

Everything is derived from numbers in the plan; nothing here draws from ``np.random``'s
global state (the simulator owns it) or reads a clock.
"""
import datetime
import os

import numpy as np

T0 = datetime.datetime(2021, 3, 27, 22, 0, 0)  # close to a daylight-saving gap in Europe


def rng(*key):
    import zlib

    return np.random.RandomState(zlib.crc32(repr(key).encode()))


def texture(seed, w, h, bands=1, dx=0.0, dy=0.0, lo=20, hi=230):
    """Smooth random texture shifted by (dx, dy) pixels, uint8 (h, w[, bands])."""
    r = rng("texture", seed)
    yy, xx = np.mgrid[0:h, 0:w].astype(float)
    a = np.zeros((h, w))
    for _ in range(14):
        kx, ky = r.uniform(-0.9, 0.9, 2)
        a += r.uniform(0.3, 1) * np.cos(kx * (xx - dx) + ky * (yy - dy) + r.uniform(0, 6.28))
    a = (a - a.min()) / (a.max() - a.min())
    a = lo + a * (hi - lo)
    if bands == 1:
        return a.round().astype(np.uint8)
    return np.dstack([np.clip(a * s, 0, 255) for s in np.linspace(1, 0.7, bands)]).round().astype(np.uint8)


def write_image(path, array):
    """Write an image without any code under test."""
    import cv2

    if array.ndim == 3:
        array = array[:, :, ::-1]
    args = [cv2.IMWRITE_JPEG_QUALITY, 95] if path.lower().endswith("jpg") else []
    ok, buf = cv2.imencode(os.path.splitext(path)[1], array, args)
    assert ok
    with open(path, "wb") as f:
        f.write(buf.tobytes())


def write_tif(path, array, xlim, ylim, nodata=None):
    """Write a GeoTIFF without any code under test."""
    import osgeo.gdal as gdal
    from osgeo import gdal_array

    a = np.atleast_2d(array)
    ny, nx = a.shape[:2]
    nb = 1 if a.ndim == 2 else a.shape[2]
    ds = gdal.GetDriverByName("GTiff").Create(path, nx, ny, nb, gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype))
    ds.SetGeoTransform((xlim[0], (xlim[1] - xlim[0]) / nx, 0, ylim[0], 0, (ylim[1] - ylim[0]) / ny))
    for b in range(nb):
        band = ds.GetRasterBand(b + 1)
        if nodata is not None:
            band.SetNoDataValue(nodata)
        band.WriteArray(a if a.ndim == 2 else a[:, :, b])
        band.FlushCache()
    ds = None


# ---- tracking worlds ----


def gen_world(r, tier, max_obs=2, max_models=4, kinds=("image", "raster")):
    """JSON description of observers, motion models and a tracking request."""
    nobs = r.choice([1, 1, 2, 2, max_obs])
    observers = []
    for _ in range(nobs):
        nimg = r.randint(2, 5)
        step = r.choice([1, 6, 24])
        start = r.choice([0, 0, 0, 1, 6, 24])
        hours = sorted(r.sample(range(0, 8), nimg))
        observers.append(
            {
                "kind": r.choice(list(kinds)),
                "bands": r.choice([1, 1, 3]),
                "ext": r.choice(["png", "tif"]),
                "hours": [start + h * step for h in hours],
                "seed": r.randrange(10**6),
                "v": [r.uniform(-1.2, 1.2), r.uniform(-1.2, 1.2)],
                "cache": r.random() < 0.6,
                "sigma": r.choice([0.2, 0.5, 1.0]),
            }
        )
    nm = r.choice([2, 2, 3, 3, max_models])
    models = [gen_model(r) for _ in range(nm)]
    particles = r.random() < 0.4
    if particles:
        for m in models:
            m["n"] = models[0]["n"]  # Tracks.particles is one (n, m, p, 6) array
    return {
        "observers": observers,
        "models": models,
        "tracker": {
            "resample": r.choice(["systematic", "stratified", "residual", "choice"]),
            "viewshed": r.random() < 0.15,
        },
        "options": {
            "covariances": r.random() < 0.3,
            "particles": particles,
            "reduce": r.random() < 0.2,
            "tile": r.choice([[7, 7], [5, 5], [9, 7]]),
            "maxdt": r.choice([0, 0, 0, 1, 4]),
            "mask": r.choice([None, None, "random"]),
            "mask_seed": r.randrange(10**6),
            "datetimes": r.choice([None, None, "reverse", "subset", "subset"]),
            "dt_seed": r.randrange(10**6),
        },
    }


def gen_model(r):
    return {
        "cls": r.choice(["cartesian", "cartesian", "cylindrical", "tangent", "plain"]),
        "xy": [r.uniform(-10, 10), r.uniform(-7, 7)],
        "n": r.choice([12, 20, 30]),
        "sigma": r.choice([0.0, 0.3, 0.8]),
        "dem_sigma": r.choice([None, 0.0, 0.5]),
        "v": [r.uniform(-0.3, 0.3), r.uniform(-0.3, 0.3)],
    }


SIZE = (60, 46)


def observer_files(world, root):
    """Write the image files of all observers; return their paths."""
    out = []
    for k, o in enumerate(world["observers"]):
        paths = []
        for j, h in enumerate(o["hours"]):
            a = texture(o["seed"], *SIZE, bands=o["bands"], dx=o["v"][0] * j, dy=o["v"][1] * j)
            if o["kind"] == "raster":
                p = os.path.join(root, f"obs{k}_{j}.tif")
                write_tif(p, (a if a.ndim == 2 else a[:, :, 0]).astype(np.float32 if o["seed"] % 2 else np.float64), (-30, 30), (23, -23))
            else:
                p = os.path.join(root, f"obs{k}_{j}.{o['ext']}")
                if o["ext"] == "tif":
                    write_tif(p, a, (0, SIZE[0]), (0, SIZE[1]))
                else:
                    write_image(p, a)
            paths.append(p)
        out.append(paths)
    return out


def build_observers(world, paths, image_cls=None, raster_cls=None):
    from glimpse.image import Image
    from glimpse.raster import Raster
    from glimpse.track.observer import Observer

    image_cls = image_cls or Image
    raster_cls = raster_cls or Raster
    observers = []
    for k, o in enumerate(world["observers"]):
        images = []
        for j, h in enumerate(o["hours"]):
            t = T0 + datetime.timedelta(hours=h)
            if o["kind"] == "raster":
                images.append(raster_cls.open(paths[k][j], datetime=t))
            else:
                images.append(
                    image_cls(
                        paths[k][j],
                        cam=dict(imgsz=SIZE, f=(100, 100), xyz=(0, 0, 100), viewdir=(0, -90, 0)),
                        datetime=t,
                    )
                )
        observers.append(Observer(images, sigma=o["sigma"], cache=o["cache"]))
    return observers


def build_model(m, wrap=None):
    from glimpse.track.motion import CartesianMotion, CylindricalMotion, Motion, TangentCartesianMotion

    from glimpse.raster import Raster

    unit = datetime.timedelta(hours=6)
    s = m["sigma"]
    yy, xx = np.mgrid[0:15, 0:20]
    dem = Raster(0.02 * xx + 0.01 * yy, x=(-40, 40), y=(30, -30))
    dem_sigma = None if m["dem_sigma"] is None else Raster(np.full((15, 20), m["dem_sigma"]), x=(-40, 40), y=(30, -30))
    zero = Raster(np.zeros((15, 20)), x=(-40, 40), y=(30, -30))
    if m["cls"] == "plain":
        cls, kw = Motion, dict(vxyz_sigma=(0.3, 0.3, 0))
    elif m["cls"] == "cartesian":
        cls, kw = CartesianMotion, dict(
            dem=dem, dem_sigma=dem_sigma or zero, xy_sigma=(s, s), vxyz=(*m["v"], 0), vxyz_sigma=(0.2, 0.2, 0.01),
            axyz_sigma=(0.1, 0.1, 0.01))
    elif m["cls"] == "cylindrical":
        cls, kw = CylindricalMotion, dict(
            dem=dem, dem_sigma=dem_sigma or zero, xy_sigma=(s, s), vrthz=(0.3, m["v"][0], 0),
            vrthz_sigma=(0.1, 0.5, 0.01), arthz_sigma=(0.05, 0.05, 0.01))
    else:
        cls, kw = TangentCartesianMotion, dict(
            dem=dem, dem_sigma=dem_sigma or zero, xy_sigma=(s, s), vxy=m["v"], vxy_sigma=(0.2, 0.2),
            axy_sigma=(0.1, 0.1), slope_sigma=0.01)
    if wrap:
        cls = wrap(cls)
    return cls(xy=tuple(m["xy"]), time_unit=unit, n=m["n"], **kw)


def build_tracker(world, observers):
    from glimpse.raster import Raster
    from glimpse.track.tracker import Tracker

    viewshed = None
    if world["tracker"]["viewshed"]:
        viewshed = Raster(np.ones((23, 30), dtype=bool), x=(-30, 30), y=(23, -23))
    return Tracker(observers, viewshed=viewshed, resample_method=world["tracker"]["resample"], highpass={"size": (3, 3)})


def reducer(particles, weights):
    """Picklable reducing function."""
    return {"sum": np.nansum(particles, axis=(0, 1)), "w": np.nansum(weights), "shape": particles.shape}


def track_args(world, nmodels=None, model=None):
    """Keyword arguments of Tracker.track (all models, or only one)."""
    o = world["options"]
    nm = len(world["models"])
    args = dict(
        maxdt=datetime.timedelta(hours=o["maxdt"]),
        tile_size=tuple(o["tile"]),
        return_covariances=o["covariances"],
        return_particles=o["particles"],
        reduce_particles=reducer if o["reduce"] else None,
    )
    if o["mask"]:
        m = rng("mask", o["mask_seed"]).random_sample((nm, len(world["observers"]))) < 0.7
        for i in range(nm):
            if not m[i].any():
                m[i, 0] = True
        args["observer_mask"] = m if model is None else m[model : model + 1]
    hours = sorted({h for x in world["observers"] for h in x["hours"]})
    if o["datetimes"] == "reverse":
        hours = hours[::-1]
    elif o["datetimes"] == "subset":
        r = rng("dts", o["dt_seed"])
        keep = [h for h in hours if r.random_sample() < 0.75]
        hours = keep if len(keep) >= 2 else hours
    if o["datetimes"]:
        args["datetimes"] = [T0 + datetime.timedelta(hours=h) for h in hours]
    return args


def track_parts(tracks, i):
    """Everything track i is made of, except error and warnings."""
    def at(x):
        return None if x is None else np.asarray(x[i])

    out = {
        "means": at(tracks.means),
        "sigmas": at(tracks.sigmas),
        "covariances": at(tracks.covariances),
        "particles": at(tracks.particles),
        "weights": at(tracks.weights),
        "reduced": tracks.reduced[i] if getattr(tracks, "reduced", None) is not None else None,
    }
    return out


def shrink_world(w):
    """Simpler worlds."""
    import copy

    def c():
        return copy.deepcopy(w)

    for i in range(len(w["models"])):
        if len(w["models"]) > 2:
            x = c()
            del x["models"][i]
            yield x
    for i in range(len(w["observers"])):
        if len(w["observers"]) > 1:
            x = c()
            del x["observers"][i]
            yield x
        for j in range(len(w["observers"][i]["hours"])):
            if len(w["observers"][i]["hours"]) > 2:
                x = c()
                del x["observers"][i]["hours"][j]
                yield x
    base = {"covariances": False, "particles": False, "reduce": False, "maxdt": 0, "mask": None, "datetimes": None,
            "tile": [7, 7]}
    for k, v in base.items():
        if w["options"][k] != v:
            x = c()
            x["options"][k] = v
            yield x
    for k, v in {"resample": "systematic", "viewshed": False}.items():
        if w["tracker"][k] != v:
            x = c()
            x["tracker"][k] = v
            yield x
    for i, o in enumerate(w["observers"]):
        for k, v in {"bands": 1, "ext": "png", "cache": False, "kind": "raster"}.items():
            if o[k] != v:
                x = c()
                x["observers"][i][k] = v
                yield x
    for i, m in enumerate(w["models"]):
        for k, v in {"cls": "plain", "n": 12, "sigma": 0.0}.items():
            if m[k] != v and not (k == "n" and w["options"]["particles"]):
                x = c()
                x["models"][i][k] = v
                yield x
