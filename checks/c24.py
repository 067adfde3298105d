"""C24: a camera is its parameters, whatever its history."""
import copy
import json
import math
import os
import pickle

import numpy as np

from sim import worlds
from sim.check import Check
from sim.core import HarnessError, Violation, digest, in_code_under_test
from sim.interrupt import LineInterrupt

FIELDS = {"xyz": (0, 3), "viewdir": (3, 6), "imgsz": (6, 8), "f": (8, 10), "c": (10, 12), "k": (12, 18), "p": (18, 20)}
NAMES = list(FIELDS)
PADDED = ("xyz", "viewdir", "c", "k", "p")  # short values are completed with zeros, others repeated
RADIUS, REFRACTION = 6.3781e6, 0.13
OPS = ["set"] * 6 + ["edit"] * 2 + ["invalid"] * 2 + ["mm"] * 2 + ["resize"] * 4 + ["reset"] * 3 + ["idealize", "copy", "copy", "json", "json", "pickle",
       "rebuild", "correction", "correction"] + ["project"] * 4 + ["unproject"] * 4 + ["frame"] * 2 + ["raster", "spherical", "derivative", "sees", "reversible", "refuse"]


# ---- an independent camera ----


def rotation(viewdir):
    yaw, pitch, roll = (math.radians(a) for a in viewdir)
    ri = np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]], dtype=float)  # z up, y north -> looking north, y down
    ry = np.array([[math.cos(yaw), 0, -math.sin(yaw)], [0, 1, 0], [math.sin(yaw), 0, math.cos(yaw)]])
    rp = np.array([[1, 0, 0], [0, math.cos(pitch), math.sin(pitch)], [0, -math.sin(pitch), math.cos(pitch)]])
    rr = np.array([[math.cos(roll), math.sin(roll), 0], [-math.sin(roll), math.cos(roll), 0], [0, 0, 1]])
    return rr @ rp @ ry @ ri


def part(v, name):
    a, b = FIELDS[name]
    return v[a:b]


def distort(v, x, y):
    k, p = part(v, "k"), part(v, "p")
    r2 = x * x + y * y
    radial = (1 + r2 * (k[0] + r2 * (k[1] + r2 * k[2]))) / (1 + r2 * (k[3] + r2 * (k[4] + r2 * k[5])))
    return (x * radial + 2 * p[0] * x * y + p[1] * (r2 + 2 * x * x), y * radial + p[0] * (r2 + 2 * y * y) + 2 * p[1] * x * y)


def reference_uv(v, correction, xyz, directions):
    """Image coordinates and depths of world points, by the textbook."""
    d = np.array(xyz, dtype=float)
    if not directions:
        d = d - part(v, "xyz")
        if correction is not None:
            d[:, 2] = d[:, 2] + (correction["refraction"] - 1) * (d[:, 0] ** 2 + d[:, 1] ** 2) / (2 * correction["radius"])
    cam = d @ rotation(part(v, "viewdir")).T
    out = np.full((len(d), 2), np.nan)
    ahead = cam[:, 2] > 0
    x, y = cam[ahead, 0] / cam[ahead, 2], cam[ahead, 1] / cam[ahead, 2]
    x, y = distort(v, x, y)
    n, f, c = part(v, "imgsz"), part(v, "f"), part(v, "c")
    out[ahead] = np.column_stack((n[0] / 2 + c[0] + f[0] * x, n[1] / 2 + c[1] + f[1] * y))
    return out, cam[:, 2]


def contraction(v, r):
    """How fast the distortion changes at radius r: its inverse is sure to be found where this is small."""
    k, p = np.abs(part(v, "k")), np.abs(part(v, "p"))
    r2 = r * r
    return 3 * k[0] * r2 + 5 * k[1] * r2**2 + 7 * k[2] * r2**3 + 1.3 * (3 * k[3] * r2 + 5 * k[4] * r2**2 + 7 * k[5] * r2**3) + 8 * p.sum() * r


def limits(value, old):
    return (value - 0.5) / old, (value + 0.5) / old


class C24(Check):
    id = "C24"
    quick = (9000, 75)
    thorough = (400000, 840)
    rule = (
        "A run applies 5-25 operations to 1-5 cameras: setting and editing parameters in any accepted form, refused values, sizes in pixels "
        "and millimetres, resizing, idealising, resetting, copying, saving and reloading, with interrupts at any line and "
        "any state of the random numbers; after each, every camera is compared with a model of its parameters, and projections, their "
        "inverse, frames, rasters and derivatives with an independent camera; runs are distinct by event log."
    )
    measure = "distinct histories (operations, forms of values and outcomes in order)"
    real = ["Camera", "helpers", "json, pickle"]
    stubs = ["np.random (seeded)"]
    assumptions = ["numerical inverses are only judged where the distortion is weak enough to be inverted"]
    expect_probes = tuple(dict.fromkeys(OPS)) + ("interrupted", "refused", "scaled", "sized", "forced", "vector-depth", "centre-column", "behind", "on-edge", "layers",
                                                 "after-interrupt", "corrected", "override", "matmul", "reset-after-resize", "k1", "iterated", "unique-size")

    # ---- plans ----

    def gen(self, r, tier):
        cams = []
        for _ in range(r.choice([1, 1, 2, 3])):
            n = r.choice([[10, 10], [8, 6], [3, 2], [1, 1], [40, 30], [133, 311], [r.randint(1, 60), r.randint(1, 60)]])
            cams.append({
                "imgsz": n, "mm": r.choice([None, None, "f", "fc", "sensor"]), "sensorsz": [r.choice([23.6, 36.0, 8.0]), r.choice([15.8, 24.0, 6.0])],
                "f": round(max(n) * r.uniform(0.6, 3), r.choice([0, 3])) or 1.0, "square": r.random() < 0.6, "c": [r.uniform(-0.05, 0.05) * n[0], r.uniform(-0.05, 0.05) * n[1]] if r.random() < 0.4 else None,
                "k": self.gen_k(r), "p": r.choice([None, None, None, [r.uniform(-0.01, 0.01), r.uniform(-0.01, 0.01)], [0.007, -0.007]]),
                "xyz": r.choice([[0, 0, 0], [1, 2, 3], [495000.5, 6783000.25, 420.0]]), "viewdir": [r.choice([0, 90, r.uniform(-200, 400)]), r.choice([0, r.uniform(-89, 89)]), r.choice([0, r.uniform(-180, 180)])],
                "correction": r.choice([False, False, True, {"refraction": 0.0}, {"radius": 1e5}]),
            })
        ops = []
        for _ in range(r.randint(5, 25)):
            o = {"op": r.choice(OPS), "cam": r.randrange(8), "seed": r.randrange(10**6), "np_seed": r.randrange(10**6),
                 "cut": int(60 ** r.random()) if r.random() < 0.12 else None, "matmul": r.random() < 0.1}
            k = o["op"]
            if k in ("set", "edit", "invalid"):
                o["name"] = r.choice(NAMES if k != "edit" else [x for x in NAMES if x != "imgsz"])
                o["form"] = r.choice(["list", "list", "tuple", "array", "array", "short", "scalar", "long", "int-array"])
                o["how"] = r.choice(["text", "shape", "fraction", "empty"])
                o["like"] = r.choice([None] * 8 + ["nudge", "nudge", "swap", "negate", "cancel", "cancel"])
            elif k == "mm":
                o["name"] = r.choice(["sensorsz", "fmm", "fmm", "cmm", "cmm"])
                o["form"] = r.choice(["list", "tuple", "array", "scalar"])
            elif k == "resize":
                o["how"] = r.choice(["scale", "scale", "size", "size", "wrong", "force"])
                o["scale"] = r.choice([0.5, 2, 1, 3, 0.25, 1.7, r.uniform(0.2, 3)])
                o["by"] = [r.randint(-2, 3), r.randint(-2, 3)]
            elif k == "correction":
                o["value"] = r.choice([True, False, {}, {"refraction": r.uniform(0, 0.3)}, {"radius": 1e6}, {"radius": 1e5, "refraction": 0.0}])
            elif k == "json":
                o["attrs"] = r.choice([None, None, "mm", "few", "correction"])
                o["override"] = r.choice([None, None, "xyz", "k", "viewdir"])
                o["indent"] = r.choice([None, 4])
            elif k == "project":
                o["directions"], o["depth"], o["int"] = r.random() < 0.3, r.random() < 0.4, r.random() < 0.15
            elif k == "unproject":
                o["directions"], o["depth"], o["centre"] = r.random() < 0.6, r.choice([None, None, "scalar", "vector", "vector"]), r.random() < 0.4
            elif k == "frame":
                o["step"], o["mode"] = r.choice([1, 1, 0.5, 2, [1, 2]]), r.choice(["points", "vectors", "grids"])
            elif k == "raster":
                o["bands"], o["edge"] = r.choice([0, 0, 1, 2]), r.random() < 0.4
            ops.append(o)
        return {"cams": cams, "ops": ops}

    @staticmethod
    def gen_k(r):
        k = [0.0] * 6
        kind = r.choice(["none", "none", "k1", "k1", "many", "rational", "cancel"])
        if kind == "k1":
            k[0] = r.choice([0.1, -0.1, r.uniform(-0.3, 0.3), 1e-6])
        elif kind == "many":
            k[:3] = [r.uniform(-0.08, 0.08), r.uniform(-0.03, 0.03), r.uniform(-0.01, 0.01)]
        elif kind == "cancel":
            k[0] = r.uniform(-0.05, 0.05)
            k[r.choice([1, 1, 2, 3])] = -k[0]
        elif kind == "rational":
            k = [r.uniform(-0.05, 0.05) if r.random() < 0.6 else 0.0 for _ in range(6)]
        return k

    # ---- cameras and their model ----

    def build(self, c):
        from glimpse import Camera

        n = np.array(c["imgsz"], dtype=float)
        s = np.array(c["sensorsz"])
        f = np.array([c["f"], c["f"]]) * (1 if c["square"] else np.array([1, 1.1]))
        v = np.concatenate((c["xyz"], c["viewdir"], n, f, c["c"] or [0, 0], c["k"], c["p"] or [0, 0])).astype(float)
        kw = {"imgsz": c["imgsz"], "xyz": c["xyz"], "viewdir": tuple(c["viewdir"]), "k": c["k"], "correction": copy.deepcopy(c["correction"])}
        if c["p"]:
            kw["p"] = c["p"]
        if c["mm"]:
            kw["sensorsz"] = tuple(c["sensorsz"])
        if c["mm"] in ("f", "fc"):
            kw["fmm"] = f * s / n
        else:
            kw["f"] = f if not c["square"] else c["f"]
        if c["c"]:
            if c["mm"] == "fc":
                kw["cmm"] = list(np.array(c["c"]) * s / n)
            else:
                kw["c"] = np.array(c["c"])
        before = copy.deepcopy(kw)
        cam = self.call(lambda: Camera(**kw), "Camera()")
        self.same(before, kw, "arguments of Camera()")
        m = {"v": v, "o": None, "sensorsz": s if c["mm"] else None, "correction": self.correction(c["correction"]), "fuzzy": False}
        self.agree(cam, m, "new camera")
        m["v"] = cam._vector.copy()
        m["o"] = m["v"].copy()
        return cam, m

    @staticmethod
    def correction(value):
        if value is True:
            value = {}
        if isinstance(value, dict):
            return {"radius": RADIUS, "refraction": REFRACTION, **value}
        return None

    def call(self, f, what):
        try:
            return f()
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation("raised", f"{what}: {e!r}") from e

    def same(self, a, b, what):
        if digest(a) != digest(b):
            raise Violation("argument-changed", f"{what}: {b!r} instead of {a!r}"[:400])

    def agree(self, cam, m, what, kind="wrong-parameters"):
        """The camera has the parameters of the model, wherever they are read."""
        for name in NAMES:
            got, want = np.asarray(getattr(cam, name), dtype=float), part(m["v"], name)
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-13):
                raise Violation(kind, f"{what}: {name} is {got.tolist()} instead of {want.tolist()}")
        got = cam.to_array()
        if not np.allclose(got, m["v"], rtol=1e-12, atol=1e-13):
            raise Violation(kind, f"{what}: to_array is {got.tolist()} instead of {m['v'].tolist()}")
        s = cam.sensorsz
        if (s is None) != (m["sensorsz"] is None) or (s is not None and not np.array_equal(s, m["sensorsz"])):
            raise Violation(kind, f"{what}: sensorsz is {s} instead of {m['sensorsz']}")
        for name, of in (("fmm", "f"), ("cmm", "c")):
            got = getattr(cam, name)
            if m["sensorsz"] is None:
                ok = got is None
            else:
                ok = got is not None and np.allclose(got, part(m["v"], of) * m["sensorsz"] / part(m["v"], "imgsz"), rtol=1e-12, atol=1e-13)
            if not ok:
                raise Violation(kind, f"{what}: {name} is {got} although {of} is {part(m['v'], of).tolist()} and the sensor {m['sensorsz']}")

    # ---- runs ----

    def run(self, plan, ctx):
        from glimpse import config

        pairs = [self.build(c) for c in plan["cams"]]
        ctx.log("cameras", len(pairs))
        told = []
        cut_before = False
        for number, o in enumerate(plan["ops"]):
            i = o["cam"] % len(pairs)
            what = f"operation {number} ({o['op']} of camera {i})"
            ctx.probe(o["op"])
            g = worlds.rng(o["seed"], "op")
            np.random.seed(o["np_seed"])
            if o["matmul"]:
                ctx.probe("matmul")
            config.matmul = o["matmul"]
            cam, m = pairs[i]
            others = [(c, x) for j, (c, x) in enumerate(pairs) if j != i]
            before = m["v"].copy()
            self.cut = None if o["cut"] is None else LineInterrupt(ctx, o["cut"])
            self.target = m["v"].copy()
            if cut_before:
                ctx.probe("after-interrupt")
            try:
                out = getattr(self, "do_" + o["op"])(ctx, o, g, pairs, cam, m, what)
            except KeyboardInterrupt:
                if self.cut is None or not self.cut.fired:
                    raise
                out = "interrupted"
                cut_before = True
                ctx.probe("interrupted")
                self.interrupted(cam, m, before, what)
            finally:
                config.matmul = False
            for c, x in others:
                self.agree(c, x, f"another camera after {what}", "other-camera")
            self.agree(cam, m, f"after {what}")
            told.append((o["op"], out))
            ctx.log(what, out, digest([m["v"] for _, m in pairs]))
        ctx.state(tuple(told))

    def act(self, f):
        """Call the code under test, perhaps interrupted."""
        if self.cut is None:
            return f()
        with self.cut:
            return f()

    def interrupted(self, cam, m, before, what):
        """Each parameter has its old or its new value, and the camera can still be reset."""
        now = cam.to_array()
        for name in NAMES:
            got = part(now, name)
            if not any(np.allclose(got, part(x, name), rtol=1e-12, atol=1e-13) for x in (before, self.target)):
                raise Violation("half-done", f"{what}: {name} is {got.tolist()} after an interrupt, neither {part(before, name).tolist()} nor {part(self.target, name).tolist()}")
        m["v"] = now
        s = cam.sensorsz
        if s is not None:
            m["sensorsz"] = np.array(s)
        twin = copy.deepcopy(cam)
        twin.reset()
        if not np.array_equal(twin.to_array(), m["o"]):
            raise Violation("not-reset", f"{what}: {twin.to_array().tolist()} after an interrupt and a reset, instead of {m['o'].tolist()}")

    # ---- operations ----

    def value(self, o, g, v, name):
        a, b = FIELDS[name]
        n = b - a
        size = part(v, "imgsz")
        x = {"xyz": lambda: part(v, "xyz") + g.uniform(-5, 5, 3), "viewdir": lambda: g.uniform(-180, 180, 3), "imgsz": lambda: g.randint(1, 60, 2).astype(float),
             "f": lambda: g.uniform(0.6, 3) * size.max() * np.ones(2), "c": lambda: g.uniform(-0.1, 0.1, 2) * size,
             "k": lambda: np.where(g.uniform(size=6) < 0.5, 0, g.uniform(-0.05, 0.05, 6)), "p": lambda: g.uniform(-0.01, 0.01, 2)}[name]()
        if name != "imgsz" and o.get("like"):
            # close to the present values, or the same ones rearranged
            old = part(v, name)
            x = {"nudge": lambda: old + 10 ** g.uniform(-9, -3) * g.uniform(-1, 1, n), "swap": lambda: old[::-1].copy(), "negate": lambda: -old if name != "f" else old,
                 "cancel": lambda: g.permutation(np.resize([x[-1], -x[-1]], n)) if name in ("k", "p", "c", "viewdir") else x}[o["like"]]()
        form = o["form"]
        if name == "k" and form in ("short", "scalar"):
            x = np.append(g.uniform(-0.3, 0.3), np.zeros(5))
        if form == "int-array" and name in ("xyz", "viewdir", "imgsz", "f"):
            x = np.maximum(np.round(x), 1)
            return x, x.astype(int)
        if form in ("short", "scalar"):
            want = np.zeros(n) if name in PADDED else np.full(n, x[0])
            want[0] = x[0]
            return want, [x[0]] if form == "short" else float(x[0])
        if form == "long":
            return x, list(x) + [7.5] * int(g.randint(1, 3))
        return x, {"list": list, "tuple": tuple}.get(form, np.array)(x)

    def do_set(self, ctx, o, g, pairs, cam, m, what):
        want, value = self.value(o, g, m["v"], o["name"])
        a, b = FIELDS[o["name"]]
        self.target[a:b] = want
        kept = copy.deepcopy(value)
        try:
            self.act(lambda: setattr(cam, o["name"], value))
        except ValueError as e:
            raise Violation("raised", f"{what}: setting {o['name']} to {value!r}: {e!r}") from e
        self.same(kept, value, f"{what}: value given to {o['name']}")
        if isinstance(value, (list, np.ndarray)):
            value[0] = 77  # the camera has a copy
        m["v"] = self.target
        return (o["name"], o["form"])

    def do_edit(self, ctx, o, g, pairs, cam, m, what):
        a, b = FIELDS[o["name"]]
        want, _ = self.value({**o, "form": "array"}, g, m["v"], o["name"])
        j = int(g.randint(b - a))
        view = self.call(lambda: getattr(cam, o["name"]), what)
        view[j] = want[j]
        m["v"][a + j] = want[j]
        return o["name"]

    def do_invalid(self, ctx, o, g, pairs, cam, m, what):
        name = o["name"]
        n = FIELDS[name][1] - FIELDS[name][0]
        how = o["how"]
        if how == "fraction":
            name, value = "imgsz", [float(part(m["v"], "imgsz")[0]), part(m["v"], "imgsz")[1] + 0.5]
        elif how == "empty" and name not in PADDED:
            value = []
        elif how == "shape":
            value = [list(range(2))] * n
        else:
            value = ["a"] * n
        kept = copy.deepcopy(value)
        try:
            setattr(cam, name, value)
        except Exception as e:
            if not isinstance(e, (ValueError, TypeError, ZeroDivisionError)):
                raise Violation("raised", f"{what}: {e!r}") from e
            ctx.probe("refused")
            ctx.fault("refused-value")
        else:
            raise Violation("accepted", f"{what}: {name} accepted {value!r}")
        self.same(kept, value, what)
        return (name, how)

    def do_mm(self, ctx, o, g, pairs, cam, m, what):
        name = o["name"]
        x = g.uniform(5, 40, 2) if name != "cmm" else g.uniform(-0.3, 0.3, 2)
        value = {"list": list, "tuple": tuple, "scalar": lambda y: float(y[0])}.get(o["form"], np.array)(x)
        if o["form"] == "scalar":
            x = np.array([x[0], 0 if name == "cmm" else x[0]])
        if name == "sensorsz":
            kept = copy.deepcopy(value)
            self.call(lambda: setattr(cam, name, value), what)
            self.same(kept, value, what)
            m["sensorsz"] = x
            return name
        if m["sensorsz"] is None:
            try:
                setattr(cam, name, value)
            except ValueError:
                ctx.fault("refused-value")
                return (name, "refused")
            raise Violation("accepted", f"{what}: {name} without the size of the sensor")
        pixels = x * part(m["v"], "imgsz") / m["sensorsz"]
        a, b = FIELDS[name[0]]
        self.target[a:b] = pixels
        self.act(lambda: setattr(cam, name, value))
        m["v"] = self.target
        return name

    def do_resize(self, ctx, o, g, pairs, cam, m, what):
        orig, now = part(m["o"], "imgsz"), part(m["v"], "imgsz")
        how = o["how"]
        if how == "scale":
            arg = o["scale"]
            new = np.floor(arg * orig + 0.5)
        else:
            new = np.floor(o["scale"] * orig + 0.5)
            if how != "size":
                new = np.maximum(new + o["by"], 1)
            arg = (tuple, list, np.array)[o["seed"] % 3]([int(x) for x in new])
        if (new < 1).any():
            return "skipped"
        if (new > 2000).any():
            return "skipped"
        force = how == "force"
        refused = False
        if how in ("size", "wrong"):
            lo, hi = zip(*(limits(a, b) for a, b in zip(new, orig)))
            refused = max(lo) >= min(hi) - 1e-12
            unsure = abs(max(lo) - min(hi)) < 1e-9
            if not refused and min(hi) - max(lo) < 1e-3:
                ctx.probe("unique-size")
        kept = copy.deepcopy(arg)
        a, b = FIELDS["imgsz"]
        scale = new / now
        if not refused:
            self.target[a:b] = new
            self.target[8:12] = self.target[8:12] * np.tile(scale, 2)
        try:
            self.act(lambda: cam.resize(arg, force=force) if force else cam.resize(arg))
        except ValueError as e:
            if not refused and not (how != "scale" and not force and unsure):
                raise Violation("raised", f"{what}: resize({arg!r}, force={force}) of a camera of {orig.tolist()} pixels: {e!r}") from e
            ctx.probe("refused")
            ctx.fault("refused-value")
            self.same(kept, arg, what)
            return (how, "refused")
        if refused and not unsure:
            raise Violation("accepted", f"{what}: resize({arg!r}) of a camera of {orig.tolist()} pixels")
        ctx.probe({"scale": "scaled", "force": "forced"}.get(how, "sized"))
        self.same(kept, arg, what)
        if not refused:
            m["v"] = self.target
            m["resized"] = True
        return how

    def do_reset(self, ctx, o, g, pairs, cam, m, what):
        self.target = m["o"].copy()
        if m.pop("resized", False):
            ctx.probe("reset-after-resize")
        self.act(cam.reset)
        m["v"] = self.target
        s = cam.sensorsz
        m["sensorsz"] = None if s is None else np.array(s)
        return None

    def do_idealize(self, ctx, o, g, pairs, cam, m, what):
        self.target[10:20] = 0
        self.act(cam.idealize)
        m["v"] = self.target
        return None

    def add(self, pairs, cam, m, what):
        if len(pairs) < 5:
            pairs.append((cam, m))
        self.agree(cam, m, f"camera made by {what}")
        twin = copy.deepcopy(cam)
        self.call(twin.reset, what)
        if not np.array_equal(twin.to_array(), m["o"]):
            raise Violation("not-reset", f"{what}: the new camera resets to {twin.to_array().tolist()} instead of {m['o'].tolist()}")

    def clone(self, m, **kw):
        return {**{k: copy.deepcopy(v) for k, v in m.items()}, **kw}

    def do_copy(self, ctx, o, g, pairs, cam, m, what):
        new = self.act(cam.copy)
        self.add(pairs, new, self.clone(m, o=m["v"].copy()), what)

    def do_pickle(self, ctx, o, g, pairs, cam, m, what):
        new = pickle.loads(pickle.dumps(cam)) if o["seed"] % 2 else copy.deepcopy(cam)
        self.add(pairs, new, self.clone(m), what)

    def do_rebuild(self, ctx, o, g, pairs, cam, m, what):
        from glimpse import Camera

        new = self.call(lambda: Camera(**cam.to_dict(), sensorsz=cam.sensorsz, correction=copy.deepcopy(cam.correction)), what)
        self.add(pairs, new, self.clone(m, o=m["v"].copy()), what)

    def do_json(self, ctx, o, g, pairs, cam, m, what):
        from glimpse import Camera

        attrs = {None: None, "mm": ["xyz", "viewdir", "imgsz", "sensorsz", "fmm", "cmm", "k", "p"], "few": ["imgsz", "f", "viewdir"],
                 "correction": NAMES + ["correction"]}[o["attrs"]]
        if o["attrs"] == "mm" and m["sensorsz"] is None:
            attrs = NAMES + ["sensorsz"]
        if attrs:
            attrs = [attrs[i] for i in g.permutation(len(attrs))]
        path = os.path.join(ctx.scratch, "camera.json")
        kw = {} if o["indent"] is None else {"indent": 4, "flat_arrays": True}
        if attrs:
            kw["attributes"] = attrs
        text = self.call(lambda: cam.to_json(**kw), what)
        kept = json.loads(text)
        self.call(lambda: cam.to_json(path, **kw), what)
        with open(path) as f:
            if json.load(f) != kept:
                raise Violation("wrong-file", f"{what}: the file has other values than the text")
        if set(kept) != set(attrs or NAMES):
            raise Violation("wrong-file", f"{what}: {sorted(kept)} instead of {sorted(attrs or NAMES)}")
        override = {}
        x = self.clone(m, o=None)
        if attrs is None or "sensorsz" not in attrs:
            x["sensorsz"] = None
        if attrs is None or "correction" not in attrs:
            x["correction"] = None
        if o["attrs"] == "few":
            for name in ("xyz", "c", "k", "p"):
                a, b = FIELDS[name]
                x["v"][a:b] = 0
        if o["override"]:
            name = o["override"]
            want, value = self.value({"form": "list"}, g, m["v"], name)
            a, b = FIELDS[name]
            x["v"][a:b] = want
            override = {name: value}
            ctx.probe("override")
        new = self.act(lambda: self.call(lambda: Camera.from_json(path, **override), what))
        self.agree(new, x, f"camera reloaded by {what}")
        x["v"] = new.to_array()
        x["o"] = x["v"].copy()
        self.add(pairs, new, x, what)
        return o["attrs"]

    def do_correction(self, ctx, o, g, pairs, cam, m, what):
        value = copy.deepcopy(o["value"])
        self.call(lambda: setattr(cam, "correction", value), what)
        self.same(o["value"], value, what)
        m["correction"] = self.correction(o["value"])
        return str(o["value"])

    # ---- reading ----

    def rays(self, g, v, n, inside=True):
        """Directions (camera coordinates, depth 1) in or around the view."""
        f, size, c = part(v, "f"), part(v, "imgsz"), part(v, "c")
        uv = g.uniform(0 if inside else -0.3, 1 if inside else 1.3, (n, 2)) * size
        return np.clip((uv - size / 2 - c) / f, -1, 1)

    def do_project(self, ctx, o, g, pairs, cam, m, what):
        v = m["v"]
        n = int(g.choice([0, 1, 2, 7]))
        xy = self.rays(g, v, n, inside=False)
        depth = g.uniform(1, 3000, n) * np.where(g.uniform(size=n) < 0.15, -1, 1)
        d = (np.column_stack((xy, np.ones(n))) * depth[:, None]) @ rotation(part(v, "viewdir"))
        xyz = d if o["directions"] else d + part(v, "xyz")
        if o["int"]:
            xyz = np.round(xyz).astype(int)
        want, deep = reference_uv(v, m["correction"], xyz, o["directions"])
        near = np.abs(deep) < 0.5
        if m["correction"]:
            ctx.probe("corrected")
        kept = xyz.copy()
        got = self.act(lambda: self.call(lambda: cam.xyz_to_uv(xyz, directions=o["directions"], return_depth=o["depth"]), what))
        self.same(kept, xyz, what)
        if o["depth"]:
            got, gdeep = got
            if gdeep.shape != deep.shape or not np.allclose(gdeep, deep, rtol=1e-9, atol=1e-6):
                raise Violation("wrong-projection", f"{what}: depths {gdeep.tolist()} instead of {deep.tolist()}")
        if got.shape != want.shape:
            raise Violation("wrong-projection", f"{what}: {got.shape} coordinates for {n} points")
        ctx.probe("behind", int((deep < 0).any()))
        # points far from the axis are multiplied by large powers of their distance to it
        scale = 1e-8 * (1 + np.abs(want) + part(v, "imgsz").max())
        bad = ~near & ~(np.isclose(got, want, rtol=0, atol=0, equal_nan=True) | (np.abs(got - want) <= scale)).all(axis=1)
        # next to a pole of the distortion
        bad &= self.regular(v, want, deep, xyz, o["directions"], m["correction"])
        if bad.any():
            raise Violation("wrong-projection", f"{what}: {xyz[bad][:2].tolist()} are at {got[bad][:2].tolist()} instead of {want[bad][:2].tolist()}")
        # visibility
        see = self.call(lambda: cam.infront(xyz, directions=o["directions"]), what)
        flat = reference_uv(v, None, xyz, o["directions"])[1]
        ok = (see == (flat > 0)) | (np.abs(flat) < 1e-6)
        if not ok.all():
            raise Violation("wrong-test", f"{what}: infront({xyz[~ok][:2].tolist()}) is {see[~ok][:2].tolist()}")
        return (n, o["directions"], o["depth"], o["int"])

    @staticmethod
    def regular(v, want, deep, xyz, directions, correction):
        """Whether the distortion of points is far from a pole."""
        plain = v.copy()
        plain[10:20] = 0
        uv = reference_uv(plain, correction, xyz, directions)[0]
        with np.errstate(all="ignore"):
            xy = (uv - part(v, "imgsz") / 2) / part(v, "f")
            r2 = (xy**2).sum(axis=1)
            k = part(v, "k")
            lower = 1 + r2 * (k[3] + r2 * (k[4] + r2 * k[5]))
        return np.isnan(r2) | ((np.abs(lower) > 0.1) & (r2 < 1e4))

    def do_unproject(self, ctx, o, g, pairs, cam, m, what):
        v = m["v"]
        n = int(g.choice([0, 1, 2, 7]))
        xy = self.rays(g, v, n)
        if o["centre"] and n:
            axis = int(g.randint(2))
            xy[0, axis] = 0
            ctx.probe("centre-column")
        r = np.sqrt((xy**2).sum(axis=1))
        k, p = part(v, "k"), part(v, "p")
        if k[0] and not k[1:].any() and not p.any():
            good = 1 + 3 * k[0] * r**2 > 0.05
            ctx.probe("k1")
        elif k.any() or p.any():
            good = contraction(v, r) < 0.25
            ctx.probe("iterated", int(good.any()))
        else:
            good = np.ones(n, dtype=bool)
        dx, dy = distort(v, xy[:, 0], xy[:, 1])
        uv = np.column_stack((dx, dy)) * part(v, "f") + part(v, "imgsz") / 2 + part(v, "c")
        if o["centre"] and n and good[0] and abs(dx[0] if axis == 0 else dy[0]) < 1e-15:
            uv[0, axis] = part(v, "imgsz")[axis] / 2 + part(v, "c")[axis]
        depth = {None: 1.0, "scalar": float(g.uniform(0.5, 500)), "vector": g.uniform(0.5, 500, n)}[o["depth"]]
        if o["depth"] == "scalar" and o["seed"] % 3 == 0:
            depth = np.float64(depth)
        want = (np.column_stack((xy, np.ones(n))) * np.reshape(depth, (-1, 1))) @ rotation(part(v, "viewdir"))
        if not o["directions"]:
            want = want + part(v, "xyz")
        kept = uv.copy(), copy.deepcopy(depth)
        kw = {} if o["depth"] is None else {"depth": depth}
        got = self.act(lambda: self.call(lambda: cam.uv_to_xyz(uv, directions=o["directions"], **kw), what))
        self.same(kept, (uv, depth), what)
        if o["depth"] == "vector":
            ctx.probe("vector-depth")
        if got.shape != want.shape:
            raise Violation("wrong-inverse", f"{what}: {got.shape} coordinates for {n} points")
        tol = 1e-7 * (1 + np.abs(np.broadcast_to(np.reshape(depth, (-1, 1)), (n, 1))))
        bad = good & (~(np.abs(got - want) <= tol)).any(axis=1)
        if bad.any():
            raise Violation("wrong-inverse", f"{what}: rays through {uv[bad][:2].tolist()} lead to {got[bad][:2].tolist()} instead of {want[bad][:2].tolist()}")
        # and back
        ok = good & (~np.isnan(want).any(axis=1))
        if o["directions"] and ok.any():
            back = self.call(lambda: cam.xyz_to_uv(got[ok], directions=True), what)
            if not np.allclose(back, uv[ok], rtol=0, atol=1e-5 * (1 + part(v, "f").max())):
                raise Violation("wrong-inverse", f"{what}: {uv[ok][:2].tolist()} return as {back[:2].tolist()}")
        return (n, o["directions"], o["depth"], int(good.sum()))

    def do_sees(self, ctx, o, g, pairs, cam, m, what):
        """The extent of the view."""
        v = m["v"]
        if part(v, "k").any() or part(v, "p").any():
            r = np.abs(self.rays(g, v, 2)).max() + (part(v, "imgsz") / part(v, "f")).max()
            if contraction(v, r) >= 0.25:
                return "skipped"
        depth = float(g.choice([1.0, 2.0, 350.5]))
        R = rotation(part(v, "viewdir"))
        size, f, c = part(v, "imgsz"), part(v, "f"), part(v, "c")
        box = self.call(lambda: cam.viewbox(depth), what)
        poly = self.call(lambda: cam.viewpoly(depth), what)
        ideal = not part(v, "k").any() and not part(v, "p").any()
        tol = 1e-6 * (1 + depth)
        if ideal:
            corners = (np.array([(0, 0), (size[0], 0), (size[0], size[1]), (0, size[1])]) - size / 2 - c) / f
            xyz = np.vstack((part(v, "xyz"), (np.column_stack((corners, np.ones(4))) * depth) @ R + part(v, "xyz")))
            want = np.concatenate((xyz.min(axis=0), xyz.max(axis=0)))
            if box.shape != (6,) or not np.allclose(box, want, rtol=0, atol=tol):
                raise Violation("wrong-frame", f"{what}: viewbox is {box.tolist()} instead of {want.tolist()}")
        if poly.shape != (4, 3) or not np.allclose(poly[[0, 3]], part(v, "xyz")):
            raise Violation("wrong-frame", f"{what}: viewpoly is {poly.tolist()}")
        uv, deep = reference_uv(v, None, poly[1:3], False)
        want = np.array([(0, size[1] / 2 + c[1]), (size[0], size[1] / 2 + c[1])])
        if not np.allclose(uv, want, rtol=0, atol=1e-5 * (1 + f.max())) or not np.allclose(deep, depth, rtol=1e-6, atol=1e-6):
            raise Violation("wrong-frame", f"{what}: the corners of viewpoly are seen at {uv.tolist()}, depth {deep.tolist()}, instead of {want.tolist()}, depth {depth}")
        return ideal

    def do_frame(self, ctx, o, g, pairs, cam, m, what):
        size = part(m["v"], "imgsz")
        step = o["step"]
        sx, sy = step if isinstance(step, list) else (step, step)
        # grid
        got = self.call(lambda: cam.grid(step=step, mode=o["mode"]), what)
        x = np.array([q for q in 0.5 % sx + sx * np.arange(int(size[0] / sx) + 2) if q <= size[0]])
        y = np.array([q for q in 0.5 % sy + sy * np.arange(int(size[1] / sy) + 2) if q <= size[1]])
        want = {"vectors": (x, y), "grids": tuple(np.meshgrid(x, y)), "points": np.array([(a, b) for b in y for a in x]).reshape(-1, 2)}[o["mode"]]
        for a, b in zip(got, want) if o["mode"] != "points" else [(got, want)]:
            if np.shape(a) != np.shape(b) or not np.allclose(a, b):
                raise Violation("wrong-frame", f"{what}: grid(step={step}, mode={o['mode']}) of {size.tolist()} pixels is {np.asarray(a).tolist()} instead of {np.asarray(b).tolist()}"[:600])
        # edges
        if size[0] % sx == 0 and size[1] % sy == 0:
            got = self.call(lambda: cam.edges(step=step), what)
            u, w = np.arange(0, size[0] + sx / 2, sx), np.arange(0, size[1] + sy / 2, sy)
            want = [(a, 0) for a in u] + [(size[0], b) for b in w[1:-1]] + [(a, size[1]) for a in u[::-1]] + [(0, b) for b in w[::-1][1:-1]]
            if got.shape != (len(want), 2) or not np.allclose(got, want):
                raise Violation("wrong-frame", f"{what}: edges(step={step}) of {size.tolist()} pixels is {got.tolist()} instead of {want}"[:600])
        uv = np.vstack((g.uniform(-0.5, 1.5, (5, 2)) * size, [(0, 0), size, (size[0], 0), (-1e-9, 0), (np.nan, 1)]))
        got = self.call(lambda: cam.inframe(uv), what)
        want = [bool(0 <= a <= size[0] and 0 <= b <= size[1]) for a, b in uv]
        if list(got) != want:
            raise Violation("wrong-test", f"{what}: inframe({uv.tolist()}) is {list(got)}")
        return (str(step), o["mode"])

    def do_raster(self, ctx, o, g, pairs, cam, m, what):
        nx, ny = part(m["v"], "imgsz").astype(int)
        n = int(g.choice([1, 3, 12]))
        uv = g.uniform(-0.1, 1.1, (n, 2)) * (nx, ny)
        if o["edge"]:
            ctx.probe("on-edge")
            uv[0] = [(nx, ny), (nx, 0.5), (0.5, ny), (0, 0)][o["seed"] % 4]
        if n > 2:
            uv[1] = uv[2]
        values = g.uniform(-10, 10, (n, o["bands"])) if o["bands"] else g.uniform(-10, 10, n)
        kept = uv.copy(), values.copy()
        got = self.act(lambda: self.call(lambda: cam.rasterize(uv, values), what))
        self.same(kept, (uv, values), what)
        if o["bands"] > 1:
            ctx.probe("layers")
        if got.shape[:2] != (ny, nx) or got.size != nx * ny * max(1, o["bands"]):
            raise Violation("wrong-raster", f"{what}: {got.shape} for {nx} x {ny} pixels and values {values.shape}")
        got = got.reshape(ny, nx, -1)
        cells = {}
        for (a, b), z in zip(uv, values.reshape(n, -1)):
            if 0 <= a <= nx and 0 <= b <= ny:
                cells.setdefault((min(int(b), ny - 1), min(int(a), nx - 1)), []).append(z)
        want = np.full(got.shape, np.nan)
        for rc, z in cells.items():
            want[rc] = np.mean(z, axis=0)
        if not np.allclose(got, want, equal_nan=True):
            raise Violation("wrong-raster", f"{what}: points {uv.tolist()} with values {values.tolist()} become {got.tolist()}"[:600])
        return (n, o["bands"], o["edge"])

    def do_spherical(self, ctx, o, g, pairs, cam, m, what):
        n = int(g.choice([0, 1, 5]))
        columns = 2 + o["seed"] % 2
        angles = np.column_stack((g.uniform(-360, 720, n), g.uniform(-89.9, 89.9, n), g.uniform(0.1, 1000, n)))[:, :columns]
        az, al = np.radians(angles[:, 0]), np.radians(angles[:, 1])
        want = np.column_stack((np.sin(az) * np.cos(al), np.cos(az) * np.cos(al), np.sin(al)))
        if columns == 3:
            want = want * angles[:, 2:] + part(m["v"], "xyz")
        kept = angles.copy()
        got = self.call(lambda: cam.spherical_to_xyz(angles), what)
        self.same(kept, angles, what)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-9):
            raise Violation("wrong-spherical", f"{what}: {angles.tolist()} lead to {got.tolist()} instead of {want.tolist()}")
        kept = got.copy()
        back = self.call(lambda: cam.xyz_to_spherical(got, directions=columns == 2), what)
        self.same(kept, got, what)
        turn = np.abs((back[:, 0] - angles[:, 0] + 180) % 360 - 180)
        far = 1e-5 * (1 + np.abs(part(m["v"], "xyz")).max() * 1e-3)
        if back.shape != angles.shape or not (turn * np.cos(al) <= 1e-3).all() or not np.allclose(back[:, 1:], angles[:, 1:], atol=max(1e-4, far), rtol=1e-6):
            raise Violation("wrong-spherical", f"{what}: {angles.tolist()} return as {back.tolist()}")
        return (n, columns)

    def do_derivative(self, ctx, o, g, pairs, cam, m, what):
        v = part(m["v"], "viewdir")
        R = self.call(lambda: cam.R, what)
        if not np.allclose(R, rotation(v), atol=1e-12):
            raise Violation("wrong-rotation", f"{what}: R is {R.tolist()} for {v.tolist()}")
        got = self.call(lambda: cam.Rprime, what)
        for axis in range(3):
            h = np.zeros(3)
            h[axis] = 1e-3
            want = (rotation(v + h) - rotation(v - h)) / 2e-3
            mine = got[:, axis, :] if got.shape == (3, 3, 3) else None
            if mine is None or not np.allclose(mine.T, want, atol=1e-9):
                raise Violation("wrong-derivative", f"{what}: derivative {axis} of R at {v.tolist()} is {None if mine is None else mine.T.tolist()} instead of {want.tolist()}")
        return None

    def do_reversible(self, ctx, o, g, pairs, cam, m, what):
        v = m["v"]
        want, sure = True, True
        for axis in range(2):
            n = int(part(v, "imgsz")[axis])
            xy = np.zeros((n, 2))
            half = part(v, "imgsz")[axis] / (2 * part(v, "f")[axis])
            xy[:, axis] = np.linspace(-half, half, n)
            step = np.diff(distort(v, xy[:, 0], xy[:, 1])[axis])
            want = want and bool((step >= 0).all())
            sure = sure and bool((np.abs(step) > 1e-12).all())
        got = self.call(cam.reversible, what)
        if sure and bool(got) != want:
            raise Violation("wrong-test", f"{what}: reversible is {got} for {v.tolist()}")
        return want

    def do_refuse(self, ctx, o, g, pairs, cam, m, what):
        """Contradictory parameters make no camera."""
        from glimpse import Camera

        bad = [{"imgsz": 10}, {"imgsz": 10, "fmm": 8}, {"imgsz": 10, "f": 8, "cmm": 0.1}, {"imgsz": 10, "f": 8, "fmm": 8, "sensorsz": 8}, {"imgsz": (10, 9.5), "f": 8},
               {"imgsz": 10, "f": 8, "c": 0.1, "cmm": 0.1, "sensorsz": (8, 6)}, {"imgsz": 10, "sensorsz": 8}][int(g.randint(7))]
        ctx.fault("refused-value")
        try:
            Camera(**bad)
        except ValueError:
            return str(bad)
        except Exception as e:
            raise Violation("raised", f"{what}: Camera({bad}): {e!r}") from e
        raise Violation("accepted", f"{what}: Camera({bad})")

    # ---- minimiser ----

    def shrink(self, plan):
        ops = plan["ops"]
        for size in (8, 4, 2, 1):
            for i in range(0, len(ops), size):
                if len(ops) > size:
                    yield {**plan, "ops": ops[:i] + ops[i + size:]}
        if len(plan["cams"]) > 1:
            yield {**plan, "cams": plan["cams"][:1]}
            yield {**plan, "cams": plan["cams"][1:]}
        for i, c in enumerate(plan["cams"]):
            for k, v in {"mm": None, "c": None, "k": [0.0] * 6, "p": None, "xyz": [0, 0, 0], "viewdir": [0, 0, 0], "correction": False, "square": True, "imgsz": [10, 10], "f": 10.0}.items():
                if c[k] != v:
                    yield {**plan, "cams": plan["cams"][:i] + [{**c, k: v}] + plan["cams"][i + 1:]}
        for i, o in enumerate(ops):
            for k, v in {"cut": None, "matmul": False, "form": "array", "attrs": None, "override": None}.items():
                if k in o and o[k] != v:
                    yield {**plan, "ops": ops[:i] + [{**o, k: v}] + ops[i + 1:]}


CHECK = C24()
