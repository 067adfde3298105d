"""C25: converted cameras project like the originals."""
import copy
import os

import numpy as np
import scipy.optimize

from checks import c24
from sim import worlds
from sim.check import Check
from sim.core import HarnessError, Violation, digest
from sim.interrupt import LineInterrupt

TYPES = ["Agisoft", "Matlab", "OpenCV", "PhotoModeler"]
ATTRS = {
    "Agisoft": ["f", "cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2"],
    "Matlab": ["fc", "cc", "kc", "alpha_c"],
    "OpenCV": ["fx", "fy", "cx", "cy", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s1", "s2", "s3", "s4"],
    "PhotoModeler": ["focal", "xp", "yp", "fw", "fh", "k1", "k2", "k3", "p1", "p2"],
}
LENGTH = {"fc": 2, "cc": 2, "kc": 5}
CAM = {"f": 2, "c": 2, "k": 6, "p": 2}
part = c24.part


# ---- the other models, by their documentation ----


def get(x, name):
    return np.atleast_1d(np.asarray(x[name], dtype=float))


def other_uv(kind, x, n, xy):
    """Image coordinates of camera coordinates in a model whose distortion is incoming."""
    X, Y = xy[:, 0], xy[:, 1]
    r2 = X * X + Y * Y
    if kind == "Agisoft":
        radial = 1 + x["k1"] * r2 + x["k2"] * r2**2 + x["k3"] * r2**3 + x["k4"] * r2**4
        u = X * radial + x["p1"] * (r2 + 2 * X * X) + 2 * x["p2"] * X * Y
        v = Y * radial + x["p2"] * (r2 + 2 * Y * Y) + 2 * x["p1"] * X * Y
        return np.column_stack((n[0] / 2 + x["cx"] + u * (x["f"] + x["b1"]) + v * x["b2"], n[1] / 2 + x["cy"] + v * x["f"]))
    if kind == "Matlab":
        k = x["kc"]
        radial = 1 + k[0] * r2 + k[1] * r2**2 + k[4] * r2**3
        u = X * radial + 2 * k[2] * X * Y + k[3] * (r2 + 2 * X * X)
        v = Y * radial + k[2] * (r2 + 2 * Y * Y) + 2 * k[3] * X * Y
        # the center of the first pixel is at zero
        return np.column_stack((x["fc"][0] * (u + x["alpha_c"] * v) + x["cc"][0] + 0.5, x["fc"][1] * v + x["cc"][1] + 0.5))
    import cv2

    matrix = np.array([[x["fx"], 0, x["cx"]], [0, x["fy"], x["cy"]], [0, 0, 1]], dtype=float)
    coeffs = np.array([x[k] for k in ("k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4")], dtype=float)
    if not len(xy):
        return np.zeros((0, 2))
    return cv2.projectPoints(np.column_stack((xy, np.ones(len(xy)))).reshape(-1, 1, 3), np.zeros(3), np.zeros(3), matrix, coeffs)[0].reshape(-1, 2)


def photomodeler_xy(x, n, uv):
    """Camera coordinates of image coordinates (photo space: millimetres, y up)."""
    X = uv[:, 0] * x["fw"] / n[0] - x["xp"]
    Y = -(uv[:, 1] * x["fh"] / n[1] - x["yp"])
    r2 = X * X + Y * Y
    radial = x["k1"] * r2 + x["k2"] * r2**2 + x["k3"] * r2**3
    dx = X * radial + x["p1"] * (r2 + 2 * X * X) + 2 * x["p2"] * X * Y
    dy = Y * radial + x["p2"] * (r2 + 2 * Y * Y) + 2 * x["p1"] * X * Y
    return np.column_stack(((X + dx) / x["focal"], -(Y + dy) / x["focal"]))


def cam_uv(v, xy):
    x, y = c24.distort(v, xy[:, 0], xy[:, 1])
    return np.column_stack((x, y)) * part(v, "f") + part(v, "imgsz") / 2 + part(v, "c")


def cam_xy(v, uv):
    d = (uv - part(v, "imgsz") / 2 - part(v, "c")) / part(v, "f")
    xy = d.copy()
    for _ in range(80):
        xy = xy - (np.column_stack(c24.distort(v, xy[:, 0], xy[:, 1])) - d)
    return xy


def residuals(kind, x, n, v, uv):
    if kind == "PhotoModeler":
        return cam_uv(v, photomodeler_xy(x, n, uv)) - uv
    xy = cam_xy(v, uv)
    return cam_uv(v, xy) - other_uv(kind, x, n, xy)


class C25(Check):
    id = "C25"
    quick = (5000, 75)
    thorough = (200000, 840)
    rule = (
        "A run applies 2-7 conversions between a camera and Agisoft, Matlab, OpenCV and PhotoModeler models - exact, with the default "
        "or chosen parameters optimised, read from files, or in a converter used again - with interrupts at any line, and compares "
        "parameters and image coordinates with independent models; runs are distinct by event log."
    )
    measure = "distinct (conversion, model, exactness, optimised parameters, points, outcome)"
    real = ["Agisoft, Matlab, OpenCV, PhotoModeler", "Converter", "Camera", "scipy.optimize"]
    stubs = []
    assumptions = ["distortions weak enough to be inverted"]
    expect_probes = tuple(TYPES) + ("to", "from", "converter", "file", "exact", "optimised", "chosen", "interrupted", "restored", "index", "again", "missing-file")

    def gen(self, r, tier):
        n = r.choice([[40, 30], [64, 48], [17, 40], [800, 536], [r.randint(5, 200), r.randint(5, 200)]])
        f = max(n) * r.uniform(0.8, 2)

        def pair(scale):
            x = [some(scale), some(scale)]
            return x if r.random() < 0.8 else [x[0], -x[0]]

        def some(scale, zero=0.5):
            return 0.0 if r.random() < zero else r.uniform(-scale, scale)

        ops = []
        for _ in range(r.randint(2, 7)):
            kind = r.choice(TYPES)
            o = {"op": r.choice(["to", "to", "from", "from", "converter", "converter", "file"]), "type": kind, "seed": r.randrange(10**6),
                 "optimize": r.choice([True, True, True, False, "chosen", "chosen"]), "uv": r.choice([25, 25, 60, 1, "array", "point"]),
                 "cut": int(4000 ** r.random()) if r.random() < 0.25 else None, "steps": r.randint(1, 3), "rational": r.random() < 0.4,
                 "exact": r.random() < 0.4, "plain": r.random() < 0.3, "square": r.random() < 0.3}
            ops.append(o)
        return {"imgsz": n, "f": f, "aspect": r.choice([1.0, 1.0, r.uniform(0.9, 1.1)]), "c": [some(0.03) * n[0], some(0.03) * n[1]],
                "k": [some(0.05), some(0.03), some(0.01), 0.0, 0.0, 0.0], "k46": [some(0.02), some(0.02), some(0.02)], "p": pair(0.005),
                "sensorsz": [23.6, 23.6 * n[1] / n[0] * r.choice([1.0, 1.0, 1.02])], "ops": ops}

    def run(self, plan, ctx):
        for number, o in enumerate(plan["ops"]):
            what = f"operation {number} ({o['op']} {o['type']})"
            ctx.probe(o["op"])
            ctx.probe(o["type"])
            g = worlds.rng(o["seed"], "op")
            self.cut = None if o["cut"] is None else LineInterrupt(ctx, o["cut"])
            out = getattr(self, "do_" + o["op"])(ctx, plan, o, g, what)
            ctx.log(what, out)
            ctx.state((o["op"], o["type"], o["optimize"], str(o["uv"]), out))

    # ---- building ----

    def camera(self, plan, o):
        from glimpse import Camera

        k = list(plan["k"])
        if o["rational"]:
            k[3:] = plan["k46"]
        if o["exact"]:
            k[3:] = [0, 0, 0]
        p = plan["p"]
        f = np.array([plan["f"], plan["f"] * plan["aspect"]])
        s = np.array(plan["sensorsz"])
        if o["type"] == "PhotoModeler" and (o["exact"] or o["square"]):
            f[1] = f[0] / plan["imgsz"][0] * s[0] / s[1] * plan["imgsz"][1]
            if o["exact"]:
                k, p = [0] * 6, [0, 0]
        return Camera(imgsz=plan["imgsz"], f=f, c=plan["c"], k=k, p=p, sensorsz=plan["sensorsz"], xyz=(1, 2, 3), viewdir=(4, 5, 6))

    def params(self, plan, o, g):
        """Parameters of another model, its deviations from a camera switched on or off."""
        kind, n, f = o["type"], plan["imgsz"], plan["f"]
        k, p, c = plan["k"], plan["p"], plan["c"]
        odd = not o["exact"]
        if o["plain"]:
            c = [0, 0]

        def on(scale):
            return float(g.uniform(-scale, scale)) if odd and g.uniform() < 0.6 else 0.0

        def opposite(a, b):
            return {"p1": a, "p2": b if o["seed"] % 3 else -a}

        if kind == "Agisoft":
            return {"f": f, "cx": c[0], "cy": c[1], "k1": k[0], "k2": k[1], "k3": k[2], "k4": on(0.01), "p1": p[0], "p2": p[1], "b1": f * (plan["aspect"] - 1), "b2": on(0.01) * f}
        if kind == "Matlab":
            return {"fc": (f, f * plan["aspect"]), "cc": (c[0] + n[0] / 2 - 0.5, c[1] + n[1] / 2 - 0.5), "kc": (k[0], k[1], p[0], p[1], k[2]), "alpha_c": on(0.01)}
        if kind == "OpenCV":
            q = plan["k46"]
            return {"fx": f, "fy": f * plan["aspect"], "cx": c[0] + n[0] / 2, "cy": c[1] + n[1] / 2, "k1": k[0], "k2": k[1], "k3": k[2], "k4": q[0], "k5": q[1], "k6": q[2],
                    "p1": p[0], "p2": p[1], "s1": on(0.003), "s2": on(0.003), "s3": on(0.003), "s4": on(0.003)}
        s = plan["sensorsz"]
        focal = f * s[0] / n[0]
        return {"focal": focal, "xp": s[0] / 2 + c[0] * s[0] / n[0], "yp": s[1] / 2 + c[1] * s[1] / n[1], "fw": s[0], "fh": s[1],
                "k1": on(0.05) / focal**2, "k2": on(0.02) / focal**4, "k3": on(0.01) / focal**6, **opposite(on(0.004) / focal, on(0.004) / focal)}

    def other(self, plan, o, g):
        from glimpse.convert import cameras as convert

        x = self.params(plan, o, g)
        kw = copy.deepcopy(x)
        if o["plain"]:
            # left to their defaults
            kw = {a: z for a, z in kw.items() if np.any(z) or a in ("focal", "xp", "yp", "fw", "fh")}
            for a in ("cx", "cy", "cc"):
                kw.pop(a, None)
        return getattr(convert, o["type"])(imgsz=tuple(plan["imgsz"]), **kw), x

    def read(self, kind, xcam):
        return {a: tuple(float(z) for z in getattr(xcam, a)) if a in LENGTH else float(getattr(xcam, a)) for a in ATTRS[kind]}

    def points(self, plan, o, g):
        n = np.array(plan["imgsz"])
        if o["uv"] == "array":
            return g.uniform(0, 1, (12, 2)) * n
        if o["uv"] == "point":
            return np.array([0.3, 0.6]) * n
        return o["uv"]

    def grid(self, plan, uv):
        """The points meant by a number of points: evenly spaced, half the spacing away from the edges."""
        if not isinstance(uv, int):
            return np.atleast_2d(uv)
        n = plan["imgsz"]
        d = (n[0] * n[1] / uv) ** 0.5
        m = [max(1, round(q / d)) for q in n]
        x, y = ((np.arange(m[i]) + 0.5) * n[i] / m[i] for i in range(2))
        return np.array([(a, b) for b in y for a in x])

    def choose(self, g, sizes):
        """Parameters to optimise in one of the documented formats, and the elements meant."""
        names = [list(sizes)[i] for i in g.permutation(len(sizes))[: g.randint(1, 3)]]
        given, meant = {}, {}
        for name in names:
            n = sizes[name]
            how = g.randint(4)
            i = int(g.randint(n))
            given[name] = True if how == 0 else i if how == 1 else [i] if how == 2 else sorted(int(q) for q in g.permutation(n)[: g.randint(1, n + 1)])
            meant[name] = list(range(n)) if how == 0 else [i] if how < 3 else given[name]
        return given, meant

    # ---- conversions ----

    def attempt(self, ctx, f, what, few=False):
        """Result of a conversion, or None if it was interrupted."""
        try:
            if self.cut is None:
                return f()
            with self.cut:
                return f()
        except KeyboardInterrupt:
            if self.cut is None or not self.cut.fired:
                raise
            ctx.probe("interrupted")
            return None
        except (Violation, HarnessError):
            raise
        except ValueError as e:
            if "infs or NaNs" in str(e) and few:
                # too few points to keep the trial parameters in reason
                return None
            raise Violation("raised", f"{what}: {e!r}") from e
        except Exception as e:
            raise Violation("raised", f"{what}: {e!r}") from e

    def invertible(self, plan, v):
        half = np.array(plan["imgsz"]) / 2 + np.abs(part(v, "c"))
        r = np.sqrt(((half / part(v, "f")) ** 2).sum())
        return c24.contraction(v, r) < 0.3

    def cost(self, plan, kind, x, v, uv):
        return float((residuals(kind, x, plan["imgsz"], v, uv) ** 2).sum())

    def judge(self, ctx, plan, kind, what, uv, start, end, meant, side):
        """The parameters of one side moved from start to end, optimising only the elements meant."""
        before, after = self.cost(plan, kind, *start, uv), self.cost(plan, kind, *end, uv)
        if not after <= before * (1 + 1e-6) + 1e-9 * len(uv):
            raise Violation("worse-fit", f"{what}: the sum of squared residuals is {after} after optimising {meant}, {before} before")
        x0, x1 = start[0], end[0]
        v0, v1 = start[1], end[1]
        if side == "cam":
            free = np.zeros(20, dtype=bool)
            for name, idx in meant.items():
                free[[c24.FIELDS[name][0] + i for i in idx]] = True
            if not np.array_equal(v0[~free], v1[~free]):
                raise Violation("wrong-parameters", f"{what}: optimising {meant} changed {v0.tolist()} to {v1.tolist()}")

            def put(z):
                v = v0.copy()
                v[free] = z
                return residuals(kind, x0, plan["imgsz"], v, uv).ravel()

            z0, z1 = v0[free], v1[free]
        else:
            for name in ATTRS[kind]:
                fixed = [i for i in range(LENGTH.get(name, 1)) if i not in meant.get(name, [])]
                if not np.array_equal(get(x0, name)[fixed], get(x1, name)[fixed]):
                    raise Violation("wrong-parameters", f"{what}: optimising {meant} changed {name} from {x0[name]} to {x1[name]}")

            def put(z):
                x, i = copy.deepcopy(x0), 0
                for name, idx in meant.items():
                    q = get(x, name).copy()
                    q[idx] = z[i: i + len(idx)]
                    i += len(idx)
                    x[name] = tuple(q) if name in LENGTH else float(q[0])
                return residuals(kind, x, plan["imgsz"], v0, uv).ravel()

            z0 = np.concatenate([get(x0, name)[idx] for name, idx in meant.items()])
            z1 = np.concatenate([get(x1, name)[idx] for name, idx in meant.items()])
        if len(uv) < 2 * len(z0) or kind == "PhotoModeler" and len(z0) > 4:
            # underdetermined, or coefficients of such different sizes that the optimisation may stop on the way
            return
        # not further away than changes of coefficients which barely matter would get
        reach = np.maximum(1, np.abs(z0)) / 2
        fit = scipy.optimize.least_squares(put, z0, bounds=(z0 - reach, z0 + reach))
        # nor better than the way taken without limits, which can end in another minimum
        best = max(float((q.fun**2).sum()) for q in (fit, scipy.optimize.least_squares(put, z0)))
        # within a few hundredths of a pixel of what the same optimisation reaches in the independent model
        if after**0.5 > best**0.5 * 1.05 + 0.03 * len(uv) ** 0.5:
            raise Violation("poor-fit", f"{what}: the sum of squared residuals is {after} after optimising {meant}, although {best} is in reach ({before} before), with {fit.x.tolist()} instead of {z1.tolist()} from {z0.tolist()}, {len(uv)} points")
        ctx.probe("optimised")

    def do_to(self, ctx, plan, o, g, what):
        kind = o["type"]
        xcam, x = self.other(plan, o, g)
        uv = self.points(plan, o, g)
        points = self.grid(plan, uv)
        initial = self.read(kind, xcam)
        if kind == "Agisoft":
            odd = {**({"k": range(6)} if x["k4"] else {}), **({"f": range(2), "c": range(2), "k": range(6)} if x["b2"] else {})}
        elif kind == "Matlab":
            odd = {"f": range(2), "c": range(2), "k": range(6), "p": range(2)} if x["alpha_c"] else {}
        elif kind == "OpenCV":
            odd = {"k": range(6), "p": range(2)} if any(x["s%d" % i] for i in range(1, 5)) else {}
        else:
            odd = {**({"k": range(6)} if any(x["k%d" % i] for i in range(1, 4)) else {}), **({"p": range(2)} if x["p1"] or x["p2"] else {})}
        given, meant = o["optimize"], {k: list(i) for k, i in odd.items()}
        if given == "chosen":
            given, meant = self.choose(g, CAM)
            ctx.probe("chosen")
            if any(isinstance(i, int) and i is not True for i in given.values()):
                ctx.probe("index")
        kept = copy.deepcopy((given, uv))
        cam = self.attempt(ctx, lambda: xcam.to_camera(optimize=given, uv=uv), what, len(points) < 6)
        if digest(kept) != digest((given, uv)):
            raise Violation("argument-changed", f"{what}: arguments {kept} became {(given, uv)}")
        if self.read(kind, xcam) != initial:
            raise Violation("original-changed", f"{what}: {initial} became {self.read(kind, xcam)}")
        if cam is None:
            return "interrupted"
        v = cam.to_array()
        if not np.array_equal(v[:6], np.zeros(6)) or not np.array_equal(v[6:8], plan["imgsz"]):
            raise Violation("wrong-parameters", f"{what}: {v[:8].tolist()}")
        if kind == "PhotoModeler" and not np.allclose(cam.sensorsz, (x["fw"], x["fh"])):
            raise Violation("wrong-parameters", f"{what}: sensor {cam.sensorsz}")
        again = getattr(type(xcam)(imgsz=tuple(plan["imgsz"]), **x), "to_camera")(optimize=False).to_array()
        if not odd or not given:
            if not np.array_equal(v, again):
                raise Violation("wrong-parameters", f"{what}: {v.tolist()} instead of {again.tolist()}")
        if not self.invertible(plan, v) or not self.invertible(plan, again):
            return "skipped"
        if not odd:
            ctx.probe("exact")
            got = residuals(kind, x, plan["imgsz"], v, points)
            if not np.abs(got).max() < 1e-6 * max(plan["imgsz"]):
                raise Violation("not-exact", f"{what}: residuals up to {np.abs(got).max()} pixels for {x}, camera {v.tolist()}")
            return "exact"
        if given:
            self.judge(ctx, plan, kind, what, points, (x, again), (x, v), meant, "cam")
            return tuple(sorted(meant))
        return "initial"

    def do_from(self, ctx, plan, o, g, what):
        from glimpse.convert import cameras as convert

        kind = o["type"]
        cam = self.camera(plan, o)
        v = cam.to_array()
        uv = self.points(plan, o, g)
        points = self.grid(plan, uv)
        rational = bool((part(v, "k")[3:] != 0).any())
        if kind in ("Agisoft", "Matlab"):
            odd = ({"k1": [0], "k2": [0], "k3": [0]} if kind == "Agisoft" else {"kc": list(range(5))}) if rational else {}
        elif kind == "OpenCV":
            odd = {}
        else:
            odd = {n: [0] for n in ("focal", "fw", "fh", "xp", "yp")} if cam.fmm[0] != cam.fmm[1] else {}
            odd.update({n: [0] for n in ("k1", "k2", "k3")} if part(v, "k").any() else {})
            odd.update({n: [0] for n in ("p1", "p2")} if part(v, "p").any() else {})
        given, meant = o["optimize"], odd
        if given == "chosen":
            given, meant = self.choose(g, {a: LENGTH.get(a, 1) for a in ATTRS[kind]})
            ctx.probe("chosen")
        kept = copy.deepcopy((given, uv))
        cls = getattr(convert, kind)
        kw = {} if kind == "OpenCV" else {"optimize": given, "uv": uv}
        xcam = self.attempt(ctx, lambda: cls.from_camera(cam, **kw), what, len(points) < 6)
        if digest(kept) != digest((given, uv)):
            raise Violation("argument-changed", f"{what}: arguments {kept} became {(given, uv)}")
        if not np.array_equal(cam.to_array(), v) or not np.array_equal(cam.sensorsz, plan["sensorsz"]):
            raise Violation("original-changed", f"{what}: {v.tolist()} became {cam.to_array().tolist()}")
        if xcam is None:
            return "interrupted"
        if tuple(xcam.imgsz) != tuple(plan["imgsz"]):
            raise Violation("wrong-parameters", f"{what}: image size {xcam.imgsz}")
        x = self.read(kind, xcam)
        again = self.read(kind, cls.from_camera(cam) if kind == "OpenCV" else cls.from_camera(cam, optimize=False))
        if not odd or not given or kind == "OpenCV":
            if x != again:
                raise Violation("wrong-parameters", f"{what}: {x} instead of {again}")
        if not self.invertible(plan, v):
            return "skipped"
        if not odd:
            ctx.probe("exact")
            got = residuals(kind, x, plan["imgsz"], v, points)
            if not np.abs(got).max() < 1e-6 * max(plan["imgsz"]):
                raise Violation("not-exact", f"{what}: residuals up to {np.abs(got).max()} pixels for camera {v.tolist()}, {x}")
            return "exact"
        if given:
            self.judge(ctx, plan, kind, what, points, (again, v), (x, v), meant, "xcam")
            return tuple(sorted(meant))
        return "initial"

    def do_converter(self, ctx, plan, o, g, what):
        from glimpse.convert.converter import Converter

        kind = o["type"]
        xcam, x = self.other(plan, o, g)
        cam = self.camera(plan, o)
        uv = self.points(plan, o, g)
        points = self.grid(plan, uv)
        conv = self.attempt(ctx, lambda: Converter(xcam, cam, uv), what)
        if conv is None:
            return "interrupted"
        told = []
        for step in range(o["steps"]):
            if step:
                ctx.probe("again")
            v, x = cam.to_array(), self.read(kind, xcam)
            here = f"{what}, step {step}"
            sure = self.invertible(plan, v)
            if sure:
                got = self.attempt(ctx, conv.residuals, here)
                if got is not None:
                    want = residuals(kind, x, plan["imgsz"], v, points)
                    if np.shape(got) != want.shape or not np.allclose(got, want, rtol=0, atol=1e-5 * max(plan["imgsz"])):
                        raise Violation("wrong-residuals", f"{here}: {np.asarray(got)[:3].tolist()} instead of {want[:3].tolist()}")
            side = ("cam", "xcam")[g.randint(2)]
            given, meant = self.choose(g, CAM if side == "cam" else {a: LENGTH.get(a, 1) for a in ATTRS[kind]})
            if any(isinstance(i, int) and i is not True for i in given.values()):
                ctx.probe("index")
            fired = self.cut is not None and self.cut.fired
            out = self.attempt(ctx, lambda: (getattr(conv, "optimize_" + side)(given), "done"), here, len(points) < 6)
            if side == "cam" and self.read(kind, xcam) != x or side == "xcam" and not np.array_equal(cam.to_array(), v):
                raise Violation("original-changed", f"{here}: optimize_{side}({given}) changed the other camera")
            if out is None and not fired:
                ctx.probe("restored")
                if self.read(kind, xcam) != x or not np.array_equal(cam.to_array(), v):
                    now = [cam.to_array().tolist(), self.read(kind, xcam)]
                    # interrupted just after the result was applied
                    if self.cost(plan, kind, now[1], np.array(now[0]), points) > self.cost(plan, kind, x, v, points) * (1 + 1e-6) + 1e-9 or self.cut.lines < 40:
                        raise Violation("half-done", f"{here}: optimize_{side}({given}) was interrupted and left {now} instead of {[v.tolist(), x]}")
                return tuple(told) + ("interrupted",)
            elif sure and self.invertible(plan, cam.to_array()):
                self.judge(ctx, plan, kind, f"{here}, optimize_{side}({given})", points, (x, v), (self.read(kind, xcam), cam.to_array()), meant, side)
            told.append(side)
        return tuple(told)

    def do_file(self, ctx, plan, o, g, what):
        from glimpse.convert import cameras as convert

        kind = o["type"]
        x = self.params(plan, o, g)
        n = plan["imgsz"]
        cls = getattr(convert, kind)
        path = os.path.join(ctx.scratch, "report")
        sigmas = bool(o["seed"] % 2)
        width = int(g.randint(3, 17))

        def s(value):
            return "%.*e" % (width, value)

        def t(value):
            return float(s(value))

        if kind == "Agisoft":
            left_out = set(ATTRS[kind][int(g.randint(1, 11))] for _ in range(g.randint(3)))
            text = "<?xml version=\"1.0\"?>\n<calibration>\n<projection>frame</projection>\n<width>%d</width>\n<height>%d</height>\n" % tuple(n)
            text += "".join(f"<{a}>{s(x[a])}</{a}>\n" for a in ATTRS[kind] if a not in left_out) + "<date>2020-05-06T21:47:42Z</date>\n</calibration>\n"
            want = {a: 0.0 if a in left_out else t(x[a]) for a in ATTRS[kind]}
            read = lambda: cls.from_xml(path)
        elif kind == "Matlab":
            err = {a: tuple(np.abs(np.atleast_1d(x[a])) * 0.01) for a in ATTRS[kind]}

            def line(name, value):
                value = np.atleast_1d(value)
                return f"{name} = {s(value[0])};\n" if len(value) == 1 else f"{name} = [ {' ; '.join(s(q) for q in value)} ];\n"

            text = "% Parameters\n" + "".join(f"\n%-- {a}:\n" + line(a, x[a]) for a in ATTRS[kind]) + "".join(f"\n%-- {a} uncertainty:\n" + line(a + "_error", err[a]) for a in ATTRS[kind])
            text += "\n%%-- Image size:\nnx = %d;\nny = %d;\n" % tuple(n)
            src = err if sigmas else x
            want = {a: tuple(t(q) / (3 if sigmas else 1) for q in np.atleast_1d(src[a])) for a in ATTRS[kind]}
            want["alpha_c"] = want["alpha_c"][0]
            read = lambda: cls.from_report(path, sigmas=sigmas)
        elif kind == "OpenCV":
            m = [x["fx"], 0, x["cx"], 0, x["fy"], x["cy"], 0, 0, 1]
            keys = ["k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4"][: int(g.choice([4, 5, 8, 12]))]
            text = "<?xml version=\"1.0\"?>\n<opencv_storage>\n<camera_matrix type_id=\"opencv-matrix\"><rows>3</rows><cols>3</cols><dt>d</dt>\n<data>\n" + " ".join(s(q) for q in m)
            text += "</data></camera_matrix>\n<distortion_coefficients type_id=\"opencv-matrix\"><data>\n" + "\n ".join(s(x[k]) for k in keys) + "</data></distortion_coefficients>\n</opencv_storage>\n"
            want = {a: 0.0 for a in ATTRS[kind]}
            want.update({k: t(x[k]) for k in keys + ["fx", "fy", "cx", "cy"]})
            read = lambda: cls.from_xml(path, imgsz=tuple(n))
        else:
            label = {"focal": ("Focal Length", "Focal", " mm"), "xp": ("Xp - principal point x", "Xp", " mm"), "yp": ("Yp - principal point y", "Yp", " mm"), "fw": ("Fw - format width", "Fw", " mm"),
                     "fh": ("Fh - format height", "Fh", " mm"), "k1": ("K1 - radial distortion 1", "K1", ""), "k2": ("K2 - radial distortion 2", "K2", ""), "k3": ("K3 - radial distortion 3", "K3", ""),
                     "p1": ("P1 - decentering distortion 1", "P1", ""), "p2": ("P2 - decentering distortion 2", "P2", "")}
            text, want = "Camera Calibration\n", {}
            for a in ATTRS[kind]:
                name, short, unit = label[a]
                text += f"            {name}\n               Value: {s(x[a])}{unit}\n"
                sure = a not in ("fh", "k3")
                if sure:
                    text += f"               Deviation: {short}: {s(abs(x[a]) / 100)}{unit}\n"
                want[a] = t(x[a]) if not sigmas else t(abs(x[a]) / 100) if sure else 0.0
            text += "\nQuality\n"
            read = lambda: cls.from_report(path, imgsz=tuple(n), sigmas=sigmas)
        if g.uniform() < 0.15:
            ctx.probe("missing-file")
            ctx.fault("missing-file")
            if os.path.exists(path):
                os.remove(path)
            try:
                read()
            except OSError:
                return "missing"
            raise Violation("accepted", f"{what}: a missing file")
        with open(path, "w") as f:
            f.write(text)
        xcam = self.attempt(ctx, read, what)
        if xcam is None:
            return "interrupted"
        got = self.read(kind, xcam)
        for a in ATTRS[kind]:
            if not np.allclose(get(got, a), get(want, a), rtol=1e-12, atol=0):
                raise Violation("wrong-file-values", f"{what}: {a} is {got[a]} instead of {want[a]} (sigmas {sigmas})")
        size = (0, 0) if kind == "Matlab" and sigmas else tuple(n)
        if tuple(xcam.imgsz) != size:
            raise Violation("wrong-file-values", f"{what}: image size {xcam.imgsz} instead of {size}")
        if kind == "OpenCV":
            if not np.allclose(np.array(xcam.cameraMatrix).ravel(), [t(q) for q in m]) or not np.allclose(xcam.distCoeffs, [want[k] for k in ("k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4")]):
                raise Violation("wrong-file-values", f"{what}: {xcam.cameraMatrix}, {xcam.distCoeffs}")
        return ("read", sigmas)

    def shrink(self, plan):
        ops = plan["ops"]
        for i in range(len(ops)):
            if len(ops) > 1:
                yield {**plan, "ops": ops[:i] + ops[i + 1:]}
        for k, v in {"imgsz": [40, 30], "aspect": 1.0, "c": [0.0, 0.0], "k": [0.0] * 6, "k46": [0.0] * 3, "p": [0.0, 0.0]}.items():
            if plan[k] != v:
                yield {**plan, k: v, **({"f": 50.0, "sensorsz": [23.6, 17.7]} if k == "imgsz" else {})}
        for i, o in enumerate(ops):
            for k, v in {"cut": None, "uv": 25, "steps": 1, "rational": False, "exact": True, "optimize": True}.items():
                if o[k] != v:
                    yield {**plan, "ops": ops[:i] + [{**o, k: v}] + ops[i + 1:]}


CHECK = C25()
