"""C20: motion models follow their law for every random stream."""
import datetime
import os

import numpy as np

from sim import rasters
from sim.check import Check
from sim.core import HarnessError, Violation, digest
from sim.gdalseam import GdalSeam
from sim.interrupt import LineInterrupt
from sim.rng import Streams

KINDS = ("plain", "cartesian", "cylindrical", "tangent_cartesian", "tangent_cylindrical")
CLASSES = {"plain": "Motion", "cartesian": "CartesianMotion", "cylindrical": "CylindricalMotion",
           "tangent_cartesian": "TangentCartesianMotion", "tangent_cylindrical": "TangentCylindricalMotion"}
FIELDS = {  # velocity, velocity sigma, acceleration, acceleration sigma, number of components
    "plain": (None, "vxyz_sigma", None, None, 3),
    "cartesian": ("vxyz", "vxyz_sigma", "axyz", "axyz_sigma", 3),
    "cylindrical": ("vrthz", "vrthz_sigma", "arthz", "arthz_sigma", 3),
    "tangent_cartesian": ("vxy", "vxy_sigma", "axy", "axy_sigma", 2),
    "tangent_cylindrical": ("vrth", "vrth_sigma", "arth", "arth_sigma", 2),
}
REACH = 9.0  # no draw is further out


class Recorded(np.random.RandomState):
    """A stream which records its standard normal draws, or draws a constant instead."""

    constant = None

    def __init__(self, seed):
        super().__init__(seed)
        self.draws = []
        self.other = 0

    def _keep(self, x):
        if self.constant is not None:
            x = np.full(np.shape(x), self.constant) if np.ndim(x) else self.constant
        self.draws.append(np.array(x, float).ravel())
        return x

    def standard_normal(self, size=None):
        return self._keep(super().standard_normal(size))

    def randn(self, *d):
        return self.standard_normal(d or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape or None
        return np.asarray(loc) + np.asarray(scale) * self.standard_normal(size)


def _other(name):
    def f(self, *a, **k):
        self.other += 1
        return getattr(np.random.RandomState, name)(self, *a, **k)

    return f


for _name in ("random_sample", "rand", "randint", "uniform", "multivariate_normal", "permutation", "choice", "lognormal", "logistic", "laplace"):
    setattr(Recorded, _name, _other(_name))


class C20(Check):
    id = "C20"
    quick = (9000, 75)
    thorough = (400000, 840)
    rule = (
        "A run makes 1-3 motion models on shared surfaces and applies 3-14 operations to them in any order - initialise, "
        "evolve forward, back, in split steps or not at all, resample, weigh, change a setting - under random streams or "
        "streams with a constant value, with failing reads of the surface, interrupts and particles leaving the surface; "
        "every result is judged by an independent model of the law and by a new model under the same stream; "
        "runs are distinct by event log."
    )
    measure = "distinct histories (model kinds, surfaces, streams, operations and outcomes in order)"
    real = ["motion models", "Raster (surfaces)", "GDAL", "scipy interpolation"]
    stubs = ["np.random draws (recorded streams, constant streams)"]
    assumptions = ["no normal draw is more than nine standard deviations out"]
    expect_probes = KINDS + ("init", "evolve", "likelihood", "resample", "set", "constant", "random", "raised-outside", "raised-fault",
                             "interrupted", "still", "surface-file", "surface-number", "sigma-none", "backward", "zero", "after-raise")

    # ---- plans ----

    def gen(self, r, tier):
        sur = []
        for _ in range(r.choice([1, 1, 2])):
            sur.append({"kind": r.choice(["number", "raster", "raster", "file"]), "seed": r.randrange(10**6),
                        "shape": [r.randint(2, 9), r.randint(2, 9)], "cell": r.choice([1.0, 2.5, 10.0, 0.3]),
                        "dtype": r.choice(["float64", "float64", "float32", "int16"]), "up": r.random() < 0.3,
                        "nan": r.random() < 0.1, "steep": r.choice([0.1, 1.0, 20.0])})
        origin = r.choice([[0.0, 0.0], [495000.0, 6783000.0], [-300.5, 12.25]])
        models = []
        for _ in range(r.choice([1, 1, 2, 3])):
            kind = r.choice(KINDS[1:] * 3 + KINDS[:1])
            nc = FIELDS[kind][4]

            def vec(scale, zero=0.3):
                return [0.0 if r.random() < zero else round(r.uniform(-1, 1) * scale, 4) for _ in range(nc)]

            def sig(scale, zero=0.35):
                return [0.0 if r.random() < zero else round(r.uniform(0.1, 1) * scale, 4) for _ in range(nc)]

            edge = r.random() < 0.12
            models.append({
                "kind": kind, "surface": r.randrange(len(sur)), "n": r.choice([1, 2, 5, 20, 20, 60, 250]),
                "xy": [r.uniform(-0.9, 0.9) if edge else r.uniform(-0.3, 0.3) for _ in range(2)],
                "xy_sigma": [0.0 if r.random() < 0.3 else r.uniform(0.001, 0.06 if not edge else 0.5) for _ in range(2)],
                "v": vec(0.1), "v_sigma": sig(0.02), "a": vec(0.02), "a_sigma": sig(0.01), "edge": edge,
                "still": r.random() < 0.08,
                "dem_sigma": r.choice([None, None, 0, 0.5, 3, "raster", "raster-zeros"]),
                "slope_sigma": r.choice([0, 0, 0.1, 2.0]), "arrays": r.random() < 0.5,
                "unit": r.choice([1.0, 3600.0, 86400.0, 0.5, 86400.0 * 30]),
            })
        ops = []
        for _ in range(r.randint(3, 14)):
            k = r.random()
            m = r.randrange(len(models))
            if k < 0.2:
                ops.append({"op": "init", "model": m})
            elif k < 0.66:
                dt = r.choice([1.0, -1.0, 0.0, 0.25, -0.5, 2.0, 1.0, 1.5])
                ops.append({"op": "evolve", "model": m, "dt": dt})
            elif k < 0.78:
                ops.append({"op": "likelihood", "model": m})
            elif k < 0.86:
                ops.append({"op": "resample", "model": m, "seed": r.randrange(10**6)})
            elif k < 0.94:
                ops.append({"op": "set", "model": m, "what": r.choice(["n", "xy", "v", "a", "slope", "unit"]), "seed": r.randrange(10**6)})
            else:
                ops.append({"op": "rebuild", "model": m})
            if ops[-1]["op"] in ("init", "evolve", "likelihood"):
                q = r.random()
                if q < (0.3 if any(s["kind"] == "file" for s in sur) else 0.05):
                    ops[-1]["fault"] = {"on": r.choice([["open"], ["read"], ["open", "read"]]), "after": r.choice([0, 0, 1]), "times": r.choice([1, 9])}
                elif q > 0.92:
                    ops[-1]["interrupt"] = r.choice([r.randint(0, 15), r.randint(0, 80)])
        for m in range(len(models)):
            if r.random() < 0.9:
                ops.insert(0, {"op": "init", "model": m})
                if r.random() < 0.3:
                    ops[0]["fault"] = {"on": ["open", "read"], "after": r.choice([0, 0, 1]), "times": r.choice([1, 9])}
                    ops.insert(1, {"op": "init", "model": m})
        return {"surfaces": sur, "origin": origin, "models": models, "ops": ops, "seed": r.randrange(2**31),
                "constant": r.choice([None, None, 0.0, 1.0, -1.0, 2.5])}

    # ---- surfaces ----

    def half(self, s):
        return 50.0 if s["kind"] == "number" else 0.5 * s["cell"] * min(s["shape"])

    def values(self, s, what="dem"):
        g = np.random.Generator(np.random.PCG64(s["seed"] + (what != "dem")))
        if s["kind"] == "number":
            return np.array([[round(float(g.uniform(-50, 50)), 3)]])
        z = g.uniform(-1, 1, s["shape"]) * s["steep"] * s["cell"] + (0 if what == "dem" else 2 * s["steep"] * s["cell"])
        if s["dtype"] == "int16":
            z = np.round(z * 3)
        z = z.astype(s["dtype"])
        if what == "dem":
            if s["nan"] and s["dtype"] != "int16":
                z[g.integers(0, z.shape[0]), g.integers(0, z.shape[1])] = np.nan
        else:
            z = np.abs(z)
        if what == "raster-zeros":
            z[:, : z.shape[1] // 2 + 1] = 0
        return z

    def limits(self, s, origin):
        ny, nx = s["shape"]
        xlim = np.array([origin[0] - nx * s["cell"] / 2, origin[0] + nx * s["cell"] / 2])
        ylim = np.array([origin[1] + ny * s["cell"] / 2, origin[1] - ny * s["cell"] / 2])
        if s["up"] and s["kind"] == "raster":
            ylim = ylim[::-1]
        return xlim, ylim

    def surface(self, plan, i, what="dem"):
        """A new surface as the user gives it."""
        from glimpse.raster import Raster

        s = plan["surfaces"][i]
        z = self.values(s, what)
        if s["kind"] == "number":
            return float(z[0, 0])
        xlim, ylim = self.limits(s, plan["origin"])
        if s["kind"] == "raster":
            return Raster(z, x=xlim, y=ylim)
        path = os.path.join(self.scratch, f"s{i}-{what}.tif")
        if not os.path.exists(path):
            Raster(z, x=xlim, y=ylim).write(path)
        return Raster.open(path)

    def sampled(self, plan, i, xy, what="dem"):
        """Independent heights at points: values, whether they are certain, whether they are certainly missing, whether inside."""
        s = plan["surfaces"][i]
        z = self.values(s, what)
        n = len(xy)
        if s["kind"] == "number":
            return np.full(n, float(z[0, 0])), np.ones(n, bool), np.zeros(n, bool), np.ones(n, bool)
        xlim, ylim = self.limits(s, plan["origin"])
        inside = ((xy[:, 0] >= min(xlim)) & (xy[:, 0] <= max(xlim)) & (xy[:, 1] >= min(ylim)) & (xy[:, 1] <= max(ylim)))
        v, clear, sure = rasters.bilinear(z, xlim, ylim, xy[:, 0], xy[:, 1])
        return v, clear, sure, inside

    def scale(self, plan, i, what="dem"):
        s = plan["surfaces"][i]
        z = self.values(s, what).astype(float)
        m = 1 + (0.0 if np.isnan(z).all() else float(np.nanmax(np.abs(z))))
        # Coordinates are given to within rounding, and the surface may be steep
        pos = (abs(plan["origin"][0]) + abs(plan["origin"][1]) + 100) * 4e-16 * (m / (s["cell"] if s["kind"] != "number" else 1))
        return m * (2e-5 if s["dtype"] == "float32" else 1e-9) + 8 * pos

    # ---- models ----

    def params(self, plan, m):
        """The values of a model's settings, in world units."""
        s = plan["surfaces"][m["surface"]]
        h = self.half(s)
        o = plan["origin"]
        kind = m["kind"]
        p = {"xy": [o[0] + m["xy"][0] * h, o[1] + m["xy"][1] * h], "n": m["n"], "unit": m["unit"], "slope_sigma": m["slope_sigma"]}
        p["xy_sigma"] = [x * h for x in m["xy_sigma"]]
        k = [h] * FIELDS[kind][4]
        if "cylindrical" in kind:
            k[1] = 30.0  # angles
        for key in ("v", "v_sigma", "a", "a_sigma"):
            p[key] = [x * y for x, y in zip(m[key], k)]
        if m["still"]:
            for key in ("v", "v_sigma", "a", "a_sigma"):
                p[key] = [0.0] * len(k)
        if "cylindrical" in kind and "a" in p:
            p["a"][1] *= 0.3
        if kind == "plain":
            p["v"], p["a"], p["a_sigma"] = [0.0] * 3, [0.0] * 3, [0.0] * 3
            p["xy_sigma"] = [0.0, 0.0]
        return p

    def build(self, plan, m, p, surfaces):
        import glimpse.track

        cls = getattr(glimpse.track, CLASSES[m["kind"]], None) or getattr(__import__("glimpse.track.motion", fromlist=["x"]), CLASSES[m["kind"]])
        wrap = np.array if m["arrays"] else tuple
        fv, fvs, fa, fas, _ = FIELDS[m["kind"]]
        kw = {"xy": wrap(p["xy"]), "time_unit": datetime.timedelta(seconds=p["unit"]), "n": p["n"], fvs: wrap(p["v_sigma"])}
        if m["kind"] == "plain":
            return cls(**kw)
        kw.update({"xy_sigma": wrap(p["xy_sigma"]), fv: wrap(p["v"]), fa: wrap(p["a"]), fas: wrap(p["a_sigma"])})
        kw["dem"] = surfaces(m["surface"], "dem")
        if isinstance(m["dem_sigma"], str):
            kw["dem_sigma"] = surfaces(m["surface"], m["dem_sigma"])
        else:
            kw["dem_sigma"] = m["dem_sigma"]
        if "tangent" in m["kind"]:
            kw["slope_sigma"] = p["slope_sigma"]
        return cls(**kw)

    def sigma(self, plan, m, xy):
        """Uncertainty of the surface at points."""
        d = m["dem_sigma"]
        if d is None:
            return None
        if isinstance(d, str):
            return self.sampled(plan, m["surface"], xy, d)[0]
        return np.full(len(xy), float(d))

    def public(self, model):
        out = {}
        for k, v in sorted(vars(model).items()):
            if k.startswith("_"):
                continue
            if hasattr(v, "xlim"):
                out[k] = ["raster", np.asarray(v.xlim).tolist(), np.asarray(v.ylim).tolist(), np.asarray(v.size).tolist()]
            else:
                out[k] = digest(np.asarray(v)) if isinstance(v, (np.ndarray, tuple, list)) else repr(v)
        return out

    # ---- one history ----

    def run(self, plan, ctx):
        self.scratch = ctx.scratch
        shared = {}

        def surfaces(i, what):
            if (i, what) not in shared:
                shared[i, what] = self.surface(plan, i, what)
            return shared[i, what]

        for i in range(len(plan["surfaces"])):
            ctx.probe("surface-" + plan["surfaces"][i]["kind"])
        seam = GdalSeam(ctx)
        streams = Streams(plan["seed"], factory=self.stream(plan))
        streams.install()
        states = []
        for m in plan["models"]:
            p = self.params(plan, m)
            states.append({"m": m, "p": p, "model": self.build(plan, m, p, surfaces), "particles": None, "zs": []})
            ctx.probe(m["kind"])
            if m["dem_sigma"] is None:
                ctx.probe("sigma-none")
        ctx.probe("random" if plan["constant"] is None else "constant")
        history = []
        for k, op in enumerate(plan["ops"]):
            st = states[op["model"]]
            out = self.step(plan, ctx, seam, streams, surfaces, st, op, k)
            history.append((op["op"], out))
            if k and history[k - 1][1] in ("raised", "interrupted") and out == "ok" and op["op"] != "set":
                ctx.probe("after-raise")
            ctx.log("op", k, op["op"], op["model"], out, digest(st["particles"]) if st["particles"] is not None else None)
        for (i, what), d in shared.items():
            s = plan["surfaces"][i]
            if s["kind"] == "number":
                continue
            want = self.values(s, what)
            got = np.asarray(d.array)
            ctx.check(got.shape == want.shape and np.array_equal(got, want, equal_nan=want.dtype.kind == "f"), "surface-changed",
                      f"surface {i} {what} changed")
            xlim, ylim = self.limits(s, plan["origin"])
            ctx.check(np.allclose(d.xlim, xlim, rtol=1e-12, atol=1e-9) and np.allclose(d.ylim, ylim, rtol=1e-12, atol=1e-9), "surface-changed", f"limits of surface {i} {what} changed")
        ctx.state(tuple(m["kind"] for m in plan["models"]) + tuple(s["kind"] for s in plan["surfaces"]) + (plan["constant"],) + tuple(history))

    def stream(self, plan):
        def make(seed):
            x = Recorded(seed)
            x.constant = plan["constant"]
            return x

        return make

    def step(self, plan, ctx, seam, streams, surfaces, st, op, k):
        m, p = st["m"], st["p"]
        what = f"operation {k} ({op['op']}, {m['kind']})"
        if op["op"] == "rebuild":
            fresh = {}
            st["model"] = self.build(plan, m, p, lambda i, w: fresh.setdefault((i, w), self.surface(plan, i, w)))
            st["particles"] = None
            return "ok"
        if op["op"] == "set":
            self.change(plan, st, op)
            ctx.probe("set")
            return "ok"
        if op["op"] == "resample":
            if st["particles"] is None:
                return "skipped"
            g = np.random.Generator(np.random.PCG64(op["seed"]))
            n = len(st["particles"])
            st["particles"] = st["particles"][g.integers(0, n, n)]
            ctx.probe("resample")
            return "ok"
        if op["op"] != "init" and st["particles"] is None:
            return "skipped"
        before = st["particles"]
        dt = op.get("dt", 0) * p["unit"]
        delta = datetime.timedelta(seconds=dt)
        dt = delta.total_seconds() / p["unit"]
        self_before = self.public(st["model"])

        def do(model):
            streams.enter(("op", k))
            if op["op"] == "init":
                return model.initialize_particles()
            if op["op"] == "evolve":
                x = before.copy()
                r = model.evolve_particles(x, delta)
                if r is not None:
                    raise Violation("wrong-result", f"{what}: evolving returned {type(r).__name__}")
                return x
            x = before.copy()
            r = model.compute_log_likelihoods(x)
            if not np.array_equal(x, before, equal_nan=True):
                raise Violation("particles-changed", f"{what}: computing likelihoods changed the particles")
            return r

        got, err = None, None
        fault = op.get("fault")
        if fault:
            seam.arm(fault["on"], fault["after"], fault["times"])
        interrupted = False
        try:
            if "interrupt" in op:
                with LineInterrupt(ctx, op["interrupt"]) as li:
                    got = do(st["model"])
            else:
                got = do(st["model"])
        except (Violation, HarnessError):
            raise
        except KeyboardInterrupt:
            interrupted = True
        except Exception as e:  # noqa: BLE001
            err = e
        finally:
            fired = seam.disarm()
        if "interrupt" in op and li.fired and not interrupted:
            interrupted = True
        now = self.public(st["model"])
        ctx.check(now == self_before, "model-changed",
                  lambda: f"{what}: changed {[x for x in set(now) | set(self_before) if now.get(x) != self_before.get(x)]}")
        if interrupted:
            ctx.probe("interrupted")
            return "interrupted"
        if err is not None:
            if fired:
                ctx.probe("raised-fault")
                return "raised"
            if self.can_leave(plan, m, p, op, before, dt) and isinstance(err, ValueError):
                ctx.probe("raised-outside")
                return "raised"
            raise Violation("raised-" + type(err).__name__, f"{what}: {err!r}")
        drawn = streams.state()
        ctx.sim_seconds += abs(dt * p["unit"])
        ctx.probe(op["op"])
        if op["op"] == "init":
            self.judge_init(plan, ctx, what, st, got, drawn)
        elif op["op"] == "evolve":
            ctx.probe("zero" if dt == 0 else "backward" if dt < 0 else "forward")
            self.judge_evolve(plan, ctx, what, st, before, got, dt, drawn)
        else:
            self.judge_likelihood(plan, ctx, what, st, before, got)
        # a new model under the same stream
        fresh = {}
        other = self.build(plan, m, p, lambda i, w: fresh.setdefault((i, w), self.surface(plan, i, w)))
        want = do(other)
        same = (got is None and want is None) or (got is not None and want is not None and np.array_equal(got, want, equal_nan=True))
        ctx.check(same, "depends-on-history", lambda: f"{what}: not what a new model gives for the same draws, off by {self.off(got, want)}")
        if op["op"] == "init":
            twice = do(st["model"])
            ctx.check(twice is not got and not np.shares_memory(twice, got), "shared-particles", f"{what}: two sets of particles share memory")
            ctx.check(np.array_equal(got, want, equal_nan=True), "shared-particles", f"{what}: particles changed by initialising others")
        if op["op"] != "likelihood":
            st["particles"] = got
        return "ok"

    def off(self, a, b):
        if a is None or b is None or np.shape(a) != np.shape(b):
            return "shape"
        return float(np.nanmax(np.abs(np.asarray(a) - np.asarray(b))))

    def change(self, plan, st, op):
        g = np.random.Generator(np.random.PCG64(op["seed"]))
        m, p, model = st["m"], st["p"], st["model"]
        h = self.half(plan["surfaces"][m["surface"]])
        fv, fvs, fa, fas, nc = FIELDS[m["kind"]]
        w = op["what"]
        wrap = np.array if m["arrays"] else tuple
        if w == "n":
            p["n"] = model.n = int(g.integers(1, 40))
        elif w == "xy":
            p["xy"] = [float(o + g.uniform(-0.3, 0.3) * h) for o in plan["origin"]]
            model.xy = wrap(p["xy"])
        elif w == "unit":
            p["unit"] = float(g.choice([60.0, 86400.0, 7200.0]))
            model.time_unit = datetime.timedelta(seconds=p["unit"])
        elif w == "slope" and "tangent" in m["kind"]:
            p["slope_sigma"] = model.slope_sigma = float(g.choice([0.0, 0.3, 1.5]))
        elif w == "v":
            p["v_sigma"] = [float(x) for x in g.uniform(0, 0.02, nc) * h]
            setattr(model, fvs, wrap(p["v_sigma"]))
        elif w == "a" and fa:
            p["a_sigma"] = [float(x) for x in g.uniform(0, 0.01, nc) * h]
            setattr(model, fas, wrap(p["a_sigma"]))

    def can_leave(self, plan, m, p, op, before, dt):
        """Whether particles may be outside the surface when their heights are needed."""
        if m["kind"] == "plain":
            return False
        s = plan["surfaces"][m["surface"]]
        if s["kind"] == "number":
            return False
        xlim, ylim = self.limits(s, plan["origin"])
        lo, hi = np.array([min(xlim), min(ylim)]), np.array([max(xlim), max(ylim)])
        if op["op"] == "init":
            reach = REACH * np.array(p["xy_sigma"])
            c = np.array(p["xy"])
            return bool(((c - reach) < lo).any() or ((c + reach) > hi).any())
        xy = before[:, 0:2]
        if op["op"] == "likelihood" or ((xy < lo) | (xy > hi)).any():
            return bool(((xy < lo) | (xy > hi)).any())
        speed = np.hypot(before[:, 3], before[:, 4])
        a = np.abs(p["a"]) + REACH * np.array(p["a_sigma"])
        acc = (a[0] + speed * a[1]) if "cylindrical" in m["kind"] else np.full(len(xy), a[0] + a[1])
        reach = np.abs(dt) * speed + 0.5 * acc * dt * dt
        reach = reach[:, None] + 1e-9 * np.abs(xy) * 1e-3
        return bool((((xy - reach) < lo) | ((xy + reach) > hi)).any())

    # ---- the law ----

    def normals(self, ctx, what, st, name, z, tol, drawn, plan):
        """Judge standard normal deviates implied by a result (n,)."""
        ctx.check(np.isfinite(z).all(), "wrong-particles", f"{what}: {name} is not finite")
        ctx.check((np.abs(z) < REACH + tol).all(), "wrong-particles",
                  lambda: f"{what}: {name} lies {np.abs(z).max():.3g} standard deviations from its mean")
        n = len(z)
        if plan["constant"] is not None and not drawn.other:
            bad = ~(np.abs(z - plan["constant"]) <= tol)
            ctx.check(not bad.any(), "wrong-particles",
                      lambda: f"{what}: {name} lies {z[bad][:3]} standard deviations from its mean, but {plan['constant']} was drawn")
            return
        if plan["constant"] is not None:
            return
        if not drawn.other and drawn.draws and np.max(tol) < 1e-4:
            pool = np.sort(np.concatenate(drawn.draws))
            i = np.clip(np.searchsorted(pool, z), 1, len(pool) - 1) if len(pool) > 1 else np.zeros(n, int)
            near = np.minimum(np.abs(pool[i] - z), np.abs(pool[i - 1] - z))
            bad = near > tol
            ctx.check(not bad.any(), "wrong-particles",
                      lambda: f"{what}: {name} lies {z[bad][:3]} standard deviations from its mean, which was not drawn")
        if n >= 5 and np.max(tol) < 1e-4:
            ctx.check(np.ptp(z) > 1e-6, "not-independent", f"{what}: {name} deviates equally for all {n} particles")
            for other, y in st["zs"]:
                if len(y) == n and np.max(np.abs(y - z)) < 1e-6:
                    raise Violation("not-independent", f"{what}: {name} deviates exactly as {other}")
        if np.max(tol) < 1e-4:
            st["zs"].append((f"{name} of {what}", z.copy()))
        if n >= 200:
            ctx.check(abs(z.mean()) < 8 / np.sqrt(n) and abs(z.std() - 1) < 8 / np.sqrt(2 * n), "wrong-spread",
                      lambda: f"{what}: {name} has mean {z.mean():.3g} and standard deviation {z.std():.3g} in standard deviations, {n} particles")

    def component(self, ctx, what, st, name, values, mean, sigma, tol, drawn, plan):
        """Judge values that should be mean + sigma * deviate."""
        if sigma == 0:
            bad = ~(np.abs(values - mean) <= tol)
            ctx.check(not bad.any(), "wrong-particles", lambda: f"{what}: {name} is {values[bad][:3]} instead of {mean}")
        else:
            self.normals(ctx, what, st, name, (values - mean) / sigma, np.broadcast_to(tol / sigma, values.shape), drawn, plan)

    def turned(self, vx, vy, mean):
        """Magnitude and direction of velocities, the direction near its mean and the magnitude of either sign."""
        r = np.hypot(vx, vy)
        th = np.arctan2(vy, vx)
        return r, th, mean

    def judge_init(self, plan, ctx, what, st, got, drawn):
        m, p = st["m"], st["p"]
        n = p["n"]
        ctx.check(isinstance(got, np.ndarray) and got.shape == (n, 6) and got.dtype.kind == "f", "wrong-shape",
                  f"{what}: {getattr(got, 'shape', None)} {getattr(got, 'dtype', None)} for {n} particles")
        eps = 1e-14 * (np.abs(plan["origin"]).max() + 1000)
        for j, c in enumerate("xy"):
            self.component(ctx, what, st, c, got[:, j], p["xy"][j], p["xy_sigma"][j], eps, drawn, plan)
        if m["kind"] == "plain":
            ctx.check((got[:, 2] == 0).all(), "wrong-particles", f"{what}: height is not zero")
        else:
            self.heights(plan, ctx, what, st, got, drawn)
        kind = m["kind"]
        v, s = p["v"], p["v_sigma"]
        tol = 1e-11 * (1 + max(abs(x) for x in v) + max(s))
        if "cylindrical" not in kind:
            for j in range(len(v)):
                self.component(ctx, what, st, "velocity " + "xyz"[j], got[:, 3 + j], v[j], s[j], tol, drawn, plan)
        else:
            if len(v) == 3:
                self.component(ctx, what, st, "velocity z", got[:, 5], v[2], s[2], tol, drawn, plan)
            self.polar(plan, ctx, what, st, got[:, 3], got[:, 4], v, s, tol, drawn)
        if len(v) == 2:
            ctx.check((got[:, 5] == 0).all(), "wrong-particles", f"{what}: vertical velocity of a tangent model is not zero")

    def polar(self, plan, ctx, what, st, vx, vy, v, s, tol, drawn):
        """Magnitude and direction are independent normal deviates."""
        r = np.hypot(vx, vy)
        if s[1] == 0:
            # along the mean direction, and nothing across
            along = vx * np.cos(v[1]) + vy * np.sin(v[1])
            across = -vx * np.sin(v[1]) + vy * np.cos(v[1])
            ctx.check((np.abs(across) <= tol * 10).all(), "wrong-particles", f"{what}: velocity is not in the direction {v[1]}")
            self.component(ctx, what, st, "speed", along, v[0], s[0], tol * 10, drawn, plan)
            return
        if s[0] == 0:
            ctx.check((np.abs(r - abs(v[0])) <= tol * 10).all(), "wrong-particles",
                      lambda: f"{what}: speed is {r[:3]} instead of {abs(v[0])}")
            if v[0] == 0:
                return
            th = np.arctan2(vy * np.sign(v[0]), vx * np.sign(v[0]))
            self.wrapped(plan, ctx, what, st, th, v[1], s[1], drawn)
            return
        # either sign of the magnitude: if certain, judge
        zmin = (0 - v[0]) / s[0]
        if plan["constant"] is not None and not drawn.other:
            want = v[0] + s[0] * plan["constant"], v[1] + s[1] * plan["constant"]
            ok = (np.abs(vx - want[0] * np.cos(want[1])) <= tol * 100) & (np.abs(vy - want[0] * np.sin(want[1])) <= tol * 100)
            ctx.check(ok.all(), "wrong-particles", lambda: f"{what}: velocity {vx[~ok][:2]}, {vy[~ok][:2]} for speed and direction {want}")
        elif plan["constant"] is None and abs(zmin) > REACH:
            sign = np.sign(v[0])
            self.component(ctx, what, st, "speed", r * sign, v[0], s[0], tol * 100, drawn, plan)
            self.wrapped(plan, ctx, what, st, np.arctan2(vy * sign, vx * sign), v[1], s[1], drawn)
        elif plan["constant"] is None:
            # each particle has a drawn speed of either sign
            ctx.check((r <= abs(v[0]) + REACH * s[0]).all(), "wrong-particles", f"{what}: speed {r.max()}")
            if not drawn.other and drawn.draws:
                pool = np.concatenate(drawn.draws)
                z = np.column_stack(((r - v[0]) / s[0], (-r - v[0]) / s[0]))
                near = np.abs(z[:, :, None] - pool[None, None, :]).min(axis=(1, 2)) if z.size * pool.size < 5e6 else np.zeros(len(r))
                ctx.check((near <= 1e-6).all(), "wrong-particles", lambda: f"{what}: speed {r[near > 1e-6][:3]} was not drawn")

    def wrapped(self, plan, ctx, what, st, th, mean, sigma, drawn):
        """Directions known only up to full turns."""
        if REACH * sigma >= np.pi:
            if plan["constant"] is None:
                if drawn.other or not drawn.draws:
                    return
                pool = np.concatenate(drawn.draws)
                if len(pool) * len(th) > 1e6:
                    return
                d = np.abs(np.exp(1j * th)[:, None] - np.exp(1j * (mean + sigma * pool))[None, :]).min(axis=1)
            else:
                if drawn.other:
                    return
                d = np.abs(np.exp(1j * th) - np.exp(1j * (mean + sigma * plan["constant"])))
            ctx.check((d <= 1e-6).all(), "wrong-particles", lambda: f"{what}: direction {th[d > 1e-6][:3]} was not drawn")
            return
        off = (th - mean + np.pi) % (2 * np.pi) - np.pi
        self.component(ctx, what, st, "direction", off, 0.0, sigma, 1e-8, drawn, plan)

    def heights(self, plan, ctx, what, st, got, drawn):
        m = st["m"]
        xy = got[:, 0:2]
        z, clear, sure, inside = self.sampled(plan, m["surface"], xy)
        ctx.check(inside.all(), "outside-surface", f"{what}: {(~inside).sum()} particles outside the surface were given heights")
        tol = self.scale(plan, m["surface"])
        ctx.check(np.isnan(got[sure, 2]).all(), "made-up-height", lambda: f"{what}: heights {got[sure, 2][:3]} where the surface is missing")
        sig = self.sigma(plan, m, xy)
        zero = np.ones(len(xy), bool) if sig is None else np.abs(sig) <= tol * 10
        off = got[:, 2] - z
        k = clear & zero
        if sig is None or not np.any(sig):
            bad = k & ~(np.abs(off) <= tol)
            ctx.check(not bad.any(), "wrong-height", lambda: f"{what}: heights {got[bad, 2][:3]} instead of {z[bad][:3]} on the surface")
            return
        k = clear & ~zero
        if k.all():
            e = tol * (1 + REACH) / sig
            self.normals(ctx, what, st, "height", off / sig, np.maximum(e, 1e-12), drawn, plan)
        elif k.any():
            bad = k & ~(np.abs(off) <= REACH * np.abs(sig) + tol)
            ctx.check(not bad.any(), "wrong-height", lambda: f"{what}: heights {off[bad][:3]} off the surface of uncertainty {sig[bad][:3]}")

    def judge_evolve(self, plan, ctx, what, st, x0, x1, t, drawn):
        m, p = st["m"], st["p"]
        n = len(x0)
        ctx.check(x1.shape == x0.shape, "wrong-shape", f"{what}: {x1.shape} after {x0.shape}")
        tangent = "tangent" in m["kind"]
        nc = 2 if tangent else 3
        big = np.abs(plan["origin"]).max() + 1000
        still = (x0[:, 3] == 0) & (x0[:, 4] == 0)
        if still.any():
            ctx.probe("still")
        known = np.isfinite(x0).all(axis=1)
        dv = x1[:, 3 : 3 + nc] - x0[:, 3 : 3 + nc]
        move = x1[:, 0:nc] - x0[:, 0:nc]
        vscale = 1 + np.abs(x0[known][:, 3:6]).max(initial=0) + np.abs(dv[known]).max(initial=0)
        eps = 1e-14 * big * 4 + 1e-12 * vscale * (1 + abs(t))
        # a constant acceleration over the step
        want = t * x0[:, 3 : 3 + nc] + 0.5 * t * dv
        bad = known[:, None] & ~(np.abs(move - want) <= eps + 1e-10 * np.abs(want))
        ctx.check(not bad[:, :2].any() and not bad.any(), "wrong-motion",
                  lambda: f"{what}: moved {move[bad][:3]} instead of {want[bad][:3]} in {t} time units")
        if tangent:
            ctx.check(np.array_equal(x1[:, 5], x0[:, 5], equal_nan=True), "wrong-motion", f"{what}: vertical velocity of a tangent model changed")
        if t == 0:
            ctx.check((np.abs(dv[known]) <= 1e-12 * vscale).all(), "wrong-motion", f"{what}: velocity changed in no time")
        elif known.all():
            a = dv / t
            atol = 4e-16 * vscale / abs(t) * 4
            ma, sa = p["a"], p["a_sigma"]
            if m["kind"] == "plain":
                ctx.check((dv == 0).all(), "wrong-motion", f"{what}: velocity changed without acceleration")
            elif "cylindrical" not in m["kind"]:
                for j in range(nc):
                    self.component(ctx, what, st, "acceleration " + "xyz"[j], a[:, j], ma[j], sa[j], atol + 1e-12 * abs(ma[j]), drawn, plan)
            else:
                if nc == 3:
                    self.component(ctx, what, st, "acceleration z", a[:, 2], ma[2], sa[2], atol + 1e-12 * abs(ma[2]), drawn, plan)
                go = ~still
                if go.any() and not still.any():
                    v = np.hypot(x0[:, 3], x0[:, 4])
                    ar = (a[:, 0] * x0[:, 3] + a[:, 1] * x0[:, 4]) / v
                    ath = (-a[:, 0] * x0[:, 4] + a[:, 1] * x0[:, 3]) / v**2
                    # either may be small beside the other
                    big_a = np.hypot(a[:, 0], a[:, 1])
                    if (v > 1e-6 * vscale).all():
                        self.component(ctx, what, st, "acceleration along", ar, ma[0], sa[0], np.max(atol + 1e-12 * big_a), drawn, plan)
                        self.component(ctx, what, st, "turning", ath, ma[1], sa[1], np.max((atol + 1e-12 * big_a) / v), drawn, plan)
                if still.any():
                    ctx.check(np.isfinite(x1[still][:, [0, 1, 3, 4]]).all(), "wrong-motion", f"{what}: particles at rest are lost")
        if tangent:
            self.tangent(plan, ctx, what, st, x0, x1, t, drawn)

    def tangent(self, plan, ctx, what, st, x0, x1, t, drawn):
        """The height over the surface changes by a slope times the distance only."""
        m, p = st["m"], st["p"]
        i = m["surface"]
        z0, c0, s0, in0 = self.sampled(plan, i, x0[:, 0:2])
        z1, c1, s1, in1 = self.sampled(plan, i, x1[:, 0:2])
        ctx.check(in0.all() and in1.all(), "outside-surface", f"{what}: particles outside the surface were given heights")
        ctx.check(np.isnan(x1[s1 | s0, 2]).all(), "made-up-height", f"{what}: heights where the surface is missing")
        tol = 4 * self.scale(plan, i)
        ok = c0 & c1 & np.isfinite(x0[:, 2])
        rise = (x1[:, 2] - z1) - (x0[:, 2] - z0)
        far = np.hypot(*(x1[:, 0:2] - x0[:, 0:2]).T)
        size = tol + 1e-12 * np.abs(x0[:, 2])
        if p["slope_sigma"] == 0:
            bad = ok & ~(np.abs(rise) <= size)
            ctx.check(not bad.any(), "wrong-height", lambda: f"{what}: height over the surface changed by {rise[bad][:3]}")
            return
        s = p["slope_sigma"] * far
        bad = ok & ~(np.abs(rise) <= REACH * s + size)
        ctx.check(not bad.any(), "wrong-height",
                  lambda: f"{what}: height over the surface changed by {rise[bad][:3]} in {far[bad][:3]} with slope {p['slope_sigma']}")
        if ok.all() and (s > size).all():
            e = (size + 1e-14 * (np.abs(plan["origin"]).max() + 1000) * p["slope_sigma"] * (REACH + 1)) / s
            self.normals(ctx, what, st, "slope", rise / s, e, drawn, plan)

    def judge_likelihood(self, plan, ctx, what, st, x, got):
        m = st["m"]
        if m["kind"] in ("plain",) or "tangent" in m["kind"]:
            ctx.check(got is None, "wrong-likelihood", f"{what}: {got!r}")
            return
        sig = self.sigma(plan, m, x[:, 0:2])
        if sig is None:
            ctx.check(got is None, "wrong-likelihood", f"{what}: likelihoods without an uncertainty")
            return
        ctx.check(isinstance(got, np.ndarray) and got.shape == (len(x),), "wrong-likelihood", f"{what}: shape {np.shape(got)}")
        z, clear, sure, inside = self.sampled(plan, m["surface"], x[:, 0:2])
        ctx.check(inside.all(), "outside-surface", f"{what}: likelihoods of particles outside the surface")
        tol = self.scale(plan, m["surface"])
        if isinstance(m["dem_sigma"], str):
            stol = self.scale(plan, m["surface"], m["dem_sigma"])
        else:
            stol = 0.0
        exact = sig == 0
        d = x[:, 2] - z
        if stol == 0 or not exact.any():
            k = clear & exact
            ctx.check((got[k] == 0).all(), "wrong-likelihood", f"{what}: {got[k][:3]} without uncertainty")
        k = clear & (np.abs(sig) > 1e3 * max(stol, 1e-12)) & np.isfinite(d)
        with np.errstate(all="ignore"):
            want = d**2 / (2 * sig**2)
            err = (2 * np.abs(d) * tol + tol**2) / (2 * sig**2) + want * 4 * stol / np.abs(sig) + 1e-9 * want + 1e-12
        bad = k & ~(np.abs(got - want) <= err)
        ctx.check(not bad.any(), "wrong-likelihood", lambda: f"{what}: {got[bad][:3]} instead of {want[bad][:3]}")

    def shrink(self, plan):
        ops = plan["ops"]
        for i in range(len(ops)):
            if len(ops) > 1:
                yield {**plan, "ops": ops[:i] + ops[i + 1:]}
        for i, o in enumerate(ops):
            for key in ("fault", "interrupt"):
                if key in o:
                    yield {**plan, "ops": ops[:i] + [{k: v for k, v in o.items() if k != key}] + ops[i + 1:]}
        ms = plan["models"]
        for i in range(len(ms)):
            if len(ms) > 1:
                keep = [o for o in ops if o["model"] != i]
                if keep:
                    yield {**plan, "models": ms[:i] + ms[i + 1:], "ops": [{**o, "model": o["model"] - (o["model"] > i)} for o in keep]}
        for i, m in enumerate(ms):
            for k, v in {"n": 1, "dem_sigma": None, "slope_sigma": 0, "unit": 1.0, "arrays": False, "xy": [0.0, 0.0]}.items():
                if m[k] != v:
                    yield {**plan, "models": ms[:i] + [{**m, k: v}] + ms[i + 1:]}
            for k in ("xy_sigma", "v", "v_sigma", "a", "a_sigma"):
                if any(m[k]):
                    yield {**plan, "models": ms[:i] + [{**m, k: [0.0] * len(m[k])}] + ms[i + 1:]}
        for i, s in enumerate(plan["surfaces"]):
            for k, v in {"kind": "number", "dtype": "float64", "nan": False, "up": False}.items():
                if s[k] != v:
                    yield {**plan, "surfaces": plan["surfaces"][:i] + [{**s, k: v}] + plan["surfaces"][i + 1:]}
        if plan["origin"] != [0.0, 0.0]:
            yield {**plan, "origin": [0.0, 0.0]}


CHECK = C20()
