"""C13: camera optimisation leaves the cameras as it found them."""
import copy
import sys
import warnings

import numpy as np

from sim import worlds
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation
from sim.interrupt import LineInterrupt

NAMES = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")
STARTS = (0, 3, 6, 8, 10, 12, 18, 20)
ERRORS = {"ValueError": ValueError, "RuntimeError": RuntimeError, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt,
          "SystemExit": SystemExit, "FloatingPointError": FloatingPointError, "StopIteration": StopIteration}


class Stdout:
    """Standard output that fails at a chosen write (a closed pipe)."""

    def __init__(self, faults):
        self.faults = faults

    def write(self, text):
        self.faults.hit("stdout")
        return len(text)

    def flush(self):
        pass


class Faults:
    """The fault of one call: an exception at the k-th evaluation of a control, or the k-th progress report."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.set(None)

    def set(self, fault):
        self.fault, self.count, self.fired, self.trials = fault, 0, False, []

    def hit(self, where):
        f = self.fault
        if f is None or f["where"] != where or self.fired:
            return False
        self.count += 1
        if self.count - 1 < f["k"]:
            return False
        if where == "inside":
            return True
        self.fired = True
        self.ctx.fault(f"{where}-raises")
        raise ERRORS[f["error"]]("injected")


def faulty(base, faults, cams):
    """A control (user code) whose evaluation can fail."""

    class Control(base):
        def predicted(self, *a, **k):
            faults.trials.append([c._vector.copy() for c in cams])
            faults.hit("before")
            if faults.hit("inside"):
                try:
                    with LineInterrupt(faults.ctx, faults.fault["n"], ERRORS[faults.fault["error"]]) as line:
                        out = super().predicted(*a, **k)
                finally:
                    faults.fired = line.fired
            else:
                out = super().predicted(*a, **k)
            faults.hit("after")
            return out

    Control.__name__ = base.__name__
    return Control


def mask_of(params):
    """Reference: positions of the camera parameters of a specification."""
    m = np.zeros(20, dtype=bool)
    for name, v in params.items():
        i = NAMES.index(name)
        v = v[0] if isinstance(v, tuple) else v
        if v is True:
            m[STARTS[i] : STARTS[i + 1]] = True
        elif v is not False:
            for j in np.atleast_1d(v):
                m[STARTS[i] + j] = True
    return m


class C13(Check):
    id = "C13"
    quick = (5000, 100)
    thorough = (100000, 840)
    rule = (
        "A run makes 4-14 calls (predict, residuals, errors, plot, fit in up to 3 stages, RANSAC, set, save and reset) on 1-2 camera models sharing 1-4 "
        "cameras with points, lines and matches, or fits of an observer's view directions, with exceptions raised at chosen evaluations of the controls (before, "
        "inside at a chosen line, after), at chosen progress reports, or by invalid arguments; every camera is compared bit for bit with a "
        "reference model after each call; runs are distinct by event log."
    )
    measure = "distinct (call, controls, stages, fault place and class, outcome, evaluations)"
    real = ["Cameras", "ObserverCameras", "Points, Lines, Matches, RotationMatchesXYZ", "Camera", "ransac", "lmfit and scipy optimisers", "matplotlib"]
    stubs = ["standard output (fails on demand)"]
    assumptions = ["interrupts land in the evaluation of a control or a progress report, not between the lines that restore the cameras"]
    expect_probes = ("predicted", "residuals", "errors", "plot", "fit", "stages", "ransac", "set", "save", "reset", "mutate", "raised", "returned", "before-raises", "inside-raises",
                     "after-raises", "stdout-raises", "own-error", "points", "lines", "matches", "groups", "two-models", "observer-fit", "observer-set", "observer-reset", "wrong-length", "position")

    # ---- plans ----

    def gen_params(self, r, fixed):
        out = {}
        for name in r.sample(["viewdir", "viewdir", "f", "c", "k", "p", "xyz", "imgsz"], r.randint(0, 3)):
            if name in ("xyz",) and fixed and r.random() < 0.8:
                continue
            n = {"xyz": 3, "viewdir": 3, "imgsz": 2, "f": 2, "c": 2, "k": 6, "p": 2}[name]
            sel = r.choice([True, True, r.randrange(n), sorted(r.sample(range(n), r.randint(1, n)))])
            out[name] = sel if r.random() < 0.8 else {"sel": sel, "min": r.choice([None, -1000]), "max": r.choice([None, 1e7])}
        return out

    def gen_fault(self, r):
        if r.random() < 0.45:
            return None
        where = r.choice(["before", "before", "inside", "inside", "after", "stdout"])
        return {"where": where, "k": r.choice([0, 0, 1, 2, r.randint(0, 12), r.randint(0, 40)]), "n": r.choice([r.randint(0, 8), r.randint(0, 40)]), "error": r.choice(sorted(ERRORS))}

    def gen_model(self, r, n, fixed):
        groups = r.choice([None, None, [list(range(n))], [r.sample(range(n), r.randint(1, n))]])
        if n > 1 and r.random() < 0.3:
            order = r.sample(range(n), n)
            cut = r.randint(1, n - 1)
            groups = [order[:cut], order[cut:]]
        g = 1 if groups is None else len(groups)
        return {"groups": groups, "group_params": [self.gen_params(r, fixed) for _ in range(g)] if r.random() < 0.6 else None,
                "cam_params": [self.gen_params(r, fixed) for _ in range(n)] if r.random() < 0.8 else None,
                "weights": r.random() < 0.3, "scales": r.random() < 0.8, "sparsity": r.random() < 0.8, "subset": r.random() < 0.2}

    def gen(self, r, tier):
        n = r.choice([1, 1, 2, 2, 3, 4])
        controls = []
        for i in range(n):
            for _ in range(r.choice([1, 1, 2])):
                controls.append({"kind": r.choice(["points", "points", "points", "lines"]), "cam": i, "n": r.choice([4, 6, 9, 12]), "directions": r.random() < 0.3})
        for _ in range(r.choice([0, 0, 1, 2]) if n > 1 else 0):
            i, j = r.sample(range(n), 2)
            controls.append({"kind": "matches", "cam": i, "other": j, "n": r.choice([5, 8]), "type": r.choice(["Matches", "RotationMatches", "RotationMatchesXY", "Matches"])})
        fixed = any(c["kind"] == "matches" or c.get("directions") for c in controls)
        models = [self.gen_model(r, n, fixed) for _ in range(r.choice([1, 1, 2]))]
        ops = []
        for _ in range(r.randint(4, 12)):
            op = r.choice(["predicted", "predicted", "residuals", "errors", "plot", "fit", "fit", "fit", "ransac", "set", "set", "reset", "mutate"])
            o = {"op": op, "model": r.randrange(len(models)), "seed": r.randrange(10**6), "fault": self.gen_fault(r), "params": r.choice(["list", "array", "lmfit", None, "array", "array", "short", "long", "nan"]),
                 "index": r.choice([None, None, "slice", "list", "out", "none"]), "scale": r.choice([1e-3, 0.1, 1, 10])}
            if op in ("fit", "ransac"):
                o["method"] = r.choice(["least_squares", "least_squares", "leastsq", "nelder"])
                o["nfev"] = r.choice([1, 3, 8, 20, 60])
                stages = r.choice([0, 0, 0, 1, 2, 3]) if op == "fit" else 0
                o["cam_stages"] = [[self.gen_params(r, fixed) or {"viewdir": True} for _ in range(n)] for _ in range(stages)] if r.random() < 0.9 else None
                g = 1
                o["group_stages"] = [[self.gen_params(r, fixed) for _ in range(g)] for _ in range(stages)] if r.random() < 0.3 else None
                o["full"] = r.random() < 0.3
                o["bogus"] = r.random() < 0.05
                o["nan_policy"] = r.choice([None, None, None, "raise", "propagate"])
                if o["method"] == "leastsq" and o["nan_policy"] is None:
                    # with 'omit', residuals of varying length overrun the memory of the optimiser
                    o["nan_policy"] = "raise"
            if op == "set":
                o["save"] = r.random() < 0.4
            if op == "plot":
                o["bad"] = r.random() < 0.2
                o["cam"] = r.randrange(n)
            if op == "mutate":
                o["cam"] = r.randrange(n)
                o["what"] = r.choice(["viewdir", "f", "k", "xyz"])
            ops.append(o)
        if r.random() < 0.25:
            # an observer whose view directions are fitted
            oo = []
            for _ in range(r.randint(3, 8)):
                oo.append({"op": r.choice(["fit", "fit", "set", "reset", "turn"]), "seed": r.randrange(10**6), "fault": self.gen_fault(r), "method": r.choice(["bfgs", "bfgs", "Nelder-Mead", "L-BFGS-B", "no-such-method"]),
                           "maxiter": r.choice([1, 3, 10])})
            return {"kind": "observer", "n": r.choice([2, 3, 4]), "points": r.choice([3, 8]), "seed": r.randrange(10**6), "anchors": r.choice([None, [0], [1], [0, 1]]), "dense": r.random() < 0.3, "ops": oo}
        return {"kind": "cameras", "n": n, "seed": r.randrange(10**6), "controls": controls, "models": models, "ops": ops, "same": fixed or r.random() < 0.5}

    # ---- execution ----

    def run(self, plan, ctx):
        import matplotlib

        matplotlib.use("Agg")
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        self.ctx, self.plan = ctx, plan
        self.faults = Faults(ctx)
        stdout = sys.stdout
        sys.stdout = Stdout(self.faults)
        try:
            if plan["kind"] == "observer":
                self.run_observer(ctx, plan)
            else:
                self.run_cameras(ctx, plan)
        finally:
            sys.stdout = stdout

    def call(self, f, fault):
        self.faults.set(fault)
        try:
            return f(), None
        except (HarnessError, Deadlock, StepLimit, Violation):
            raise
        except BaseException as e:  # noqa: BLE001
            return None, e
        finally:
            self.faults.fault = None

    def build(self, plan):
        """Cameras and controls."""
        from glimpse import optimize
        from glimpse.camera import Camera

        g = worlds.rng(plan["seed"], "cameras")
        cams = []
        for _ in range(plan["n"]):
            xyz = np.zeros(3) if plan["same"] else g.normal(size=3)
            cams.append(Camera(imgsz=(200, 150), f=g.uniform(150, 300, 2), c=g.normal(size=2), k=g.normal(size=6) * 1e-3, p=g.normal(size=2) * 1e-4,
                               viewdir=g.normal(size=3) * 3, xyz=xyz))
        controls = []
        for c in plan["controls"]:
            cam = cams[c["cam"]]
            uv = g.uniform([20, 20], [180, 130], (c["n"], 2))
            rays = cam.uv_to_xyz(uv)
            depth = g.uniform(20, 80, (c["n"], 1))
            if c["kind"] == "points":
                xyz = rays if c["directions"] else cam.xyz + rays * depth
                controls.append(faulty(optimize.Points, self.faults, cams)(cam=cam, uv=uv + g.normal(size=uv.shape), xyz=xyz, directions=c["directions"]))
            elif c["kind"] == "lines":
                xyz = cam.xyz + rays * depth[0]
                order = np.argsort(uv[:, 0])
                controls.append(faulty(optimize.Lines, self.faults, cams)(cam=cam, uvs=[uv[order] + g.normal(size=uv.shape)], xyzs=[xyz[order]], density=0.2))
            else:
                other = cams[c["other"]]
                ob = other.xyz_to_uv(rays, directions=True) + g.normal(size=uv.shape)
                base = getattr(optimize, c["type"])
                controls.append(faulty(base, self.faults, cams)(cams=[cam, other], uvs=[uv, ob]))
        return cams, controls

    def content(self, control):
        out = [np.array(control.uvs if getattr(control, "uvs", None) is not None else 0, dtype=float)]
        for name in ("uv", "xyz", "xyzs", "xys", "weights"):
            v = getattr(control, name, None)
            if v is not None:
                out.append(np.array(v, dtype=float))
        return out

    def spec(self, params):
        """JSON specification to the argument."""
        if params is None:
            return None
        return [{k: (v["sel"], v["min"], v["max"]) if isinstance(v, dict) else v for k, v in p.items()} for p in params]

    def target(self, model, m, vectors, values):
        """Reference: camera vectors with the given parameter values (groups first, then cameras)."""
        n = len(vectors)
        groups = m["groups"] if m["groups"] is not None else [list(range(n))]
        gp = self.spec(m["group_params"]) or [{}] * len(groups)
        cp = self.spec(m["cam_params"]) or [{}] * n
        out = [v.copy() for v in vectors]
        at = 0
        for idx, p in zip(groups, gp):
            mask = mask_of(p)
            for j in idx:
                out[j][mask] = values[at : at + mask.sum()]
            at += mask.sum()
        for j, p in enumerate(cp):
            mask = mask_of(p)
            out[j][mask] = values[at : at + mask.sum()]
            at += mask.sum()
        return out

    def run_cameras(self, ctx, plan):
        import matplotlib.pyplot as plt
        from glimpse import optimize

        try:
            cams, controls = self.build(plan)
        except ValueError as e:
            raise HarnessError(f"cannot build: {e}") from e
        self.cams = cams
        for c in plan["controls"]:
            ctx.probe(c["kind"])
        before = [self.content(c) for c in controls]
        now = [c._vector.copy() for c in cams]
        models = []
        for m in plan["models"]:
            weights = None
            use = controls[: max(1, len(controls) - 1)] if m["subset"] else controls
            if m["weights"]:
                weights = worlds.rng(plan["seed"], "weights").uniform(0.5, 2, sum(c.size for c in use))

            def make(m=m, use=use, weights=weights):
                return optimize.Cameras(list(cams), list(use), cam_params=self.spec(m["cam_params"]), group_indices=copy.deepcopy(m["groups"]), group_params=self.spec(m["group_params"]),
                                        weights=weights, scales=m["scales"], sparsity=m["sparsity"])

            model, err = self.call(make, None)
            self.same(now, "building the model")
            models.append({"m": m, "model": model, "saved": [v.copy() for v in now], "start": None if model is None else list(model.params.valuesdict().values())})
            ctx.log("model", type(err).__name__)
        if len([m for m in models if m["model"] is not None]) == 2:
            ctx.probe("two-models")
        for number, o in enumerate(plan["ops"]):
            what = f"operation {number} ({o['op']})"
            mm = models[o["model"]]
            model, m = mm["model"], mm["m"]
            if model is None and o["op"] != "mutate":
                continue
            ctx.probe(o["op"])
            if m["groups"] is not None:
                ctx.probe("groups")
            g = worlds.rng(o["seed"], "op")
            if o["op"] == "mutate":
                cam = cams[o["cam"]]
                if o["what"] == "xyz" and plan["same"]:
                    for c, v in zip(cams, now):
                        v[0:3] += 0.5
                        c.xyz = v[0:3].copy()
                else:
                    i = NAMES.index(o["what"])
                    s = slice(STARTS[i], STARTS[i + 1])
                    now[o["cam"]][s] *= 1.01
                    setattr(cam, o["what"], now[o["cam"]][s].copy())
                self.same(now, what)
                continue
            nparams = len(mm["start"])
            values = np.array(mm["start"]) + (g.normal(size=nparams) * o["scale"] * (np.abs(mm["start"]) * 0.02 + 1e-3) if nparams else 0)
            kind = o["params"]
            if kind == "nan" and nparams:
                values[g.randint(nparams)] = np.nan
            given = values
            if kind == "list":
                given = [float(v) for v in values]
            elif kind == "lmfit":
                given = copy.deepcopy(model.params)
                for p, v in zip(given.values(), values):
                    p.min, p.max = -np.inf, np.inf
                    p.value = v
                values = np.array(list(given.valuesdict().values()))
            elif kind == "short" and nparams:
                given = values = values[:-1]
                ctx.probe("wrong-length")
            elif kind == "long":
                given = values = np.append(values, 1.0)
                ctx.probe("wrong-length")
            if kind is None:
                given = None
            size = model.size
            index = {None: slice(None), "slice": slice(0, max(4, size // 2)), "list": sorted(g.permutation(size)[: max(4, size // 2)].tolist()), "out": [0, size + 5], "none": slice(0)}[o["index"]]
            if o["op"] in ("fit", "ransac") and index != slice(None) and o["index"] != "out" and len(models[o["model"]]["m"]["cam_params"] or []) > 2:
                index = slice(None)
            full = kind not in ("short", "long") and not (kind == "nan" and nparams)
            want = now if given is None else self.target(model, m, now, values) if kind != "short" else None
            if o["op"] in ("set", "reset"):
                if o["op"] == "set":
                    if given is None:
                        given, want = values, self.target(model, m, now, values)
                    _, err = self.call(lambda: model.set_cameras(given, save=o["save"] and kind != "short"), None)
                    if err is None and kind != "short":
                        now = want
                        if o["save"]:
                            ctx.probe("save")
                            mm["saved"] = [v.copy() for v in now]
                    elif full and err is not None:
                        raise Violation("set-failed", f"{what}: {type(err).__name__}: {err}") from err
                    else:
                        # set in part: restored by resetting
                        model.reset_cameras()
                        now = [v.copy() for v in mm["saved"]]
                else:
                    model.reset_cameras()
                    now = [v.copy() for v in mm["saved"]]
                ctx.log(o["op"], o.get("save"))
                self.same(now, what, nan=True)
                continue
            kept = copy.deepcopy(given)
            if o["op"] in ("predicted", "residuals", "errors"):
                def f():
                    return getattr(model, o["op"])(params=given, index=index)
            elif o["op"] == "plot":
                def f():
                    kw = {"selected": "no such colour" if o["bad"] else "red"}
                    return model.plot(params=given, cam=o["cam"], index=index if o["index"] in ("slice", "out") else slice(None), **kw)
            else:
                kw = {"method": o["method"]}
                if o["nfev"]:
                    kw["max_nfev"] = o["nfev"]
                elif o["method"] == "nelder":
                    kw["max_nfev"] = 60
                if o["bogus"]:
                    kw["no_such_option"] = 1
                if o["nan_policy"]:
                    kw["nan_policy"] = o["nan_policy"]
                if o["op"] == "fit":
                    if o["cam_stages"]:
                        kw["cam_params"] = [self.spec(s) for s in o["cam_stages"]]
                    if o["group_stages"]:
                        kw["group_params"] = [self.spec(s) for s in o["group_stages"]]
                    if kw.get("cam_params") or kw.get("group_params"):
                        ctx.probe("stages")

                    def f():
                        return model.fit(index=index, full=o["full"], **kw)
                else:
                    def f():
                        np.random.seed(o["seed"])
                        if nparams == 0 or size < 5:
                            raise ValueError("nothing to fit")
                        return optimize.ransac(model, n=min(4, size - 1), max_error=5, min_inliers=1, iterations=3, **kw)
            result, err = self.call(f, o["fault"])
            plt.close("all")
            self.outcome(ctx, o, err)
            ctx.log(o["op"], type(err).__name__, len(self.faults.trials), self.faults.fired)
            ctx.state((o["op"], tuple(sorted({c["kind"] for c in plan["controls"]})), o.get("method"), len(o.get("cam_stages") or []), (o["fault"] or {}).get("where") if self.faults.fired else None,
                       type(err).__name__, min(len(self.faults.trials), 6)))
            self.same(now, what, nan=True)
            if kept is not None and not np.array_equal(np.array(list(kept.valuesdict().values()) if kind == "lmfit" else kept), np.array(list(given.valuesdict().values()) if kind == "lmfit" else given), equal_nan=True):
                raise Violation("arguments-changed", f"{what}: the parameters given changed from {kept} to {given}")
            for c, old in zip(controls, before):
                new = self.content(c)
                if len(new) != len(old) or not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(new, old)):
                    raise Violation("control-changed", f"{what}: the coordinates of a control changed")
            # the controls were evaluated with the trial parameters
            if o["op"] in ("predicted", "residuals", "errors") and want is not None:
                for trial in self.faults.trials:
                    if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(trial, want)):
                        raise Violation("trial", f"{what}: the controls were evaluated with cameras {trial} instead of {want}")
            if o["op"] == "fit" and self.faults.trials and "cam_params" not in kw and "group_params" not in kw and o["method"] == "least_squares":
                first = self.target(model, m, now, np.array(mm["start"]))
                if not all(np.allclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True) for a, b in zip(self.faults.trials[0], first)) and self.inside(model):
                    raise Violation("trial", f"{what}: the fit started from cameras {self.faults.trials[0]} instead of {first}")
            start = list(model.params.valuesdict().values())
            if not np.array_equal(start, mm["start"], equal_nan=True):
                raise Violation("params-changed", f"{what}: the initial parameters changed from {mm['start']} to {start}")

    def inside(self, model):
        return all(p.min < p.value < p.max for p in model.params.values())

    def outcome(self, ctx, o, err):
        if err is None:
            ctx.probe("returned")
        else:
            ctx.probe("raised")
            if self.faults.fired:
                ctx.probe(o["fault"]["where"] + "-raises")
            else:
                ctx.probe("own-error")
                if "position" in str(err):
                    ctx.probe("position")

    def same(self, now, what, nan=True):
        for i, (cam, v) in enumerate(zip(self.cams, now)):
            if not np.array_equal(cam._vector, v, equal_nan=nan):
                raise Violation("camera-changed", f"{what}: camera {i} is {cam._vector.tolist()} instead of {v.tolist()}")

    def run_observer(self, ctx, plan):
        import scipy.sparse
        from glimpse import optimize
        from glimpse.camera import Camera
        from glimpse.image import Image
        from glimpse.track.observer import Observer
        import datetime

        g = worlds.rng(plan["seed"], "observer")
        n = plan["n"]
        cams = [Camera(imgsz=(200, 150), f=(200, 200), viewdir=g.normal(size=3) * 2, xyz=(1, 2, 3)) for _ in range(n)]
        images = [Image(f"/nonexistent/{i}.jpg", cam=c, datetime=worlds.T0 + datetime.timedelta(days=i)) for i, c in enumerate(cams)]
        observer = Observer(images)
        self.cams = [img.cam for img in observer.images]
        for cam in self.cams:
            cam.viewdir = cam.viewdir + g.normal(size=3)
        data, rows, cols = [], [], []
        cls = faulty(optimize.RotationMatchesXYZ, self.faults, self.cams)
        for i in range(n):
            for j in range(i + 1, n):
                rays = self.cams[i].uv_to_xyz(g.uniform([20, 20], [180, 130], (plan["points"], 2)))
                uvs = [c.xyz_to_uv(rays, directions=True) + g.normal(size=(plan["points"], 2)) for c in (self.cams[i], self.cams[j])]
                data.append(cls(cams=[self.cams[i], self.cams[j]], uvs=uvs))
                rows.append(i)
                cols.append(j)
        if plan["dense"]:
            matches = np.full((n, n), None, dtype=object)
            matches[rows, cols] = data
        else:
            matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)), shape=(n, n))
            matches.data = np.array(data, dtype=object)
        model = optimize.ObserverCameras(observer, matches=matches, anchors=plan["anchors"])
        now = [c._vector.copy() for c in self.cams]
        saved = [v.copy() for v in now]
        for number, o in enumerate(plan["ops"]):
            what = f"operation {number} (observer {o['op']})"
            r = worlds.rng(o["seed"], "op")
            if o["op"] == "turn":
                i = r.randint(n)
                now[i][3:6] += r.normal(size=3)
                self.cams[i].viewdir = now[i][3:6].copy()
            elif o["op"] == "set":
                ctx.probe("observer-set")
                dirs = r.normal(size=(n, 3)) * 2
                model.set_cameras(dirs)
                for v, d in zip(now, dirs):
                    v[3:6] = d
                dirs[...] = 99
            elif o["op"] == "reset":
                ctx.probe("observer-reset")
                model.reset_cameras()
                now = [np.concatenate((v[:3], s[3:6], v[6:])) for v, s in zip(now, saved)]
            else:
                ctx.probe("observer-fit")
                result, err = self.call(lambda: model.fit(method=o["method"], options={"maxiter": o["maxiter"]}), o["fault"])
                self.outcome(ctx, o, err)
                ctx.log("observer-fit", type(err).__name__, len(self.faults.trials), self.faults.fired)
                ctx.state(("observer-fit", n, o["method"], (o["fault"] or {}).get("where") if self.faults.fired else None, type(err).__name__))
                if err is None and not np.isfinite(result.x).all():
                    raise Violation("fit", f"{what}: the result is {result.x}")
                if self.faults.trials and not all(np.array_equal(a, b) for a, b in zip(self.faults.trials[0], now)):
                    raise Violation("trial", f"{what}: the fit did not start from the current cameras")
            self.same(now, what)

    def shrink(self, plan):
        ops = plan["ops"]
        for size in (4, 2, 1):
            for i in range(0, len(ops), size):
                if len(ops) > size:
                    yield {**plan, "ops": ops[:i] + ops[i + size :]}
        for i, o in enumerate(ops):
            for k, v in {"fault": None, "index": None, "params": None, "cam_stages": None, "group_stages": None, "full": False, "bogus": False, "nan_policy": None, "bad": False, "nfev": 3, "scale": 1}.items():
                if k in o and o[k] != v and not (k == "nfev" and o[k] is None):
                    yield {**plan, "ops": ops[:i] + [{**o, k: v}] + ops[i + 1 :]}
        if plan["kind"] == "cameras":
            if len(plan["models"]) > 1 and all(o["model"] == 0 for o in ops):
                yield {**plan, "models": plan["models"][:1]}
            if len(plan["controls"]) > 1:
                for i in range(len(plan["controls"])):
                    yield {**plan, "controls": plan["controls"][:i] + plan["controls"][i + 1 :]}
            for i, m in enumerate(plan["models"]):
                for k, v in {"groups": None, "group_params": None, "cam_params": None, "weights": False, "scales": False, "sparsity": False, "subset": False}.items():
                    if m[k] != v and not (k == "groups" and m["group_params"]):
                        yield {**plan, "models": plan["models"][:i] + [{**m, k: v}] + plan["models"][i + 1 :]}


CHECK = C13()
