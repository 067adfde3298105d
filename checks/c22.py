"""C22: camera model results follow from what the model was given."""
import copy
import datetime
import sys
import warnings

import numpy as np

from sim import worlds
from sim.core import HarnessError, Violation
from checks.c13 import C13, NAMES, STARTS, Faults, Stdout, faulty, mask_of


class C22(C13):
    id = "C22"
    quick = (3000, 90)
    thorough = (60000, 840)
    rule = (
        "A run makes 3-10 calls (predict, residuals, errors, fits in up to 3 stages, set, save, reset, some of them failing or interrupted) on 1-2 models sharing 1-4 "
        "cameras with points, lines and matches, and compares each undisturbed result with a model built afresh and with an independent evaluation; or "
        "disturbs cameras whose true parameters are known and fits them from exact observations (outliers left out by weights or index); or fits the view directions of an "
        "observer; runs are distinct by event log."
    )
    measure = "distinct (kind, call, controls, groups, weights, index, stages, method, outcome)"
    real = ["Cameras", "ObserverCameras", "Points, Lines, Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ", "Camera", "lmfit and scipy optimisers"]
    stubs = ["standard output (fails on demand)"]
    assumptions = [
        "the projection of a single camera is taken as given (compared between objects, not with an independent camera)",
        "optimisers return the same parameters for the same evaluations",
    ]
    expect_probes = ("predicted", "residuals", "errors", "fit", "stages", "set", "reset", "mutate", "disturbed", "compared", "residual-compared", "groups", "ungrouped", "weights", "index", "lines", "matches",
                     "recovered", "recovered-stages", "recovered-group", "recovered-weights", "recovered-index", "recovered-ungrouped", "recovered-two-groups", "observer-compared", "contradiction", "overlapping-groups", "parameters", "update")

    # ---- plans ----

    def gen(self, r, tier):
        x = r.random()
        if x < 0.35:
            return self.gen_recover(r)
        while True:
            plan = super().gen(r, tier)
            if plan["kind"] == "observer":
                if x < 0.9:
                    continue
                for o in plan["ops"]:
                    if r.random() < 0.6:
                        o["fault"] = None
                return plan
            plan["ops"] = [o for o in plan["ops"] if o["op"] not in ("plot", "ransac")][:10] or [{**plan["ops"][0], "op": "predicted", "index": None}]
            for m in plan["models"]:
                if plan["n"] > 1 and r.random() < 0.2:
                    # cameras in several groups
                    fixed = plan["same"]
                    m["groups"] = [sorted(r.sample(range(plan["n"]), r.randint(1, plan["n"]))) for _ in range(r.choice([2, 2, 3]))]
                    m["group_params"] = [self.gen_params(r, fixed) for _ in m["groups"]]
                    if r.random() < 0.6:
                        used = set()
                        for params in m["group_params"]:
                            for name in list(params):
                                if name in used:
                                    params.pop(name)
                            used.update(params)
                    elif r.random() < 0.4:
                        # contradictions between groups which are not next to each other
                        order = r.sample(range(plan["n"]), plan["n"])
                        cut = r.randint(1, plan["n"] - 1)
                        m["groups"] = [sorted(order[:cut]), sorted(order[cut:]), [r.choice(order[:cut])]]
                        r.shuffle(m["groups"])
                        params = self.gen_params(r, fixed)
                        m["group_params"] = [copy.deepcopy(params) for _ in m["groups"]]
            for o in plan["ops"]:
                if o["op"] == "mutate" and r.random() < 0.4:
                    o["op"] = "update"
                if r.random() < 0.7:
                    o["fault"] = None
                if o["params"] in ("nan",) and r.random() < 0.8:
                    o["params"] = "array"
                if o["op"] == "fit" and o["method"] == "leastsq":
                    # stopping this method early leaves its parameters uninitialised, and it may not stop by itself
                    o["method"] = "least_squares"
                if o["op"] == "fit" and o["method"] == "nelder":
                    o["nfev"] = min(o["nfev"] or 60, 60)
            return plan

    def gen_params(self, r, fixed):
        """As in C13, but without parameters whose fits are ill-posed or grow without bounds."""
        out = super().gen_params(r, fixed)
        out.pop("imgsz", None)
        for name, largest in (("f", (100, 420)), ("k", (-0.02, 0.02)), ("p", (-0.002, 0.002)), ("c", (-30, 30)), ("xyz", (-50, 50)), ("viewdir", (-60, 60))):
            if name in out:
                sel = out[name]["sel"] if isinstance(out[name], dict) else out[name]
                if name == "k":
                    sel = r.choice([0, [0, 1], [0, 2], 3])
                lo, hi = largest
                if r.random() < 0.4:
                    # one for each parameter, or the default
                    n = STARTS[NAMES.index(name) + 1] - STARTS[NAMES.index(name)] if sel is True else len(np.atleast_1d(sel))
                    lo = r.choice([[lo * (1 - 0.1 * j) for j in range(n)], [lo] * (n - 1) + [None], lo])
                    hi = r.choice([[hi * (1 - 0.1 * j) for j in range(n)], [None] + [hi] * (n - 1), hi])
                out[name] = {"sel": sel, "min": lo, "max": hi} if r.random() < 0.8 or name in ("f", "k", "p") else sel
            elif r.random() < 0.05:
                out[name] = False
        return out

    def gen_recover(self, r):
        n = r.choice([1, 2, 2, 3, 4])
        groups, fit_f = None, r.choice([None, "cam", "group", "two"])
        if fit_f == "two":
            # focal length in x and y in different groups
            groups = [r.sample(range(n), r.randint(1, n)) for _ in range(2)]
        elif n > 1 and r.random() < 0.6:
            order = r.sample(range(n), n)
            cut = r.randint(1, n - 1)
            groups = r.choice([[order[:cut], order[cut:]], [order[:cut]]])
        return {"kind": "recover", "n": n, "seed": r.randrange(10**6), "points": [r.choice([10, 14]) for _ in range(n)], "split": [r.random() < 0.3 for _ in range(n)], "directions": r.random() < 0.3,
                "groups": groups, "fit_f": fit_f, "matches": r.random() < 0.4, "types": [r.choice(["Matches", "Matches", "RotationMatches", "RotationMatchesXY"]) for _ in range(n)],
                "outliers": r.choice([None, None, "weights", "index"]), "weights": r.random() < 0.3, "scales": r.random() < 0.8, "sparsity": r.random() < 0.8,
                "method": r.choice(["least_squares", "least_squares", "least_squares", "leastsq"]), "stages": r.choice([0, 0, 1, 1, 2]), "stage_only": r.choice(["cam", "group", "both"]),
                "spread": r.choice([0.0, 0.01]), "before": r.choice([None, "predicted", "fault", "set"]), "fault": self.gen_fault(r) or {"where": "before", "k": 2, "n": 0, "error": "ValueError"}}

    # ---- execution ----

    def run(self, plan, ctx):
        import matplotlib

        matplotlib.use("Agg")
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        self.ctx, self.plan = ctx, plan
        self.faults = Faults(ctx)
        stdout = sys.stdout
        sys.stdout = Stdout(self.faults)
        try:
            {"observer": self.run_observer, "recover": self.run_recover, "cameras": self.run_cameras}[plan["kind"]](ctx, plan)
        finally:
            sys.stdout = stdout

    def project(self, control):
        """Independent evaluation: predicted and observed coordinates of a whole control for its cameras as they are."""
        from glimpse import optimize

        if isinstance(control, optimize.Lines):
            return np.asarray(control.predicted()), np.row_stack(control.uvs)
        if isinstance(control, optimize.Points):
            return control.cam.xyz_to_uv(control.xyz, directions=control.directions), control.uv
        a, b = control.cams
        if isinstance(control, optimize.RotationMatchesXY):
            return a._xyz_to_xy(b._xy_to_xyz(control.xys[1]), directions=True), control.xys[0]
        if isinstance(control, optimize.RotationMatches):
            return a.xyz_to_uv(b._xy_to_xyz(control.xys[1]), directions=True), control.uvs[0]
        return a.xyz_to_uv(b.uv_to_xyz(control.uvs[1]), directions=True), control.uvs[0]

    def contradiction(self, m, cams, controls):
        """Whether a model must be refused, or None if that is not stated."""
        groups = m["groups"] if m["groups"] is not None else [list(range(len(cams)))]
        gp = self.spec(m["group_params"]) or [{}] * len(groups)
        cp = self.spec(m["cam_params"]) or [{}] * len(cams)
        seen = [np.zeros(20, dtype=int) for _ in cams]
        for idx, p in zip(groups, gp):
            for i in idx:
                seen[i] += mask_of(p)
            if any(mask_of({k: v})[8:12].any() for k, v in p.items()) and len({tuple(cams[i].imgsz) for i in idx}) > 1:
                return True
        if any((s > 1).any() for s in seen):
            return True
        covered = set()
        for c in controls:
            covered.update(id(x) for x in (c.cams if hasattr(c, "cams") else [c.cam]))
        for i, cam in enumerate(cams):
            named = [cp[i]] + [p for idx, p in zip(groups, gp) if i in idx]
            if id(cam) not in covered and any(named):
                return True if any(mask_of(p).any() for p in named) else None
        if any(k in ("f", "c") for p in gp for k in p):
            # unused (False) parameters of cameras of unequal size
            return None if any(len({tuple(cams[i].imgsz) for i in idx}) > 1 for idx in groups) else False
        return False

    @staticmethod
    def stated(params):
        """Mask, and minima and maxima (None by default), of each parameter."""
        mask, low, high = mask_of(params), [None] * 20, [None] * 20
        for name, value in params.items():
            if not isinstance(value, tuple):
                continue
            positions = np.nonzero(mask_of({name: value}))[0]
            for bounds, given in ((low, value[1]), (high, value[2])):
                for j, at in enumerate(positions):
                    bounds[at] = given[j] if isinstance(given, list) else given
        return mask, low, high

    def check_params(self, m, model, cams, what):
        """The parameters begin at the cameras (the mean of those of a group), within the bounds stated for them."""
        from glimpse import optimize

        groups = m["groups"] if m["groups"] is not None else [list(range(len(cams)))]
        gp = self.spec(m["group_params"]) or [{}] * len(groups)
        cp = self.spec(m["cam_params"]) or [{}] * len(cams)
        defaults = [optimize.Cameras.camera_bounds(cam) for cam in cams]
        own = [self.stated(p) for p in cp]
        params = list(model.params.values())
        want = []
        for idx, (mask, low, high) in [*zip(groups, map(self.stated, gp)), *(([i], x) for i, x in enumerate(own))]:
            for at in np.nonzero(mask)[0]:
                bounds = [low[at], high[at]]
                for k, pick in ((0, max), (1, min)):
                    if bounds[k] is None:
                        # bounds of a camera may also limit its group
                        bounds[k] = pick(defaults[i][at, k] for i in idx) if len(groups) and not any(own[i][1 + k][at] is not None for i in idx) else np.nan
                want.append((np.mean([cams[i]._vector[at] for i in idx]), *bounds))
        if len(params) != len(want):
            raise Violation("parameters", f"{what}: {len(params)} parameters instead of {len(want)}")
        for p, (value, low, high) in zip(params, want):
            if low > high:
                continue
            if np.isfinite(value) and not np.isnan(low) and not np.isnan(high) and not np.isclose(p.value, np.clip(value, low, high), rtol=1e-9, atol=1e-12):
                raise Violation("start", f"{what}: {p.name} begins at {p.value} instead of {value} (from {low} to {high})")
            for got, bound in ((p.min, low), (p.max, high)):
                if not np.isnan(bound) and not np.isclose(got, bound, rtol=1e-9, atol=1e-12):
                    raise Violation("stated-bounds", f"{what}: {p.name} is from {p.min} to {p.max} instead of {low} to {high}")
        for p in [*gp, *cp]:
            mask, low, high = self.stated(p)
            got = optimize.Cameras.parse_params(p)
            if not np.array_equal(got[0], mask):
                raise Violation("selection", f"{what}: {p} selects {got[0].tolist()} instead of {mask.tolist()}")
            for k, (stated, default) in enumerate(((low, -np.inf), (high, np.inf))):
                stated = [default if x is None else x for x in stated]
                if not np.array_equal(got[1][mask, k], np.array(stated)[mask]):
                    raise Violation("stated-bounds", f"{what}: {p} bounds {got[1].tolist()}, not {stated}")
        if want:
            self.ctx.probe("parameters")

    def evaluate(self, cams, controls, vectors):
        """Independent evaluation of all controls with the cameras set to the given vectors."""
        for cam, v in zip(cams, vectors):
            cam._vector = v.copy()
        for c in controls:
            c._test_position()
            if hasattr(c, "_internals"):
                c._test_internals()
        parts = [self.project(c) for c in controls]
        return np.vstack([p[0] for p in parts]), np.vstack([p[1] for p in parts])

    def parts(self, plan, m):
        """Freshly built cameras, the controls of a model, and its weights."""
        cams, controls = self.build(plan)
        use = controls[: max(1, len(controls) - 1)] if m["subset"] else controls
        weights = None
        if m["weights"]:
            weights = worlds.rng(plan["seed"], "weights").uniform(0.5, 2, sum(c.size for c in use))
            weights[worlds.rng(plan["seed"], "zero").uniform(size=len(weights)) < 0.2] = 0
            weights[0] = 1
        return cams, use, weights

    def make(self, m, cams, controls, weights, cam_params=None, group_params=None):
        from glimpse import optimize

        return optimize.Cameras(list(cams), list(controls), cam_params=cam_params or self.spec(m["cam_params"]), group_indices=copy.deepcopy(m["groups"]),
                                group_params=group_params or self.spec(m["group_params"]), weights=None if weights is None else weights.copy(), scales=m["scales"], sparsity=m["sparsity"])

    def refit(self, plan, m, now, index, stages, full, kw, updated=None):
        """The fit of a model built afresh over cameras in the same state, stage by stage."""
        cams, controls, weights = self.parts(plan, m)
        model = self.make(m, cams, controls, weights)
        if updated is not None:
            for cam, v in zip(cams, updated):
                cam._vector = v.copy()
            model.update_params()
        for cam, v in zip(cams, now):
            cam._vector = v.copy()
        for cam_params, group_params in stages:
            stage = self.make(m, cams, model.controls, model.weights, cam_params, group_params)
            values = stage.fit(index=index, **kw)
            if values is not None:
                for cam, v in zip(cams, self.target(stage, {**m, "cam_params": m["cam_params"] if cam_params is None else cam_params, "group_params": m["group_params"] if group_params is None else group_params},
                                                    [c._vector for c in cams], values)):
                    cam._vector = v
        base = [c._vector.copy() for c in cams]
        if stages:
            model = self.make(m, cams, model.controls, model.weights)
            if m["scales"]:
                # scale factors are those of the model as built
                other = self.parts(plan, m)
                model.scales = self.make(m, *other).scales
        start = list(model.params.valuesdict().values())
        return model.fit(index=index, full=full, **kw), base, start

    def spec(self, params):
        if params is not None and any(isinstance(v, tuple) for p in params for v in p.values()):
            return params
        return super().spec(params)

    def close(self, a, b, what, kind, rtol=1e-7, atol=1e-7):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape or not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            raise Violation(kind, f"{what}: {a.tolist()} instead of {b.tolist()}"[:600])

    def run_cameras(self, ctx, plan):
        try:
            cams, controls = self.build(plan)
        except ValueError as e:
            raise HarnessError(f"cannot build: {e}") from e
        kinds = tuple(sorted({c["kind"] for c in plan["controls"]}))
        for k in kinds:
            ctx.probe(k)
        now = [c._vector.copy() for c in cams]
        models = []
        for m in plan["models"]:
            use = controls[: max(1, len(controls) - 1)] if m["subset"] else controls
            weights = self.parts(plan, m)[2]
            model, err = self.call(lambda: self.make(m, cams, use, weights), None)
            models.append({"m": m, "model": model, "weights": weights, "updated": None, "saved": [v.copy() for v in now], "start": None if model is None else list(model.params.valuesdict().values())})
            ctx.log("model", type(err).__name__)
            wrong = self.contradiction(m, cams, use)
            if wrong is not None and wrong != (err is not None):
                if wrong:
                    raise Violation("accepted", f"model {m}: contradictory groups or parameters without controls")
                raise Violation("refused", f"model {m}: {type(err).__name__}: {err}")
            if wrong:
                ctx.probe("contradiction")
            if model is not None:
                self.check_params(m, model, cams, f"model {m}")
            if m["groups"] is not None and sum(map(len, m["groups"])) > len(set(sum(m["groups"], []))) and not err:
                ctx.probe("overlapping-groups")
        for number, o in enumerate(plan["ops"]):
            what = f"operation {number} ({o['op']})"
            mm = models[o["model"]]
            model, m = mm["model"], mm["m"]
            if model is None and o["op"] != "mutate":
                continue
            ctx.probe(o["op"])
            g = worlds.rng(o["seed"], "op")
            if o["op"] == "mutate":
                cam = cams[o["cam"]]
                if o["what"] == "xyz" and plan["same"]:
                    for c, v in zip(cams, now):
                        v[0:3] += 0.5
                        c.xyz = v[0:3].copy()
                else:
                    i = NAMES.index(o["what"])
                    s = slice(STARTS[i], STARTS[i + 1])
                    now[o["cam"]][s] *= 1.01
                    setattr(cam, o["what"], now[o["cam"]][s].copy())
                continue
            if o["op"] == "update":
                model.update_params()
                mm["start"] = list(model.params.valuesdict().values())
                mm["updated"] = [v.copy() for v in now]
                self.check_params(m, model, cams, what)
                continue
            nparams = len(mm["start"])
            values = np.array(mm["start"]) + (g.normal(size=nparams) * o["scale"] * (np.abs(mm["start"]) * 0.02 + 1e-3) if nparams else 0)
            kind = o["params"]
            if kind == "nan" and nparams:
                values[g.randint(nparams)] = np.nan
            given = values
            if kind == "list":
                given = [float(v) for v in values]
            elif kind == "lmfit":
                given = copy.deepcopy(model.params)
                for p, v in zip(given.values(), values):
                    p.min, p.max = -np.inf, np.inf
                    p.value = v
                values = np.array(list(given.valuesdict().values()))
            elif kind == "short" and nparams:
                given = values = values[:-1]
            elif kind == "long":
                given = values = np.append(values, 1.0)
            if kind is None:
                given = None
            size = model.size
            index = {None: slice(None), "slice": slice(1, max(4, size // 2)), "list": sorted(g.permutation(size)[: max(4, size // 2)].tolist()), "out": [0, size + 5], "none": slice(0)}[o["index"]]
            regular = kind not in ("short", "long")
            if o["op"] == "set":
                if not regular:
                    continue
                want = self.target(model, m, now, values)
                model.set_cameras(values if given is None else given, save=o["save"])
                now = want
                if o["save"]:
                    mm["saved"] = [v.copy() for v in now]
                for i, (cam, v) in enumerate(zip(cams, now)):
                    if not np.array_equal(cam._vector, v, equal_nan=True):
                        raise Violation("set", f"{what}: camera {i} is {cam._vector.tolist()} instead of {v.tolist()}")
                continue
            if o["op"] == "reset":
                model.reset_cameras()
                now = [v.copy() for v in mm["saved"]]
                continue
            staged = o["op"] == "fit" and bool(o["cam_stages"] or o["group_stages"])
            if o["op"] != "fit":
                def f():
                    return getattr(model, o["op"])(params=given, index=index)
            else:
                kw = {"method": o["method"]}
                if o["nfev"]:
                    kw["max_nfev"] = o["nfev"]
                if o["nan_policy"]:
                    kw["nan_policy"] = o["nan_policy"]
                groups = 1 if m["groups"] is None else len(m["groups"])
                extra = {}
                if o["cam_stages"]:
                    extra["cam_params"] = [self.spec(s) for s in o["cam_stages"]]
                if o["group_stages"]:
                    extra["group_params"] = [[self.spec(s)[0]] + [{}] * (groups - 1) for s in o["group_stages"]]

                def f():
                    return model.fit(index=index, full=True, **extra, **kw)
            result, err = self.call(f, o["fault"])
            ctx.log(o["op"], type(err).__name__, len(self.faults.trials), self.faults.fired)
            ctx.state((o["op"], kinds, m["groups"] is not None, mm["weights"] is not None, o["index"], staged and len(o["cam_stages"] or o["group_stages"]), o.get("method"), self.faults.fired, type(err).__name__))
            if self.faults.fired or not regular:
                ctx.probe("disturbed")
                continue
            if o["op"] != "fit":
                self.compare_values(ctx, plan, o, m, now, values, given, index, what, result, err)
            else:
                self.compare_fit(ctx, plan, o, m, now, index, extra, kw, what, result, err, mm["updated"])

    def compare_values(self, ctx, plan, o, m, now, values, given, index, what, result, err):
        cams, controls, weights = self.parts(plan, m)
        try:
            predicted, observed = self.evaluate(cams, controls, now if given is None else self.target(None, m, now, values))
            # Lines and single controls select before searching or projecting
            predicted, observed = predicted[index], observed[index]
        except Exception as e:  # noqa: BLE001
            if err is None:
                raise Violation("unexpected-result", f"{what}: returned although {type(e).__name__}: {e}") from e
            return
        if err is not None:
            raise Violation("unexpected-error", f"{what}: {type(err).__name__}: {err}") from err
        want = predicted
        if o["op"] != "predicted":
            want = predicted - observed
            if weights is not None:
                w = weights * len(weights) / weights.sum()
                want = want * w[index][:, None]
                ctx.probe("weights")
            if o["op"] == "errors":
                want = np.sqrt((want ** 2).sum(axis=1))
        if m["groups"] is not None:
            ctx.probe("groups")
            if len(set(sum(m["groups"], []))) < plan["n"] and given is not None:
                ctx.probe("ungrouped")
        if o["index"]:
            ctx.probe("index")
        ctx.probe("compared")
        self.close(result, want, what, "values", 1e-9, 1e-9)

    def compare_fit(self, ctx, plan, o, m, now, index, extra, kw, what, result, err, updated):
        stages = []
        if extra:
            ctx.probe("stages")
            count = max(len(extra.get("cam_params", ())), len(extra.get("group_params", ())))
            for i in range(count):
                try:
                    stages.append((extra["cam_params"][i] if "cam_params" in extra else None, extra["group_params"][i] if "group_params" in extra else None))
                except IndexError:
                    return
        out, error = self.call(lambda: self.refit(plan, m, now, index, stages, True, kw, updated), None)
        if error is not None:
            if err is None:
                raise Violation("unexpected-result", f"{what}: returned although a new model raises {type(error).__name__}: {error}") from error
            ctx.log("also", type(error).__name__)
            return
        if err is not None:
            raise Violation("unexpected-error", f"{what}: {type(err).__name__}: {err}") from err
        ref, base, start = out
        ctx.probe("compared")
        values = np.array(list(result.params.valuesdict().values()))
        if len(values) == 0:
            return
        want = np.array(list(ref.params.valuesdict().values()))
        # stopped early: the parameters are not returned
        differs = bool(result.success) != bool(ref.success) or bool(result.success) and not np.allclose(values, want, rtol=1e-5, atol=1e-7, equal_nan=True)
        if differs:
            # a fit may amplify rounding: compare only if tiny changes of the cameras do not change it
            for e in (1e-13, -1e-13, 1e-12):
                other, error = self.call(lambda: self.refit(plan, m, [v * (1 + e) for v in now], index, stages, True, kw, updated), None)
                if error is not None or other[0].success != ref.success or not np.allclose(list(other[0].params.valuesdict().values()), want, rtol=1e-6, atol=1e-8, equal_nan=True):
                    ctx.probe("sensitive-fit")
                    return
            raise Violation("fit", f"{what}: success {result.success} {values.tolist()} instead of {ref.success} {want.tolist()}")
        if not result.success:
            return
        for p in result.params.values():
            if not p.min - 1e-9 <= p.value <= p.max + 1e-9:
                raise Violation("bounds", f"{what}: {p.name} is {p.value}, not within {p.min} to {p.max}")
        # the residuals are those of the parameters returned, and no worse than those at the start
        cams, controls, weights = self.parts(plan, m)

        def residuals(v):
            predicted, observed = self.evaluate(cams, controls, self.target(None, m, base, v))
            d = predicted - observed
            if weights is not None:
                d = d * (weights * len(weights) / weights.sum())[:, None]
            return d[index].ravel()

        try:
            final, first = residuals(values), residuals(np.array(start))
        except Exception as e:  # noqa: BLE001
            raise Violation("unexpected-result", f"{what}: returned although {type(e).__name__}: {e}") from e
        if kw["method"] == "least_squares" and result.success and np.isfinite(final).all() and np.isfinite(first).all():
            ctx.probe("residual-compared")
            self.close(result.residual, final, what, "residual", 1e-4, 1e-4)
            if (final ** 2).sum() > (first ** 2).sum() * (1 + 1e-6) + 1e-9:
                raise Violation("worse", f"{what}: the sum of squares rose from {(first ** 2).sum()} to {(final ** 2).sum()}")

    # ---- known cameras ----

    def run_recover(self, ctx, plan):
        from glimpse import optimize
        from glimpse.camera import Camera

        g = worlds.rng(plan["seed"], "recover")
        n = plan["n"]
        groups = plan["groups"] if plan["groups"] is not None else [list(range(n))]
        f = np.array([g.uniform(190, 220, 2) for _ in range(n)])
        two = plan["fit_f"] == "two"
        grouped = plan["fit_f"] == "group" or two
        if two and len(groups) != 2:
            groups = [list(range(n)), list(range(n))]
        # Parameters of each group
        common = [[8 + k] if two else [8, 9] for k in range(len(groups))]
        if grouped:
            for k, idx in enumerate(groups):
                for c in common[k]:
                    f[idx, c - 8] = f[idx[0], c - 8]
        truth = [Camera(imgsz=(200, 150), f=f[i], k=(1e-3, 0, 0, 0, 0, 0), viewdir=g.normal(size=3) * 3, xyz=(1, 2, 3)) for i in range(n)]
        vectors = [c._vector.copy() for c in truth]
        cams = truth
        controls, bad = [], []
        for i, cam in enumerate(cams):
            uv = g.uniform([10, 10], [190, 140], (plan["points"][i], 2))
            uv[:4] = [(15, 15), (185, 135), (15, 130), (180, 20)]
            rays = cam.uv_to_xyz(uv)
            xyz = rays if plan["directions"] else cam.xyz + rays * g.uniform(20, 80, (len(uv), 1))
            out = np.zeros(len(uv), dtype=bool)
            if plan["outliers"]:
                k = g.randint(1, 4)
                extra = g.uniform([10, 10], [190, 140], (k, 2))
                at = g.randint(0, len(uv) + 1)
                ray = cam.uv_to_xyz(extra)
                uv = np.insert(uv, at, extra + g.choice([-30, 30], (k, 2)), axis=0)
                xyz = np.insert(xyz, at, ray if plan["directions"] else cam.xyz + ray * 40, axis=0)
                out = np.insert(out, at, np.ones(k, dtype=bool))
            cuts = [0, len(uv) // 2, len(uv)] if plan["split"][i] else [0, len(uv)]
            for a, b in zip(cuts[:-1], cuts[1:]):
                controls.append(faulty(optimize.Points, self.faults, cams)(cam=cam, uv=uv[a:b], xyz=xyz[a:b], directions=plan["directions"]))
                bad.append(out[a:b])
        if plan["matches"]:
            for i in range(n - 1):
                uv = g.uniform([30, 30], [170, 120], (6, 2))
                other = cams[i + 1].xyz_to_uv(cams[i].uv_to_xyz(uv), directions=True)
                kind = plan["types"][i]
                if plan["fit_f"]:
                    kind = "Matches"
                # exact either way round: predicted for the first camera from the second
                uv = cams[i].xyz_to_uv(cams[i + 1].uv_to_xyz(other), directions=True)
                controls.append(faulty(getattr(optimize, kind), self.faults, cams)(cams=[cams[i], cams[i + 1]], uvs=[uv, other]))
                bad.append(np.zeros(6, dtype=bool))
        bad = np.concatenate(bad)
        # disturb the cameras
        cam_params = [{"viewdir": True} for _ in range(n)]
        group_params = [{} for _ in groups]
        for i, cam in enumerate(cams):
            cam._vector[3:6] += g.uniform(-0.4, 0.4, 3)
        if plan["fit_f"] == "cam":
            for i, cam in enumerate(cams):
                cam._vector[8:10] *= 1 + g.uniform(-0.02, 0.02, 2)
                cam_params[i]["f"] = True
        elif grouped:
            for k, idx in enumerate(groups):
                scale = 1 + g.uniform(-0.02, 0.02, 2)
                for i in idx:
                    factors = scale * (1 + plan["spread"] * g.uniform(-1, 1, 2))
                    for c in common[k]:
                        cams[i]._vector[c] *= factors[c - 8]
                group_params[k]["f"] = k if two else True
        weights = None
        if plan["weights"] or plan["outliers"] == "weights":
            weights = g.uniform(0.5, 2, len(bad))
            if plan["outliers"] == "weights":
                weights[bad] = 0
        index = np.nonzero(~bad)[0] if plan["outliers"] == "index" else slice(None)
        model = optimize.Cameras(list(cams), controls, cam_params=cam_params, group_indices=copy.deepcopy(groups if two else plan["groups"]), group_params=group_params, weights=weights, scales=plan["scales"], sparsity=plan["sparsity"])
        now = [c._vector.copy() for c in cams]
        if plan["before"]:
            values = np.array(list(model.params.valuesdict().values()))
            if plan["before"] == "predicted":
                self.call(lambda: model.errors(values + 0.1), None)
            elif plan["before"] == "fault":
                self.call(lambda: model.fit(cam_params=[[{"viewdir": True}] * n], max_nfev=5), plan["fault"])
            else:
                model.set_cameras(values + 0.01)
                model.reset_cameras()
        kw = {"method": plan["method"]}
        if plan["stages"]:
            stage = {"cam_params": [[{"viewdir": True}] * n] * plan["stages"], "group_params": [[{} for _ in groups]] * plan["stages"]}
            if plan["stage_only"] != "both":
                stage = {plan["stage_only"] + "_params": stage[plan["stage_only"] + "_params"]}
            kw.update(stage)
        result, err = self.call(lambda: model.fit(index=index, **kw), None)
        ctx.log("fit", type(err).__name__, len(self.faults.trials))
        ctx.state(("recover", n, plan["groups"] is not None and len(plan["groups"]), plan["fit_f"], plan["matches"], plan["outliers"], plan["stages"], plan["method"], plan["sparsity"]))
        if err is not None:
            raise Violation("unexpected-error", f"fit: {type(err).__name__}: {err}") from err
        for i, (cam, v) in enumerate(zip(cams, now)):
            if not np.array_equal(cam._vector, v):
                raise Violation("camera-changed", f"fit: camera {i} is {cam._vector.tolist()} instead of {v.tolist()}")
        if result is None:
            raise Violation("not-recovered", "the fit of exact observations did not converge")
        model.set_cameras(result)
        ctx.probe("recovered")
        for name, on in (("stages", plan["stages"]), ("group", grouped), ("two-groups", two), ("weights", plan["outliers"] == "weights"), ("index", plan["outliers"] == "index"),
                         ("ungrouped", len(set(sum(groups, []))) < n)):
            if on:
                ctx.probe("recovered-" + name)
        for i, (cam, v) in enumerate(zip(cams, vectors)):
            want = v.copy()
            if grouped:
                fit = [c for idx, cs in zip(groups, common) if i in idx for c in cs]
                for c in {8, 9} - set(fit):
                    want[c] = now[i][c]
            d = np.abs(cam._vector - want)
            if d[3:6].max() > 0.01 or d[8:10].max() > 0.2 or np.delete(d, [3, 4, 5, 8, 9]).max() > 0:
                raise Violation("not-recovered", f"camera {i} is {cam._vector.tolist()} instead of {want.tolist()}")

    # ---- observers ----

    def run_observer(self, ctx, plan):
        import scipy.sparse
        from glimpse import optimize
        from glimpse.camera import Camera
        from glimpse.image import Image
        from glimpse.track.observer import Observer

        n = plan["n"]

        def build():
            g = worlds.rng(plan["seed"], "observer")
            cams = [Camera(imgsz=(200, 150), f=(200, 200), viewdir=g.normal(size=3) * 2, xyz=(1, 2, 3)) for _ in range(n)]
            images = [Image(f"/nonexistent/{i}.jpg", cam=c, datetime=worlds.T0 + datetime.timedelta(days=i)) for i, c in enumerate(cams)]
            observer = Observer(images)
            cams = [img.cam for img in observer.images]
            data, rows, cols = [], [], []
            cls = faulty(optimize.RotationMatchesXYZ, self.faults, cams)
            for i in range(n):
                for j in range(i + 1, n):
                    rays = cams[i].uv_to_xyz(g.uniform([20, 20], [180, 130], (plan["points"], 2)))
                    uvs = [c.xyz_to_uv(rays, directions=True) + g.normal(size=(plan["points"], 2)) for c in (cams[i], cams[j])]
                    data.append(cls(cams=[cams[i], cams[j]], uvs=uvs))
                    rows.append(i)
                    cols.append(j)
            if plan["dense"]:
                matches = np.full((n, n), None, dtype=object)
                matches[rows, cols] = data
            else:
                matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)), shape=(n, n))
                matches.data = np.array(data, dtype=object)
            return cams, data, rows, cols, optimize.ObserverCameras(observer, matches=matches, anchors=plan["anchors"])

        cams, data, rows, cols, model = build()
        now = [c._vector.copy() for c in cams]
        saved = [v.copy() for v in now]
        for number, o in enumerate(plan["ops"]):
            what = f"operation {number} (observer {o['op']})"
            r = worlds.rng(o["seed"], "op")
            if o["op"] == "turn":
                i = r.randint(n)
                now[i][3:6] += r.normal(size=3)
                cams[i].viewdir = now[i][3:6].copy()
            elif o["op"] == "set":
                dirs = r.normal(size=(n, 3)) * 2
                model.set_cameras(dirs)
                for v, d in zip(now, dirs):
                    v[3:6] = d
            elif o["op"] == "reset":
                model.reset_cameras()
                now = [np.concatenate((v[:3], s[3:6], v[6:])) for v, s in zip(now, saved)]
            else:
                def fit(model):
                    return model.fit(method=o["method"], options={"maxiter": o["maxiter"]})

                result, err = self.call(lambda: fit(model), o["fault"])
                ctx.log("observer-fit", type(err).__name__, len(self.faults.trials), self.faults.fired)
                ctx.state(("observer", n, o["method"], self.faults.fired, type(err).__name__))
                if self.faults.fired:
                    ctx.probe("disturbed")
                    continue
                others, data2, _, _, ref = build()
                for cam, v in zip(others, now):
                    cam._vector = v.copy()
                want, error = self.call(lambda: fit(ref), None)
                if type(error) is not type(err):
                    raise Violation("unexpected-error" if error is None else "unexpected-result", f"{what}: {type(err).__name__}: {err}, but a new model {type(error).__name__}: {error}")
                if err is not None:
                    continue
                ctx.probe("observer-compared")
                self.close(result.x, want.x, what, "fit", 1e-5, 1e-7)

                def objective(x):
                    dirs = np.reshape(x, (-1, 3))
                    for cam, v, d in zip(others, now, dirs):
                        cam._vector = v.copy()
                        cam._vector[3:6] = d
                    total = sum(1e6 / 2 * ((dirs[i] - saved[i][3:6]) ** 2).sum() for i in plan["anchors"] or [0])
                    for k, (i, j) in enumerate(zip(rows, cols)):
                        a, b = (others[c]._xy_to_xyz(xy) for c, xy in zip((i, j), data2[k].xys))
                        a, b = (v / np.sqrt((v ** 2).sum(axis=1, keepdims=True)) for v in (a, b))
                        total += np.abs(a - b).sum()
                    return total

                self.close(result.fun, objective(result.x), what, "objective", 1e-7, 1e-9)
                start = objective(np.concatenate([v[3:6] for v in now]))
                if result.fun > start * (1 + 1e-9) + 1e-9:
                    raise Violation("worse", f"{what}: the objective rose from {start} to {result.fun}")

    def shrink(self, plan):
        if plan["kind"] != "recover":
            yield from super().shrink(plan)
            return
        for k, v in {"before": None, "outliers": None, "weights": False, "stages": 0, "matches": False, "groups": None, "fit_f": None, "spread": 0.0, "directions": False, "method": "least_squares"}.items():
            if plan[k] != v:
                yield {**plan, k: v}
        for k in ("split", "points"):
            for i in range(plan["n"]):
                v = plan[k][:i] + [{"split": False, "points": 10}[k]] + plan[k][i + 1 :]
                if v != plan[k]:
                    yield {**plan, k: v}


CHECK = C22()
