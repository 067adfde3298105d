"""C14: RANSAC terminates with distinct samples and consistent inliers."""
import math
import warnings

import numpy as np

from sim import rng, worlds
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation

ERRORS = {"ValueError": ValueError, "LinAlgError": np.linalg.LinAlgError, "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError, "IndexError": IndexError}


class Sticky(np.random.RandomState):
    """A legal stream that often repeats or barely changes its last permutation."""

    def __init__(self, seed, rate):
        super().__init__(seed)
        self._rate = rate
        self.repeats = 0

    def _sticks(self):
        if super().random_sample() < self._rate:
            self.repeats += 1
            return True
        return False

    def shuffle(self, x):
        if self._sticks():
            if len(x) > 1 and super().random_sample() < 0.3:
                i = super().randint(0, len(x))
                j = super().randint(0, len(x))
                x[i], x[j] = x[j], x[i]
            return
        super().shuffle(x)

    def permutation(self, x):
        out = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        self.shuffle(out)
        return out

    def choice(self, a, size=None, replace=True, p=None):
        if not self._sticks() or not hasattr(self, "_last") or self._last[0] != repr((a, size, replace)):
            self._last = (repr((a, size, replace)), super().choice(a, size, replace, p))
        return np.array(self._last[1]) if np.ndim(self._last[1]) else self._last[1]


class Model:
    """A model as the documentation of ``ransac`` asks for, which records its calls and fails on demand."""

    def __init__(self, check, inner, size, faults, kind):
        self.check, self.inner, self.size, self.faults, self.kind = check, inner, size, faults, kind
        self.fits, self.errored = [], []
        self.count = 0
        self.raised = None

    def fault(self, kind):
        for f in self.faults:
            if f["at"] == self.count and f["on"] == kind:
                self.check.ctx.fault(f"{kind}-{f['do']}")
                return f
        return None

    def fit(self, index=slice(None), **kwargs):
        full = np.arange(self.size)
        idx = [int(i) for i in full[index]] if isinstance(index, slice) else [int(i) for i in np.asarray(index).ravel()]
        if not isinstance(index, slice) and any(i != j for i, j in zip(np.asarray(index).ravel(), idx)):
            raise Violation("index", f"the model was fitted to the indices {index}")
        self.count += 1
        entry = {"index": idx, "params": None, "kwargs": kwargs}
        self.fits.append(entry)
        self.check.limit(self)
        f = self.fault("fit")
        if f is None:
            stuck = self.check.unfit(idx)
            f = {"do": "none"} if stuck else None
        if f is not None:
            if f["do"] == "none":
                return None
            self.raised = ERRORS[f["error"]]("injected")
            raise self.raised
        entry["params"] = self.inner.fit(np.array(idx), **({} if self.kind != "cameras" else kwargs))
        return entry["params"]

    def errors(self, params, index=slice(None)):
        self.count += 1
        f = self.fault("errors")
        if f is not None and f["do"] == "raise":
            self.raised = ERRORS[f["error"]]("injected")
            raise self.raised
        return self.pure(params, index)

    def pure(self, params, index=slice(None)):
        return self.inner.errors(params, index)


class Lookup:
    """A model whose fits and errors are arbitrary functions of the sample."""

    def __init__(self, seed, size, levels):
        self.seed, self.size, self.levels = seed, size, levels

    def fit(self, index):
        key = hash(tuple(sorted(int(i) for i in index))) % (2**31)
        return np.random.RandomState((key + self.seed) % 2**31).uniform(size=3)

    def errors(self, params, index=slice(None)):
        g = np.random.RandomState(int(params[0] * 1e9) % 2**31)
        e = g.uniform(0, 2, self.size)
        if self.levels:
            e = np.round(e * self.levels) / self.levels + 0.01
        bad = g.uniform(size=self.size) < 0.03
        e[bad] = np.nan if params[2] < 0.2 else 100
        return e[index]


class C14(Check):
    id = "C14"
    quick = (9000, 70)
    thorough = (800000, 840)
    rule = (
        "A run calls RANSAC 1-3 times on line, camera and arbitrary models of 2-40 members under random streams that repeat permutations, with "
        "trial fits that fail to converge for chosen samples or raise at a chosen call, and replays the recorded fits on a reference of the acceptance rule; "
        "runs are distinct by event log."
    )
    measure = "distinct (model, n, size, iterations against possible samples, outcome, qualified trials, faults)"
    real = ["ransac and its sampling", "Polynomial", "Cameras (fit, errors)"]
    stubs = ["np.random draws (simulated streams)", "arbitrary user models"]
    assumptions = ["a stream does not repeat the same permutations for ever (no finite procedure could then find further samples)",
                   "members whose error equals the threshold and trials of equal mean error may be decided either way"]
    expect_probes = ("polynomial", "lookup", "cameras", "exhausted", "partial", "no-consensus", "found", "raised", "unfit", "all-unfit", "too-large", "sticky", "better-later", "refit-failed", "many-sizes", "inliers-differ", "kwargs")

    def gen(self, r, tier):
        calls = []
        for _ in range(r.randint(1, 3)):
            kind = r.choice(["polynomial"] * 6 + ["lookup"] * 12 + (["cameras"] if r.random() < 0.15 else []))
            size = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 40])
            n = r.choice([1, 2, 2, 3, 4, size - 1, size // 2, size, size + 1])
            n = max(1, n)
            if kind == "cameras":
                size, n = r.choice([8, 10]), r.choice([4, 5])
            total = math.comb(size, n)
            it = r.choice([1, 2, 5, 20, 100, total, total, total + 1, total - 1, 3 * total])
            it = max(1, min(it, 4 if kind == "cameras" else 120))
            calls.append({"kind": kind, "size": size, "n": n, "iterations": it, "max_error": r.choice([0.05, 0.3, 0.7, 1.5, 5]) if kind != "cameras" else 2.0, "min_inliers": r.choice([0, 0, 1, 2, size // 3, size]),
                          "seed": r.randrange(10**6), "stream": r.choice(["plain", "sticky", "sticky"]), "rate": r.choice([0.3, 0.6, 0.9]),
                          "unfit": r.choice([0, 0, 0.2, 0.5, 0.9, 1]), "levels": r.choice([0, 0, 3, 10]), "default": r.random() < 0.1, "keywords": r.random() < 0.3,
                          "faults": [] if r.random() < 0.7 else [{"at": r.choice([1, 2, 3, r.randint(1, 30), r.randint(1, 200)]), "on": r.choice(["fit", "fit", "errors"]), "do": r.choice(["none", "raise"]),
                                                                 "error": r.choice(sorted(ERRORS))} for _ in range(r.randint(1, 3))]})
        return {"calls": calls}

    def limit(self, model):
        if len(model.fits) > 4 * self.allowed + 10:
            raise Violation("too-many-fits", f"{self.what}: the model was fitted {len(model.fits)} times for at most {self.allowed} samples")

    def unfit(self, idx):
        if not self.call["unfit"]:
            return False
        if len(idx) == self.call["n"] or self.call["seed"] % 3 == 0:
            g = np.random.RandomState((hash(tuple(sorted(idx))) + self.call["seed"]) % 2**31)
            if g.uniform() < self.call["unfit"]:
                self.ctx.fault("fit-does-not-converge")
                self.ctx.probe("unfit" if len(idx) == self.call["n"] else "refit-failed")
                return True
        return False

    def inner(self, c):
        from glimpse import optimize
        from glimpse.camera import Camera

        g = worlds.rng(c["seed"], "data")
        if c["kind"] == "polynomial":
            x = g.uniform(0, 10, c["size"])
            y = 2 * x + 1 + g.normal(size=c["size"]) * 0.1
            y[g.uniform(size=c["size"]) < 0.3] += 5
            return optimize.Polynomial(np.column_stack((x, y)), deg=1 if c["n"] > 1 else 0)
        if c["kind"] == "lookup":
            return Lookup(c["seed"], c["size"], c["levels"])
        cam = Camera(imgsz=(100, 80), f=(100, 100), viewdir=(1, 2, 3))
        xyz = cam.uv_to_xyz(g.uniform([10, 10], [90, 70], (c["size"], 2))) * 50
        uv = cam.xyz_to_uv(xyz) + g.normal(size=(c["size"], 2)) * 0.2
        uv[g.uniform(size=c["size"]) < 0.2] += 20
        cam.viewdir = cam.viewdir + 0.5
        return optimize.Cameras([cam], [optimize.Points(cam=cam, uv=uv, xyz=xyz)], cam_params=[{"viewdir": True}])

    def run(self, plan, ctx):
        import sys
        from checks.c13 import Faults, Stdout

        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        self.ctx = ctx
        stdout, sys.stdout = sys.stdout, Stdout(Faults(ctx))
        try:
            for number, c in enumerate(plan["calls"]):
                self.one(ctx, c, f"call {number}")
        finally:
            sys.stdout = stdout

    def one(self, ctx, c, what):
        from glimpse import optimize

        n, size, total = c["n"], c["size"], math.comb(c["size"], c["n"])
        iterations = 100 if c["default"] else c["iterations"]
        if c["kind"] == "cameras":
            iterations = c["iterations"]
        self.call, self.what = c, f"{what}: {c['kind']} n={n} size={size} iterations={iterations}"
        self.allowed = min(iterations, total)
        ctx.probe(c["kind"])
        model = Model(self, self.inner(c), size, c["faults"], c["kind"])
        seed = c["seed"]
        factory = (lambda s: Sticky(seed, c["rate"])) if c["stream"] == "sticky" else (lambda s: np.random.RandomState(seed))
        streams = rng.Streams(seed, factory)
        streams.install()

        # a coupon collector finds all samples well within these draws
        slow = 1 / (1 - c["rate"]) if c["stream"] == "sticky" else 1
        bound = int(200 + 60 * slow * (self.allowed + 1) * (1 + math.log(self.allowed + 1)) * (10 if self.allowed > 0.9 * total else 1)) * (size + n)

        def count(name, a):
            if streams.draws > bound:
                raise Violation("endless", f"{self.what}: {streams.draws} draws without an end after {len(model.fits)} fits ({self.allowed} samples possible)")

        streams.on_draw = count
        kw = {"option": 1} if c["keywords"] and c["kind"] != "cameras" else {"max_nfev": 5} if c["kind"] == "cameras" else {}
        args = {"model": model, "n": n, "max_error": c["max_error"], "min_inliers": c["min_inliers"]}
        if not c["default"] or c["kind"] == "cameras":
            args["iterations"] = c["iterations"]
        try:
            result, err = optimize.ransac(**args, **kw), None
        except (HarnessError, Deadlock, StepLimit, Violation):
            raise
        except BaseException as e:  # noqa: BLE001
            result, err = None, e
        if c["stream"] == "sticky" and getattr(streams.state(), "repeats", 0):
            ctx.probe("sticky")
            ctx.fault("repeated-permutation", streams.state().repeats)
        if kw:
            ctx.probe("kwargs")
        ctx.log("ransac", type(err).__name__, [f["index"] for f in model.fits], streams.draws, None if result is None else np.asarray(result[1]).tolist())
        ctx.state((c["kind"], n, size, (iterations > total) - (iterations < total), type(err).__name__, c["unfit"], len(c["faults"])))
        if n >= size:
            ctx.probe("too-large")
            if err is None:
                raise Violation("too-large", f"{self.what}: a sample as large as the data was accepted")
            if not isinstance(err, ValueError):
                raise Violation("too-large", f"{self.what}: {type(err).__name__}: {err}") from err
            return
        for f in model.fits:
            if f["kwargs"] != kw:
                raise Violation("kwargs", f"{self.what}: the model was fitted with the options {f['kwargs']} instead of {kw}")
        self.judge(ctx, c, model, result, err)

    def judge(self, ctx, c, model, result, err):
        n, size = c["n"], c["size"]
        what = self.what
        samples = [i for i, f in enumerate(model.fits) if len(f["index"]) == n]
        seen = set()
        for i in samples:
            idx = model.fits[i]["index"]
            if len(set(idx)) != n or min(idx) < 0 or max(idx) >= size:
                raise Violation("sample", f"{what}: the sample {idx} does not have {n} distinct members")
            if frozenset(idx) in seen:
                raise Violation("repeated", f"{what}: the sample {sorted(idx)} was drawn twice")
            seen.add(frozenset(idx))
        if model.raised is not None:
            ctx.probe("raised")
            if err is not model.raised:
                raise Violation("exception", f"{what}: the model raised {model.raised!r}, but the result was {err!r} {result!r}")
            return
        if len(samples) != self.allowed:
            raise Violation("sample-count", f"{what}: {len(samples)} samples of {self.allowed} were tried")
        ctx.probe("exhausted" if self.allowed == math.comb(size, n) else "partial")
        # reference
        tried = []
        full = np.arange(size)
        for k, i in enumerate(samples):
            f = model.fits[i]
            nxt = model.fits[i + 1 : samples[k + 1] if k + 1 < len(samples) else len(model.fits)]
            if f["params"] is None:
                if nxt:
                    raise Violation("refit", f"{what}: the model was fitted again after a failed fit to {f['index']}")
                continue
            rest = np.delete(full, f["index"])
            e = model.pure(f["params"], rest)
            also = rest[e < c["max_error"]]
            wants = len(also) > c["min_inliers"]
            if wants != bool(nxt) or len(nxt) > 1:
                raise Violation("acceptance", f"{what}: the sample {f['index']} with {len(also)} inliers (more than {c['min_inliers']} wanted) was refitted {len(nxt)} times")
            if not wants:
                continue
            group = sorted(f["index"]) + sorted(also)
            if sorted(nxt[0]["index"]) != sorted(int(g) for g in group):
                raise Violation("consensus", f"{what}: the model was refitted to {sorted(nxt[0]['index'])} instead of the consensus set {sorted(group)}")
            if nxt[0]["params"] is None:
                continue
            tried.append((float(np.mean(model.pure(nxt[0]["params"], np.array(nxt[0]["index"])))), nxt[0]["params"]))
        finite = [t for t in tried if t[0] == t[0] and t[0] < np.inf]
        if not finite:
            ctx.probe("all-unfit" if not any(model.fits[i]["params"] is not None for i in samples) else "no-consensus")
            if err is None:
                raise Violation("unqualified", f"{what}: no trial met the criteria, but {result!r} was returned")
            if not isinstance(err, ValueError):
                raise Violation("unqualified", f"{what}: {type(err).__name__}: {err}") from err
            return
        ctx.probe("found")
        if err is not None:
            raise Violation("failed", f"{what}: {len(finite)} trials met the criteria, but {type(err).__name__}: {err}") from err
        params, inliers = result
        best = min(t[0] for t in finite)
        if finite[0][0] > best:
            ctx.probe("better-later")
        ok = [p for m, p in finite if m <= best * (1 + 1e-12) + 1e-15]
        if not any(np.array_equal(np.asarray(params), np.asarray(p)) for p in ok):
            raise Violation("not-best", f"{what}: returned {params} with mean errors tried {[m for m, _ in finite]}")
        e = model.pure(params)
        got = np.asarray(inliers)
        must, may = np.nonzero(e < c["max_error"])[0], np.nonzero(e <= c["max_error"])[0]
        if len(set(got.tolist())) != len(got) or not set(must.tolist()) <= set(got.tolist()) <= set(may.tolist()):
            raise Violation("inliers", f"{what}: the inliers are {got.tolist()} instead of {must.tolist()}")
        if len({len(x["index"]) for x in model.fits}) > 2:
            ctx.probe("many-sizes")
        if set(got.tolist()) not in [set(x["index"]) for x in model.fits]:
            ctx.probe("inliers-differ")

    def shrink(self, plan):
        calls = plan["calls"]
        if len(calls) > 1:
            for i in range(len(calls)):
                yield {"calls": calls[:i] + calls[i + 1 :]} | {k: v for k, v in plan.items() if k != "calls"}
        for i, c in enumerate(calls):
            for k, v in {"faults": [], "unfit": 0, "stream": "plain", "levels": 0, "keywords": False, "default": False, "min_inliers": 0, "iterations": 1}.items():
                if c[k] != v:
                    yield {**plan, "calls": calls[:i] + [{**c, k: v}] + calls[i + 1 :]}
            for size in (3, 4, 6, 8):
                if size < c["size"] and c["kind"] != "cameras":
                    yield {**plan, "calls": calls[:i] + [{**c, "size": size}] + calls[i + 1 :]}
            for n in (1, 2, 3):
                if n < c["n"] and c["kind"] != "cameras":
                    yield {**plan, "calls": calls[:i] + [{**c, "n": n}] + calls[i + 1 :]}


CHECK = C14()
