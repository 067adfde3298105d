"""C05: resampling conserves particles for every random stream."""
import numpy as np

from sim.check import Check
from sim.core import Violation
from sim.rng import Extreme, Streams

PROFILES = ["uniform", "peaked", "integers", "zeros", "single", "dyadic", "tiny", "thirds", "equal", "spread", "lastzero"]


def make_weights(profile, n, r):
    if profile == "uniform":
        w = r.random_sample(n)
    elif profile == "peaked":
        w = np.full(n, 1e-300)
        w[r.randint(0, n, max(1, n // 4))] += r.random_sample(max(1, n // 4))
    elif profile == "integers":
        w = r.randint(0, 4, n).astype(float)
    elif profile == "zeros":
        w = r.random_sample(n) * (r.random_sample(n) < 0.4)
    elif profile == "single":
        w = np.zeros(n)
        w[r.randint(n)] = r.choice([1.0, 1e-300, 3e10])
    elif profile == "dyadic":
        # integer number of copies for some, a power of two in total
        w = np.zeros(n)
        for _ in range(n):
            w[r.randint(n)] += 1
        if r.randint(2):
            i, j = r.randint(n), r.randint(n)
            if w[i] >= 1 and i != j:
                w[i] -= 0.5
                w[j] += 0.5
    elif profile == "tiny":
        w = np.full(n, 1e-300) * r.randint(1, 5, n)
    elif profile == "thirds":
        w = np.ones(n) / r.choice([3.0, 7.0, 0.1, 49.0])
        w[r.random_sample(n) < 0.2] *= 2
    elif profile == "equal":
        w = np.full(n, r.choice([1.0, 0.1, 1 / 3, 1e-300, 7e200 / n]))
    elif profile == "spread":
        w = 10.0 ** r.uniform(-280, 10, n)
    else:
        w = r.random_sample(n)
        w[-r.randint(1, n + 1):] = 0
    if not w.sum() > 0:
        w[r.randint(n)] = 1.0
    return w


class C05(Check):
    id = "C05"
    quick = (9000, 90)
    thorough = (600000, 840)
    rule = (
        "A run resamples particle sets of generated size and weights several times in a row with one of the four "
        "methods, with draws from a simulated stream that is plain or pushed to the edges of [0, 1); two runs are "
        "distinct if their event logs (weights, draws, copy counts) differ."
    )
    measure = "distinct (method, weight profile, stream, size, copy-count histogram)"
    real = ["glimpse.track.tracker.Tracker.resample_particles", "numpy searchsorted/cumsum/RandomState.choice"]
    stubs = ["np.random draws (simulated streams)"]
    assumptions = ["random draws reach the code through numpy.random's module functions",
                   "copies are compared with n*w within 1e-9 relative rounding"]
    expect_probes = ("zero-weight-present", "edge-stream", "exact-integer-copies")

    def gen(self, r, tier):
        return {
            "method": r.choice(["systematic", "stratified", "residual", "choice"]),
            "stream": r.choice(["plain", "edge", "edge", "allzero", "allone", "mean"]),
            "seed": r.randrange(2**31),
            "steps": [
                {"profile": r.choice(PROFILES), "n": r.choice([1, 2, 3, 4, 5, 7, 8, 16, 33, 49, 64, 100, 250]),
                 "wseed": r.randrange(2**31), "keep": r.random() < 0.3}
                for _ in range(r.randint(1, 5))
            ],
            "as_attribute": r.random() < 0.5,
        }

    def run(self, plan, ctx):
        from glimpse.track.tracker import Tracker

        rate = {"plain": 0.0, "edge": 0.6, "allzero": 1.0, "allone": 1.0, "mean": 0.0}[plan["stream"]]
        edges = {"allzero": (0.0,), "allone": (float(np.nextafter(1.0, 0.0)),)}.get(plan["stream"])

        def factory(seed):
            s = Extreme(seed, rate)
            if edges:
                s.EDGES = edges
            return s

        streams = Streams(plan["seed"], factory)
        streams.install()
        method = plan["method"]
        tracker = Tracker([], resample_method=method if plan["as_attribute"] else "choice")
        if plan["stream"] == "mean":
            return self.run_mean(plan, ctx, tracker)
        last = None
        for k, st in enumerate(plan["steps"]):
            n = st["n"]
            r = np.random.RandomState(st["wseed"])
            if last is not None and st["keep"]:
                particles, w = last
                n = len(w)
            else:
                particles = np.column_stack([np.arange(n), r.randn(n, 5)]).astype(float)
                w = make_weights(st["profile"], n, r)
            w0, p0 = w.copy(), particles.copy()
            tracker.particles, tracker.weights = particles, w
            try:
                tracker.resample_particles(*(() if plan["as_attribute"] else (method,)))
            except Exception as e:  # noqa: BLE001
                raise Violation("resample-raised", f"{method} on {n} weights {w0[:8]}...: {type(e).__name__}: {e}")
            np_, nw_ = np.asarray(tracker.particles), np.asarray(tracker.weights)
            self.judge(ctx, method, p0, w0, np_, nw_, exact=st["profile"] == "dyadic" and not (last and st["keep"]))
            ctx.log(k, method, st["profile"], np_[:, 0].tolist())
            ctx.state((method, st["profile"], plan["stream"], n, sorted(np_[:, 0].tolist())))
            last = (np_, nw_)
            # after a copy the ids repeat: make them unique again for the next step
            np_ = np_.copy()
            np_[:, 0] = np.arange(len(np_))
            last = (np_, nw_.copy())
        st = streams.states.get("main")
        if st is not None and st.extremes:
            ctx.fault("edge-draw", st.extremes)
            ctx.probe("edge-stream")
        ctx.steps = len(plan["steps"])

    def judge(self, ctx, method, p0, w0, p1, w1, exact):
        n = len(w0)
        ctx.check(p1.shape == (n, 6) and w1.shape == (n,), "count", f"{p1.shape} {w1.shape} from {n}")
        ids = p1[:, 0].astype(int)
        ctx.check(np.all((ids >= 0) & (ids < n)), "not-a-copy", "unknown particle")
        ctx.check(np.array_equal(p1, p0[ids]), "not-a-copy", "a resampled particle is not one of the originals")
        ctx.check(np.array_equal(w1, w0[ids]), "weight-mismatch", "a copy does not carry its particle's weight")
        counts = np.bincount(ids, minlength=n)
        zero = w0 == 0
        if zero.any():
            ctx.probe("zero-weight-present")
        ctx.check(not counts[zero].any(), "zero-weight-copied", lambda: f"{method}: counts {counts[zero]}, weights {w0}")
        nw = n * (w0 / w0.sum())
        eps = 1e-9 * max(1, n)
        if exact:
            ctx.probe("exact-integer-copies")
            if method == "residual":
                eps = 0
        if method == "systematic":
            ok = (counts >= np.floor(nw - eps)) & (counts <= np.ceil(nw + eps))
            ctx.check(ok.all(), "copies-out-of-bounds", lambda: f"systematic {counts[~ok]} for {nw[~ok]}")
        elif method == "stratified":
            ok = np.abs(counts - nw) < 2 + eps
            ctx.check(ok.all(), "copies-out-of-bounds", lambda: f"stratified {counts[~ok]} for {nw[~ok]}")
        elif method == "residual":
            ok = counts >= np.floor(nw - eps)
            ctx.check(ok.all(), "copies-out-of-bounds", lambda: f"residual {counts[~ok]} for {nw[~ok]}")
            if exact:
                whole = nw == np.floor(nw)
                ok = ~whole | (counts == nw)
                ctx.check(ok.all(), "copies-out-of-bounds", lambda: f"residual whole {counts[~ok]} for {nw[~ok]}")

    def run_mean(self, plan, ctx, tracker):
        """Over many plain draws each particle is copied n*w times on average."""
        st = plan["steps"][0]
        n = min(st["n"], 16)
        w = make_weights(st["profile"], n, np.random.RandomState(st["wseed"]))
        p = np.column_stack([np.arange(n), np.zeros((n, 5))]).astype(float)
        total = np.zeros(n)
        reps = 400
        for _ in range(reps):
            tracker.particles, tracker.weights = p, w
            try:
                tracker.resample_particles(plan["method"])
            except Exception as e:  # noqa: BLE001
                raise Violation("resample-raised", f"{plan['method']} on {n} weights {w[:8]}...: {type(e).__name__}: {e}")
            total += np.bincount(tracker.particles[:, 0].astype(int), minlength=n)
        nw = n * (w / w.sum())
        # counts have variance at most n*w*(1-w) (multinomial); 7 sigma
        tol = 7 * np.sqrt(np.maximum(nw * (1 - nw / n), 0) / reps) + 0.02
        ok = np.abs(total / reps - nw) <= tol
        ctx.log("mean", plan["method"], (total / reps).round(6).tolist())
        ctx.state((plan["method"], st["profile"], "mean", n))
        ctx.probe("mean-counts")
        ctx.steps = reps
        ctx.check(ok.all(), "biased", lambda: f"{plan['method']}: mean copies {total / reps} for n*w {nw}")

    def shrink(self, plan):
        for i in range(len(plan["steps"])):
            if len(plan["steps"]) > 1:
                yield {**plan, "steps": plan["steps"][:i] + plan["steps"][i + 1:]}
        for i, st in enumerate(plan["steps"]):
            for n in (1, 2, 3, 4, 8):
                if n < st["n"]:
                    yield {**plan, "steps": plan["steps"][:i] + [{**st, "n": n}] + plan["steps"][i + 1:]}
            if st["keep"]:
                yield {**plan, "steps": plan["steps"][:i] + [{**st, "keep": False}] + plan["steps"][i + 1:]}
            for p in ("equal", "uniform"):
                if p != st["profile"] and st["profile"] not in ("equal", "uniform"):
                    yield {**plan, "steps": plan["steps"][:i] + [{**st, "profile": p}] + plan["steps"][i + 1:]}
        if plan["stream"] not in ("plain", "mean"):
            yield {**plan, "stream": "plain"}


CHECK = C05()
