"""C01: tracks do not depend on parallelism, scheduling or the other tracks."""
import copy

from sim import worlds
from sim.check import Check
from sim.core import Violation
from sim.tracking import differing, error_text, head_digest, make_streams, part_digest, track, use_pool


def yielding(pool_ref):
    """Motion models whose callbacks are scheduling points."""

    def wrap(cls):
        class Yielding(cls):
            def initialize_particles(self):
                pool_ref[0].point("init")
                return super().initialize_particles()

            def evolve_particles(self, particles, dt):
                super().evolve_particles(particles, dt)
                pool_ref[0].point("evolve")

            def compute_log_likelihoods(self, particles):
                pool_ref[0].point("likelihood")
                return super().compute_log_likelihoods(particles)

        return Yielding

    return wrap


class C01(Check):
    id = "C01"
    quick = (1500, 100)
    thorough = (60000, 840)
    rule = (
        "A run builds observers from generated image files and 2-5 motion models, tracks them once serially, once under "
        "a simulated pool (processes or threads) whose every scheduling decision comes from the seed, and each model "
        "alone, all with the same per-model random streams; runs are distinct by event log (schedule and results)."
    )
    measure = "distinct (mode, workers, delivery order, number of switches)"
    real = ["Tracker.track and everything below it (observers, images, rasters, cameras, motion models)", "GDAL", "OpenCV",
            "forked worker processes (real fork, memory isolation and result pickling)", "threads (real, one running at a time)"]
    stubs = ["sharedmem.MapReduce / MapReduceByThread (simulated pool with the same contract)", "np.random draws",
             "os.cpu_count", "wall clock"]
    assumptions = ["random draws are compared per motion model: each model has its own simulated stream",
                   "threads are preempted between Python lines of glimpse and at motion-model callbacks, not inside C calls"]
    expect_probes = ("process-mode", "thread-mode", "late-delivery", "solo-error")

    def gen(self, r, tier):
        w = worlds.gen_world(r, tier, max_obs=3, max_models=5)
        return {
            "world": w,
            "mode": r.choice(["process", "process", "thread"]),
            "parallel": r.choice([True, 1, 2, 2, 3, 5]),
            "ncpu": r.choice([1, 2, 3, 4]),
            "seed": r.randrange(2**31),
            "far": r.random() < 0.2,
        }

    def run(self, plan, ctx):
        world = plan["world"]
        if plan["far"]:
            world = copy.deepcopy(world)
            world["models"][-1]["xy"] = [200.0, 0.0]  # a track that fails on its own
        paths = worlds.observer_files(world, ctx.scratch)
        args = worlds.track_args(world)
        nm = len(world["models"])
        pool_ref = [None]

        def fresh(models=None):
            tracker = worlds.build_tracker(world, worlds.build_observers(world, paths))
            return tracker, [worlds.build_model(m, wrap=yielding(pool_ref)) for m in (models or world["models"])]

        # reference: serial
        streams = make_streams(plan["seed"])
        pool_ref[0] = use_pool(ctx, "serial", streams, keys=lambda m, i: ("model", i))
        tracker, models = fresh()
        base = track(tracker, models, {**args, "parallel": False})
        # each model alone
        solo = []
        for i in range(nm):
            pool_ref[0] = use_pool(ctx, "serial", streams, keys=lambda m, j, i=i: ("model", i))
            tracker, models = fresh([world["models"][i]])
            solo.append(track(tracker, models, {**worlds.track_args(world, model=i), "parallel": False}))
        # simulated schedule
        pool_ref[0] = pool = use_pool(ctx, plan["mode"], streams, keys=lambda m, i: ("model", i), ncpu=plan["ncpu"])
        tracker, models = fresh()
        sim = track(tracker, models, {**args, "parallel": plan["parallel"]})
        ctx.probe(plan["mode"] + "-mode")
        ctx.fault("task-switch", pool.switches)
        order = [e for e in ctx.events if e.startswith("('deliver'")]
        if order != sorted(order):
            ctx.probe("late-delivery")
            ctx.fault("late-delivery")
        ctx.state((plan["mode"], pool.max_np, order, min(pool.switches, 40)))
        # compare
        if base.exc is not None or sim.exc is not None:
            ctx.log("exc", repr(base.exc)[:200], repr(sim.exc)[:200])
            raise Violation("raised", f"serial {base.exc!r}, {plan['mode']} {sim.exc!r}")
        a, b = base.tracks, sim.tracks
        ctx.check(head_digest(a) == head_digest(b), "head-differs", "datetimes, images or time unit differ")
        for t, name in ((a, "serial"), (b, plan["mode"])):
            ctx.check(len(t.means) == nm, "track-count", f"{name}: {len(t.means)} tracks for {nm} models")
            ctx.check(t.errors is not None and len(t.errors) == nm, "track-count", f"{name}: errors {t.errors!r}")
        for i in range(nm):
            ctx.log("track", i, part_digest(a, i), error_text(a.errors[i]))
            d = differing(worlds.track_parts(a, i), worlds.track_parts(b, i))
            ctx.check(not d, "schedule-dependent", f"track {i}: {d} differ between serial and {plan['mode']}")
            ctx.check(error_text(a.errors[i]) == error_text(b.errors[i]), "schedule-dependent-error",
                      lambda: f"track {i}: {a.errors[i]!r} vs {b.errors[i]!r}")
            s = solo[i]
            if s.exc is not None:
                ctx.probe("solo-error")
                ctx.check(a.errors[i] is not None, "depends-on-others", f"track {i} fails alone only: {s.exc!r}")
                ctx.check(str(s.exc) in str(a.errors[i]), "depends-on-others",
                          lambda: f"track {i}: alone {s.exc!r}, together {a.errors[i]!r}")
            else:
                ctx.check(a.errors[i] is None, "depends-on-others", lambda: f"track {i} fails together only: {a.errors[i]!r}")
                d = differing(worlds.track_parts(a, i), worlds.track_parts(s.tracks, 0))
                ctx.check(not d, "depends-on-others", f"track {i}: {d} differ from tracking model {i} alone")

    def shrink(self, plan):
        for w in worlds.shrink_world(plan["world"]):
            yield {**plan, "world": w}
        if plan["far"]:
            yield {**plan, "far": False}
        if plan["parallel"] is not False and plan["parallel"] != 2:
            yield {**plan, "parallel": 2}


CHECK = C01()
