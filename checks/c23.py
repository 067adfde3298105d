"""C23: animations and plots of tracks show the data of the frame they stand at."""
import datetime
import os

import numpy as np

from sim import worlds
from sim.check import Check
from sim.core import HarnessError, Violation

BLOCKED = (OSError, MemoryError)


def near(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=tol, equal_nan=True)


class _Shown:
    """A tile as if it were plotted at its box."""

    def __init__(self, box, tile):
        self.box, self.array, self.images = box, tile, [self]

    def get_extent(self):
        return self.box[0], self.box[2], self.box[3], self.box[1]

    def get_array(self):
        return self.array


class C23(Check):
    id = "C23"
    quick = (2500, 85)
    thorough = (60000, 840)
    rule = (
        "A run starts 1-3 animations (of tracks, of an observer, of a moving point) on simulated timers and steps through 6-30 events: timer ticks in "
        "a seeded order, seeks, pauses, movie writes, full redraws, user zooms, cleared image caches, photos that vanish and return, and plots "
        "of the same tracks; two runs are distinct if their event logs differ."
    )
    measure = "distinct (kind of animation, options, event, whether it raised)"
    real = ["glimpse.Tracks (animate, plot_*, endpoints, sigmas, success)", "glimpse.Observer.animate, track and tiles", "matplotlib FuncAnimation and Agg", "GDAL image reads"]
    stubs = ["the timers of the animations (matplotlib's event_source) run on simulated time", "the movie writer (records frames)"]
    assumptions = ["tracked points lie at least half a tile inside the image", "Camera.xyz_to_uv is right (compared elsewhere)",
                   "frames are read off matplotlib's artists, not off pixels"]
    expect_probes = ("tracks", "observer", "point", "tick", "seek", "save", "zoom", "vanished", "raised", "partial-track", "no-tracker", "no-particles",
                     "subset", "clipped", "two-animations", "plot_xy", "plot_v1d", "plot_vxy", "endpoints", "tile", "covariances")

    def gen(self, r, tier):
        n = r.randint(3, 6)
        sizes = [r.choice([[80, 60], [60, 80], [50, 50]])] * n
        if r.random() < 0.25:
            sizes = [r.choice([[80, 60], [60, 80], [50, 50]]) for _ in range(n)]
        nobs = r.randint(1, 2)
        tracks = r.randint(1, 3)
        obs = [{"bands": r.choice([1, 3]), "cache": r.random() < 0.6, "hours": sorted(r.sample(range(1, 60), n)), "turn": [[r.uniform(-2, 2), r.uniform(-2, 2)] for _ in range(n)]}
               for _ in range(nobs)]
        m = r.randint(3, n)
        anims = []
        for _ in range(r.choice([1, 1, 2, 3])):
            kind = r.choice(["tracks"] * 3 + ["observer", "point"])
            anims.append({
                "kind": kind, "track": r.randrange(tracks), "obs": r.randrange(nobs), "particles": r.choice([None, None, True, False]), "images": r.choice([None, None, True, False]),
                "frames": r.choice([None, None, sorted(r.sample(range(n), r.randint(2, n))), r.sample(range(n), r.randint(2, n))]), "as_list": r.random() < 0.5,
                "size": [r.choice([6, 8, 11, 14]), r.choice([6, 8, 11, 14])], "map_size": [r.choice([5, 20]), r.choice([10, 20])],
                "uv": r.choice([None, [r.random(), r.random()], [r.random(), r.random()]]), "interval": r.choice([50, 200, 333]),
            })
        events = []
        for _ in range(r.randint(6, 30)):
            e = {"op": r.choice(["tick"] * 12 + ["seek", "seek", "save", "draw", "zoom", "clear", "vanish", "vanish", "plot", "plot", "pause"]), "k": r.randrange(len(anims)), "x": r.random(),
                 "seq": [r.random() for _ in range(r.randint(1, 4))], "tracks": r.choice(["all", "one", "list", "slice"]),
                 "plot": r.choice(["plot_xy", "plot_v1d", "plot_vxy", "endpoints", "tile"]), "dim": r.randrange(3), "sigma": r.random() < 0.5}
            events.append(e)
        return {
            "n": n, "sizes": sizes, "obs": obs, "m": m, "tracks": tracks, "ends": [[r.choice([0, 0, 0, 1]), r.choice([0, 0, 0, 1, m])] for _ in range(tracks)],
            "particles": r.choice([None, 1, 5, 12]), "weights": r.random() < 0.85, "covariances": r.random() < 0.4, "tracker": r.random() < 0.8,
            "unit": r.choice([3600, 86400, 1800]), "gaps": r.random(), "reverse": r.random() < 0.2, "anims": anims, "events": events, "seed": r.randrange(10**6),
        }

    # ---- the world ----

    def run(self, plan, ctx):
        import matplotlib

        matplotlib.use("agg")
        import matplotlib.animation
        import matplotlib.pyplot as plt

        from glimpse.image import Image
        from glimpse.track.observer import Observer
        from glimpse.track.tracker import Tracker
        from glimpse.track.tracks import Tracks

        self.plt = plt
        plt.close("all")
        g = np.random.default_rng(plan["seed"])
        n, m = plan["n"], plan["m"]
        self.pixels, self.observers, self.files = [], [], {}
        for o, ob in enumerate(plan["obs"]):
            images, pixels = [], []
            for i in range(n):
                w, h = plan["sizes"][i]
                a = g.integers(0, 255, (h, w) if ob["bands"] == 1 else (h, w, 3)).astype(np.uint8)
                path = os.path.join(ctx.scratch, f"o{o}i{i}.png")
                worlds.write_image(path, a)
                pixels.append(a)
                images.append(Image(path, datetime=worlds.T0 + datetime.timedelta(hours=ob["hours"][i]),
                                    cam=dict(imgsz=(w, h), f=(70, 72), xyz=(5 * o, 1, 2), viewdir=(ob["turn"][i][0] + 2 * o, ob["turn"][i][1], 0))))
            self.observers.append(Observer(images, cache=ob["cache"]))
            self.pixels.append(pixels)
        # Tracks that move slowly far ahead of the cameras
        t, p = plan["tracks"], plan["particles"]
        means = np.zeros((t, m, 6))
        start = np.column_stack((g.uniform(-8, 8, t), g.uniform(95, 105, t), g.uniform(-4, 4, t)))
        v = g.uniform(-1, 1, (t, m, 3))
        means[:, :, :3] = start[:, None] + np.cumsum(v, axis=1)
        means[:, :, 3:] = v + g.normal(0, 0.1, v.shape)
        sigmas = g.uniform(0.1, 2, (t, m, 6))
        particles = means[:, :, None] + g.normal(0, 1, (t, m, p, 6)) if p else None
        weights = g.random((t, m, p)) + 0.01 if p and plan["weights"] else None
        for k, (a, b) in enumerate(plan["ends"]):
            gone = np.arange(m) < a
            if b:
                gone |= np.arange(m) >= m - b
            if gone.any():
                ctx.probe("partial-track")
            for x in (means, sigmas, particles, weights):
                if x is not None:
                    x[k, gone] = np.nan
        covariances = None
        if plan["covariances"]:
            ctx.probe("covariances")
            q = g.normal(0, 1, (t, m, 6, 6)) * 0.1
            covariances = q + np.swapaxes(q, 2, 3)
            covariances[:, :, range(6), range(6)] = sigmas**2
        grid = np.empty((m, len(self.observers)), dtype=object)
        for o in range(len(self.observers)):
            pick = sorted(g.choice(n, m, replace=False).tolist())
            for j in range(m):
                grid[j, o] = pick[j] if g.random() > 0.4 * plan["gaps"] else None
        hours = np.cumsum(g.integers(1, 30, m))
        if plan["reverse"]:
            hours = hours[::-1]
        self.datetimes = np.array([worlds.T0 + datetime.timedelta(hours=int(x)) for x in hours])
        self.unit = datetime.timedelta(seconds=plan["unit"])
        self.means, self.sigmas, self.particles, self.weights, self.grid = means, sigmas, particles, weights, grid
        errors = [ValueError("x") if np.isnan(means[k]).any() else None for k in range(t)]
        self.errors = errors
        copy = [None if x is None else x.copy() for x in (means, sigmas, covariances, particles, weights, grid)]
        self.given = copy
        self.tracks = Tracks(self.datetimes.copy(), self.unit, copy[0], sigmas=None if plan["covariances"] else copy[1], covariances=copy[2], particles=copy[3],
                             weights=copy[4], tracker=Tracker(self.observers) if plan["tracker"] else None, images=copy[5], errors=errors)
        self.kept = [x if x is None else x.copy() for x in copy]
        self.spied = None
        real_init = matplotlib.animation.FuncAnimation.__init__
        check = self

        def init(anim, fig, func, *a, **k):
            def spy(i, *args):
                out = func(i, *args)
                check.drawn.append((int(i), list(out)))
                return out

            return real_init(anim, fig, spy, *a, **k)

        matplotlib.animation.FuncAnimation.__init__ = init
        self.drawn = []
        try:
            self.simulate(plan, ctx)
        finally:
            matplotlib.animation.FuncAnimation.__init__ = real_init
            plt.close("all")

    def simulate(self, plan, ctx):
        states = []
        clock = 0.0
        for k, a in enumerate(plan["anims"]):
            s = self.start(plan, ctx, a, f"animation {k} ({a['kind']})")
            if s:
                states.append(s)
                s["due"] = clock + s["timer"].interval
        if len(states) > 1:
            ctx.probe("two-animations")
        for number, e in enumerate(plan["events"]):
            what = f"event {number} ({e['op']})"
            if e["op"] == "plot":
                ctx.probe(e["plot"])
                ctx.log(e["op"], number, e["plot"])
                getattr(self, "do_" + e["plot"])(plan, ctx, e, f"{what} {e['plot']}")
                continue
            if not states:
                continue
            s = states[e["k"] % len(states)]
            if e["op"] == "tick":  # the timer that is due next, as a rule
                s = min(states, key=lambda s: s["due"]) if e["x"] < 0.7 else s
                clock = max(clock, s["due"])
                s["due"] = clock + s["timer"].interval * (0.5 + e["x"])
            ctx.log(e["op"], number, states.index(s))
            ctx.probe(e["op"])
            getattr(self, "do_" + e["op"])(plan, ctx, e, s, f"{what} of animation {s['number']} ({s['a']['kind']})")
            for x, y in zip(self.given, self.kept):
                same = x is y or (all(u == v or u is v for u, v in zip(x.ravel(), y.ravel())) if x.dtype == object else np.array_equal(x, y, equal_nan=True))
                ctx.check(same, "changed-tracks", f"{what}: drawing changed the tracks")
        ctx.sim_seconds += clock / 1000

    def start(self, plan, ctx, a, what):
        from matplotlib.backend_bases import TimerBase

        class Timer(TimerBase):
            running = False

            def _timer_start(self):
                self.running = True

            def _timer_stop(self):
                self.running = False

        ob = self.observers[a["obs"]]
        timer = Timer(interval=a["interval"])
        kw = {"subplots": {"figsize": (3, 1.5), "dpi": 40}, "animation": {"event_source": timer}}
        s = {"a": a, "timer": timer, "number": plan["anims"].index(a), "zoomed": False}
        n, m = plan["n"], plan["m"]
        if a["kind"] == "tracks":
            kw["animation"]["interval"] = a["interval"]
            images, particles = a["images"], a["particles"]
            if not plan["tracker"]:
                images = None if images is None else False
                ctx.probe("no-tracker")
            if self.particles is None or self.weights is None:
                particles = None if particles is None else False
                ctx.probe("no-particles")
            s["images"] = plan["tracker"] if images is None else images
            s["particles"] = (self.particles is not None and self.weights is not None) if particles is None else particles
            valid = [i for i in range(m) if not np.isnan(self.means[a["track"], i, 0]) and self.grid[i, a["obs"]] is not None]
            frames = a["frames"]
            if frames is not None:
                ctx.probe("subset")
                frames = [f for f in frames if f < m]
                valid = [i for i in valid if i in frames]
            if len(valid) < 2:
                return None
            s["all"], s["frames"] = valid, valid[:-1]
            for i in valid:  # photos must hold the whole tile
                if s["images"] and not self.inside(a["obs"], self.grid[i, a["obs"]], self.means[a["track"], i, :3], a["size"]):
                    return None
            kw.update(track=a["track"], obs=a["obs"], frames=frames if frames is None or a["as_list"] else np.array(frames), map_size=tuple(a["map_size"]), img_size=tuple(a["size"]), images=images, particles=particles)
            make = self.tracks.animate
        elif a["kind"] == "observer":
            kw["interval"] = a["interval"]
            frames = list(range(n)) if a["frames"] is None else a["frames"]
            first = frames[0]
            size = np.array(plan["sizes"][first])
            uv = size / 2 if a["uv"] is None else np.array(a["size"]) / 2 + 1 + np.array(a["uv"]) * (size - np.array(a["size"]) - 2)
            s.update(frames=frames, uv=uv, xyz=ob.images[first].uv_to_xyz(np.atleast_2d(uv)))
            kw.update(frames=None if a["frames"] is None else frames if a["as_list"] else np.array(frames), size=tuple(a["size"]), uv=None if a["uv"] is None else uv.copy())
            make = ob.animate
        else:
            kw["interval"] = a["interval"]
            ends = plan["ends"][a["track"]]
            xyz = self.means[a["track"], ends[0] : m - ends[1], :3]
            frames = a["frames"]
            if frames is not None:
                frames = frames[: len(xyz)]
            else:
                frames = list(range(len(xyz)))
            xyz = xyz[: len(frames)]
            if len(frames) < 2 or not all(self.inside(a["obs"], i, x, a["size"]) for i, x in zip(frames, xyz)):
                return None
            s.update(frames=frames, xyz=xyz)
            kw.update(xyz=xyz.copy(), frames=None if a["frames"] is None else frames if a["as_list"] else np.array(frames), size=tuple(a["size"]))
            make = ob.track
        ctx.probe(a["kind"])
        ctx.state((a["kind"], a["frames"] is None, a["as_list"], s.get("images"), s.get("particles"), plan["tracker"]))
        count = len(self.drawn)
        before = self.plt.get_fignums()
        try:
            anim = make(**kw)
            fig = anim._fig
            fig.canvas.draw()
        except Exception as e:  # noqa: BLE001
            raise Violation("raised", f"{what}: {type(e).__name__}: {e}")
        ctx.check(len(self.plt.get_fignums()) == len(before) + 1, "figure", f"{what}: did not make a figure of its own")
        s.update(anim=anim, fig=fig)
        seq = [int(i) for i in anim.new_frame_seq()]
        ctx.check(seq == s["frames"], "wrong-frames", f"{what}: frames {seq} instead of {s['frames']}")
        ctx.check(timer.running, "not-started", f"{what}: does not run once it is drawn")
        ctx.check(len(self.drawn) > count, "not-drawn", f"{what}: draws no frame at first")
        self.verify(plan, ctx, s, what + " at first")
        return s

    def inside(self, o, i, xyz, size):
        im = self.observers[o].images[i]
        uv = im.cam.xyz_to_uv(np.atleast_2d(xyz))[0]
        half = np.array(size) / 2 + 0.01
        return bool(np.all(uv - half > 0) and np.all(uv + half < im.cam.imgsz))

    # ---- events ----

    def step(self, plan, ctx, s, what, action, may=False):
        count = len(self.drawn)
        try:
            action()
        except (HarnessError, Violation):
            raise
        except Exception as e:  # noqa: BLE001
            ctx.state((s["a"]["kind"], "raised", type(e).__name__))
            if not may:
                raise Violation("raised", f"{what}: {type(e).__name__}: {e}")
            ctx.probe("raised")
            return False
        if len(self.drawn) > count:
            self.verify(plan, ctx, s, what)
        return True

    def do_tick(self, plan, ctx, e, s, what):
        if s["timer"].running:
            count = len(self.drawn)
            if self.step(plan, ctx, s, what, s["timer"]._on_timer):
                ctx.check(len(self.drawn) > count, "not-drawn", f"{what}: no frame was drawn")

    def do_pause(self, plan, ctx, e, s, what):
        (s["anim"].pause if s["timer"].running else s["anim"].resume)()

    def do_seek(self, plan, ctx, e, s, what):
        s["anim"].frame_seq = iter([s["frames"][int(x * len(s["frames"]))] for x in e["seq"]])
        s["anim"].resume()
        self.do_tick(plan, ctx, e, s, what)

    def do_draw(self, plan, ctx, e, s, what):
        s["fig"].canvas.draw()
        # what is on the screen stays the frame
        self.verify(plan, ctx, s, what, keep=True)

    def do_zoom(self, plan, ctx, e, s, what):
        for ax in s["fig"].axes[: 1 if e["x"] < 0.5 else 2]:
            ax.set_xlim(e["x"], e["x"] + 30)
            ax.set_ylim(e["x"] + 20, e["x"])
        s["zoomed"] = True
        self.do_tick(plan, ctx, e, s, what)

    def do_clear(self, plan, ctx, e, s, what):
        for ob in self.observers:
            ob.clear_images()
        if e["x"] < 0.5:
            self.observers[s["a"]["obs"]].cache_images()

    def do_vanish(self, plan, ctx, e, s, what):
        """The photos cannot be read for a while."""
        ob = self.observers[s["a"]["obs"]]
        ob.clear_images()
        hit = [im.path for im in ob.images if e["x"] < 0.5 or im is ob.images[int(e["seq"][0] * len(ob.images))]]
        for path in hit:
            os.rename(path, path + "~")
        ctx.fault("photo-vanished")
        ctx.probe("vanished")
        try:
            if s["timer"].running:
                self.step(plan, ctx, s, what, s["timer"]._on_timer, may=True)
        finally:
            for path in hit:
                os.rename(path + "~", path)
        s["anim"].resume()
        self.do_tick(plan, ctx, e, s, what + " returned")

    def do_save(self, plan, ctx, e, s, what):
        from matplotlib.animation import AbstractMovieWriter

        check = self
        grabbed = []

        class Writer(AbstractMovieWriter):
            def setup(self, fig, outfile, dpi=None):
                super().setup(fig, outfile, dpi=dpi)

            def grab_frame(self, **kw):
                check.verify(plan, ctx, s, f"{what}: movie frame {len(grabbed)}")
                grabbed.append(check.drawn[-1][0])

            def finish(self):
                pass

        if not s["timer"].running:
            s["anim"].resume()
        self.step(plan, ctx, s, what, lambda: s["anim"].save(os.path.join(ctx.scratch, "movie"), writer=Writer(fps=5), dpi=40))
        ctx.check(grabbed == s["frames"], "wrong-movie", f"{what}: movie of frames {grabbed} instead of {s['frames']}")

    # ---- what a figure shows ----

    def verify(self, plan, ctx, s, what, keep=False):
        if keep:
            i, artists = s["last"]
        else:
            i, artists = self.drawn[-1]
            s["last"] = i, artists
        what = f"{what}, frame {i}"
        ctx.check(i in s["frames"], "wrong-frame", f"{what}: is not one of {s['frames']}")
        shown = [x for ax in s["fig"].axes for x in [*ax.collections]]
        ctx.check(all(any(x is y for y in artists) for x in shown), "not-redrawn", f"{what}: particles or velocities are not among the drawn artists")
        axes = s["fig"].axes
        getattr(self, "verify_" + s["a"]["kind"])(plan, ctx, s, i, axes, what, keep)

    def tile(self, ctx, o, img, ax, uv, size, what, clip=False):
        ctx.check(len(ax.images) == 1, "tiles", f"{what}: {len(ax.images)} image tiles")
        left, right, bottom, top = ax.images[0].get_extent()
        pixels = self.pixels[o][img]
        half = np.array(size) / 2
        want = np.array([uv[0] - half[0], uv[1] - half[1], uv[0] + half[0], uv[1] + half[1]])
        h, w = pixels.shape[:2]
        if clip:
            want = np.array([max(want[0], 0), max(want[1], 0), min(want[2], w), min(want[3], h)])
        got = np.array([left, top, right, bottom])
        ctx.check(np.all(np.abs(got - want) <= 0.5 + 1e-6) and np.array_equal(got, got.astype(int)), "wrong-tile", lambda: f"{what}: tile {got} around {uv}, of size {size}")
        box = got.astype(int)
        want = pixels[box[1] : box[3], box[0] : box[2]]
        have = np.ma.filled(ax.images[0].get_array(), 0)
        ctx.check(have.shape == want.shape and np.array_equal(have, want), "wrong-pixels", lambda: f"{what}: tile {box} does not hold the photo's pixels")

    def lines(self, ctx, ax, wants, what):
        have = [np.column_stack(x.get_data()) for x in ax.lines]
        ctx.check(len(have) == len(wants), "lines", f"{what}: {len(have)} lines instead of {len(wants)}")
        for want in wants:
            ctx.check(any(near(x, want) for x in have), "wrong-line", lambda: f"{what}: no line {want.tolist()} among {[x.tolist() for x in have]}")

    def limits(self, ctx, ax, center, size, flip, what):
        x, y = ax.get_xlim(), ax.get_ylim()
        wx = (center[0] - size[0] / 2, center[0] + size[0] / 2)
        wy = (center[1] - size[1] / 2, center[1] + size[1] / 2)
        ctx.check(near(x, wx) and near(y, wy[::-1] if flip else wy), "wrong-limits", lambda: f"{what}: shows {x} {y} instead of {wx} {wy}")

    def label(self, ctx, ax, want, what):
        have = [x.get_text() for x in ax.texts]
        ctx.check(have == [want], "wrong-label", lambda: f"{what}: labelled {have} instead of {want!r}")

    def verify_tracks(self, plan, ctx, s, i, axes, what, keep):
        a = s["a"]
        k, o = a["track"], a["obs"]
        img = self.grid[i, o]
        im = self.observers[o].images[img]
        xyz = self.means[k, : i + 1, :3]
        self.lines(ctx, axes[0], [xyz[:, :2]], f"{what}, map")
        if not keep:
            self.limits(ctx, axes[0], xyz[-1], a["map_size"], False, f"{what}, map")
        self.label(ctx, axes[0], os.path.splitext(os.path.basename(im.path))[0] if s["images"] else f"{o} : {img}", what)
        after = s["all"][s["all"].index(i) + 1]
        scale = (self.datetimes[after] - self.datetimes[i]) / self.unit
        quivers = sorted((x for x in axes[0].collections), key=lambda x: len(x.get_offsets()))
        one = self.means[k, i]
        sets = [(one[None, :2], one[None, 3:5], None)]
        if s["particles"]:
            p = self.particles[k, i]
            sets.append((p[:, :2], p[:, 3:5], self.weights[k, i]))
        ctx.check(len(quivers) == len(sets), "arrows", f"{what}: {len(quivers)} sets of arrows instead of {len(sets)}")
        if s["particles"] and len(p) == 1:
            quivers = sorted(quivers, key=lambda x: x.get_array() is not None)
        for q, (xy, v, w) in zip(quivers, sets):
            ctx.check(near(q.get_offsets(), xy), "wrong-arrows", f"{what}: arrows are not at the particles")
            if s["particles"] or plan["tracker"]:
                ctx.check(near(np.column_stack((q.U, q.V)), v * scale), "wrong-arrows", lambda: f"{what}: arrows {q.U[:3]}, {q.V[:3]} are not the velocities times {scale}")
            if w is not None:
                self.colors(ctx, k, q, w, what)
        if not s["images"]:
            ctx.check(len(axes) == 1, "axes", f"{what}: {len(axes)} axes")
            return
        uv = im.cam.xyz_to_uv(xyz)
        self.lines(ctx, axes[1], [uv, uv[-1:]], f"{what}, photo")
        if not keep:
            self.limits(ctx, axes[1], uv[-1], a["size"], True, f"{what}, photo")
        self.tile(ctx, o, img, axes[1], uv[-1], a["size"], what)
        dots = axes[1].collections
        ctx.check(len(dots) == bool(s["particles"]), "dots", f"{what}: {len(dots)} sets of particles on the photo")
        for q in dots:
            ctx.check(near(q.get_offsets(), im.cam.xyz_to_uv(self.particles[k, i, :, :3])), "wrong-dots", f"{what}: the particles are not where the camera sees them")
            self.colors(ctx, k, q, self.weights[k, i], what)

    def colors(self, ctx, k, q, w, what):
        ctx.check(near(q.get_array(), w), "wrong-colors", f"{what}: the particles are not colored by their weights")
        want = np.nanmin(self.weights[k]), np.nanmax(self.weights[k])
        ctx.check(near(q.get_clim(), want), "wrong-colors", lambda: f"{what}: colors from {q.get_clim()} instead of {want}")

    def verify_observer(self, plan, ctx, s, i, axes, what, keep):
        a = s["a"]
        im = self.observers[a["obs"]].images[i]
        uv = im.cam.xyz_to_uv(s["xyz"])[0]
        half = np.array(a["size"]) / 2
        box = np.concatenate((uv - half, uv + half))
        size = im.cam.imgsz
        corners = [(x, y) for x in box[[0, 2]] for y in box[[1, 3]]]
        ins = [0 <= x <= size[0] and 0 <= y <= size[1] for x, y in corners]
        for ax in axes:
            self.lines(ctx, ax, [uv[None]], what)
            if any(ins) and min(np.minimum(box[2:], size) - np.maximum(box[:2], 0)) > 1:
                if not all(ins):
                    ctx.probe("clipped")
                self.tile(ctx, a["obs"], i, ax, uv, a["size"], what, clip=True)
        if not keep:
            self.limits(ctx, axes[0], uv, a["size"], True, what)
            if not s["zoomed"]:
                self.limits(ctx, axes[1], s["uv"], a["size"], True, f"{what}, right")
        self.label(ctx, axes[0], f"{i} : {os.path.splitext(os.path.basename(im.path))[0]}", what)

    def verify_point(self, plan, ctx, s, i, axes, what, keep):
        a = s["a"]
        o = a["obs"]
        im = self.observers[o].images[i]
        j = s["frames"].index(i)
        uv = im.cam.xyz_to_uv(s["xyz"][: j + 1])
        self.lines(ctx, axes[1], [uv, uv[-1:]], f"{what}, right")
        self.tile(ctx, o, i, axes[1], uv[-1], a["size"], f"{what}, right")
        first = s["frames"][0]
        uv0 = self.observers[o].images[first].cam.xyz_to_uv(s["xyz"][:1])
        self.lines(ctx, axes[0], [uv0], f"{what}, left")
        self.tile(ctx, o, first, axes[0], uv0[0], a["size"], f"{what}, left")
        self.label(ctx, axes[1], f"{i} : {os.path.splitext(os.path.basename(im.path))[0]}", what)

    # ---- plots and summaries ----

    def picked(self, plan, e):
        t = plan["tracks"]
        k = int(e["x"] * t)
        index = {"all": slice(None), "one": k, "list": [k, (k + 1) % t], "slice": slice(k, None)}[e["tracks"]]
        return index, np.atleast_1d(np.arange(t)[index]).tolist()

    def figure(self):
        self.plt.figure(figsize=(2, 2), dpi=30)
        return self.plt.gca()

    def do_plot_xy(self, plan, ctx, e, what):
        index, rows = self.picked(plan, e)
        others = [len(f.axes[0].get_children()) for f in map(self.plt.figure, self.plt.get_fignums()) if f.axes]
        ax = self.figure()
        try:
            out = self.tracks.plot_xy(index, sigma=e["sigma"])
        except Exception as err:  # noqa: BLE001
            raise Violation("raised", f"{what}: {type(err).__name__}: {err}")
        wants = [self.means[k, :, :2] for k in rows]
        got = [np.column_stack(x.get_data()) for x in out["mean"]]
        ctx.check(len(got) == len(wants) and all(near(x, y) for x, y in zip(got, wants)), "wrong-plot", f"{what}: lines are not the tracks {rows}")
        got = np.vstack([np.column_stack(x.get_data()) for x in out["start"]])
        ctx.check(near(got, self.means[rows, 0, :2]), "wrong-plot", f"{what}: starts are not those of the tracks {rows}")
        ctx.check(all(x.axes is ax for x in out["mean"] + out["start"]), "wrong-plot", f"{what}: did not plot to the current axes")
        if e["sigma"]:
            ctx.check(len(out["sigma"]) == len(rows), "wrong-plot", f"{what}: {len(out['sigma'])} error bars for {rows}")
            for bars, k in zip(out["sigma"], rows):
                segs = np.concatenate([np.array([q if len(q) else np.full((2, 2), np.nan) for q in c.get_segments()]) for c in bars[2]])
                for d in (0, 1):
                    size = np.nanmax(np.abs(segs[:, 1, d] - segs[:, 0, d])) if np.isfinite(segs).any() else np.nan
                    want = 2 * np.nanmax(self.sigmas[k, :, d]) if np.isfinite(self.sigmas[k, :, d]).any() else np.nan
                    ctx.check(near(size, want), "wrong-plot", lambda: f"{what}: error bars up to {size} instead of {want}")
        self.plt.close(ax.figure)
        ctx.check(others == [len(f.axes[0].get_children()) for f in map(self.plt.figure, self.plt.get_fignums()) if f.axes], "wrong-plot", f"{what}: plotted to another figure")

    def do_plot_vxy(self, plan, ctx, e, what):
        index, rows = self.picked(plan, e)
        ax = self.figure()
        try:
            out = self.tracks.plot_vxy(index)
        except Exception as err:  # noqa: BLE001
            raise Violation("raised", f"{what}: {type(err).__name__}: {err}")
        ctx.check(len(out) == len(rows), "wrong-plot", f"{what}: {len(out)} quivers for {rows}")
        for q, k in zip(out, rows):
            ctx.check(near(np.ma.filled(np.column_stack((q.X, q.Y)), np.nan), self.means[k, :, :2]), "wrong-plot", f"{what}: arrows are not at the track {k}")
            ok = ~np.isnan(self.means[k, :, 3])
            ctx.check(near(np.column_stack((q.U, q.V))[ok], self.means[k, ok, 3:5]), "wrong-plot", f"{what}: arrows are not the velocities of track {k}")
        self.plt.close(ax.figure)

    def do_plot_v1d(self, plan, ctx, e, what):
        index, rows = self.picked(plan, e)
        d = e["dim"]
        ax = self.figure()
        try:
            out = self.tracks.plot_v1d(d, index, sigma=e["sigma"])
        except Exception as err:  # noqa: BLE001
            raise Violation("raised", f"{what}: {type(err).__name__}: {err}")
        ctx.check(len(out["mean"]) == len(rows), "wrong-plot", f"{what}: {len(out['mean'])} lines for {rows}")
        for line, k in zip(out["mean"], rows):
            ctx.check(list(line.get_xdata()) == list(self.datetimes) and near(line.get_ydata(), self.means[k, :, 3 + d]), "wrong-plot", f"{what}: not the velocity of track {k}")
        if e["sigma"]:
            ctx.check(len(out["sigma"]) == len(rows), "wrong-plot", f"{what}: {len(out['sigma'])} bands for {rows}")
            for band, k in zip(out["sigma"], rows):
                mean, sigma = self.means[k, :, 3 + d], self.sigmas[k, :, 3 + d]
                want = {*np.round(mean + sigma, 6), *np.round(mean - sigma, 6)} if not np.isnan(mean).any() else None
                if want:
                    got = {round(float(y), 6) for p in band.get_paths() for y in p.vertices[:, 1]}
                    ctx.check(got == {float(x) for x in want}, "wrong-plot", f"{what}: band is not one sigma around track {k}")
        self.plt.close(ax.figure)

    def do_endpoints(self, plan, ctx, e, what):
        index, rows = self.picked(plan, e)
        if e["tracks"] == "one":
            index = rows
        t = self.tracks
        valid = ~np.isnan(self.means[rows, :, 0])
        some = valid.any(axis=1)
        mask, first, last = t.endpoints(index)
        want = [np.flatnonzero(v) for v in valid[some]]
        ctx.check(list(mask) == list(some) and list(first) == [w[0] for w in want] and list(last) == [w[-1] for w in want], "wrong-endpoints",
                  lambda: f"{what}: {mask, first, last} for {valid.tolist()}")
        ctx.check(near(t.xyz, self.means[..., :3]) and near(t.vxyz, self.means[..., 3:]), "wrong-means", f"{what}: positions or velocities")
        ctx.check(near(t.xyz_sigma, self.sigmas[..., :3]) and near(t.vxyz_sigma, self.sigmas[..., 3:]), "wrong-sigmas", f"{what}: standard deviations of positions or velocities")
        ctx.check(list(t.success) == [x is None for x in self.errors], "wrong-success", f"{what}: {t.success}")

    def do_tile(self, plan, ctx, e, what):
        o, i = int(e["seq"][0] * len(self.observers)), int(e["x"] * plan["n"])
        ob = self.observers[o]
        h, w = self.pixels[o][i].shape[:2]
        size = np.array([4 + 2 * e["dim"], 3 + int(10 * e["x"])])
        uv = size / 2 + 1 + np.array([e["x"], e["seq"][-1]]) * (np.array([w, h]) - size - 2)
        ax = self.figure()
        try:
            box = ob.tile_box(uv, size, i)
            tile = ob.extract_tile(box, i)
            im = ob.plot_tile(tile, box=box if e["sigma"] else None)
            rect = ob.plot_box(box, fill=False)
        except Exception as err:  # noqa: BLE001
            raise Violation("raised", f"{what}: {type(err).__name__}: {err}")
        ctx.check(im.axes is ax and rect.axes is ax, "wrong-plot", f"{what}: did not plot to the current axes")
        self.tile(ctx, o, i, _Shown(box, tile), uv, size, what)
        want = (box[0], box[2], box[3], box[1]) if e["sigma"] else (0, size[0], size[1], 0)
        ctx.check(near(im.get_extent(), want), "wrong-plot", lambda: f"{what}: tile plotted at {im.get_extent()} instead of {want}")
        ctx.check(np.array_equal(np.ma.filled(im.get_array(), 0), tile), "wrong-plot", f"{what}: other pixels were plotted")
        got = rect.get_bbox().extents
        ctx.check(near(np.sort(got.reshape(2, 2), axis=0).ravel(), box), "wrong-plot", f"{what}: box {got} instead of {box}")
        self.plt.close(ax.figure)

    def shrink(self, plan):
        ev = plan["events"]
        for i in range(len(ev)):
            yield {**plan, "events": ev[:i] + ev[i + 1 :]}
        if len(plan["anims"]) > 1:
            for i in range(len(plan["anims"])):
                yield {**plan, "anims": plan["anims"][:i] + plan["anims"][i + 1 :]}
        for k, v in {"covariances": False, "gaps": 0.0, "reverse": False, "ends": [[0, 0]] * plan["tracks"], "sizes": [[80, 60]] * plan["n"]}.items():
            if plan[k] != v:
                yield {**plan, k: v}


CHECK = C23()
