"""C15: point matches stay aligned through any sequence of operations."""
import datetime
import os
import pickle
import random

import numpy as np

from sim import worlds
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation
from sim.tracking import make_streams, use_pool

TYPES = ["Matches", "RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ"]
XY = ("RotationMatchesXY", "RotationMatchesXYZ")


def mtype(name):
    from glimpse import optimize

    return getattr(optimize, name)


class Refused(RuntimeError):
    pass


def refusing(base, first):
    """A match type (user code) that cannot be made of the matches whose first point is ``first``."""

    class Type(base):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            pts = self.uvs if self.uvs is not None else self.xys
            if len(pts[0]) and first is not None and self.weights is not None and self.weights[0] == first:
                raise Refused("no such matches")

    return Type


class C15(Check):
    id = "C15"
    quick = (2500, 100)
    thorough = (150000, 840)
    rule = (
        "A run applies 3-14 operations (convert, filter, resize, turn or move cameras, save and reload, drop images, work on a copy) "
        "to the matches of 2-5 images, serially or under a simulated process or thread pool, with failing pairs, invalid "
        "arguments and worker deaths, comparing every pair with a list-of-pairs model after each; runs are distinct by event log."
    )
    measure = "distinct (operation, type before, image coordinates kept, weights, failure, schedule)"
    real = ["Matches and its subclasses", "KeypointMatcher.convert_matches / filter_matches / drop_images / matches_per_image", "Camera",
            "helpers.write_pickle / read_pickle"]
    stubs = ["sharedmem.MapReduce (simulated processes and threads)"]
    assumptions = ["Camera projection is correct (used to compute expected errors)"]
    expect_probes = ("convert", "filter", "resize", "reload", "drop", "turn", "copy", "raised", "worker-killed", "emptied", "cleared-uvs",
                     "back-to-image", "process", "thread", "n_best", "min_weight", "max_error", "max_distance", "moved")

    def gen(self, r, tier):
        n = r.choice([2, 2, 3, 3, 4, 5])
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if r.random() < 0.8] or [(0, 1)]
        ops = []
        for _ in range(r.randint(3, 14)):
            op = {"op": r.choice(["convert"] * 4 + ["filter"] * 5 + ["resize"] * 2 + ["reload", "drop", "turn", "copy", "copy", "move"])}
            if op["op"] in ("convert", "filter"):
                op["mode"] = r.choice(["serial", "serial", "process", "thread"])
                op["np"] = 0 if op["mode"] == "serial" else r.choice([1, 2, 3])
                op["fault"] = r.choice([None] * 5 + ["pair", "pair", "kill"])
                op["item"] = r.randrange(len(pairs))
            if op["op"] in ("convert", "copy"):
                op["type"] = r.choice(TYPES + ["Matches"])
                op["clear_uvs"] = r.random() < 0.5
            if op["op"] in ("filter", "copy"):
                op["n_best"] = r.choice([None, None, None, 1, 3, 8, 100])
                op["min_weight"] = r.choice([None, None, None, r.uniform(0, 1)])
                op["max_error"] = r.choice([None, None, r.random(), 0.95])
                op["max_distance"] = r.choice([None, None, r.random(), 0.95])
                op["exact"] = r.random() < 0.3
                op["scaled"] = r.random() < 0.3
                op["cam"] = r.choice([0, 0, 1])
                op["clear_weights"] = r.random() < 0.1
                op["by_cam"] = r.random() < 0.2
                op["all"] = r.random() < 0.05
            if op["op"] == "copy":
                op["pair"] = r.randrange(len(pairs))
                op["resize"] = r.choice([None, None, 0.5])
            if op["op"] == "resize":
                op["size"] = r.choice([0.5, 0.25, 2, 1, "bad", "force", "wide", "tall", "shape"])
            if op["op"] == "drop":
                op["imgs"] = r.choice([r.randrange(n), sorted(r.sample(range(n), r.randint(0, min(2, n))))])
                op["last"] = r.random() < 0.3
            if op["op"] in ("turn", "move"):
                op["img"] = r.randrange(n)
                op["by"] = [r.uniform(-2, 2) for _ in range(3)]
            ops.append(op)
        return {
            "n": n, "pairs": pairs, "sizes": [r.choice([0, 1, 2, 5, 9, 12]) for _ in pairs],
            "weights": [r.random() < 0.85 for _ in pairs] if r.random() < 0.3 else [r.random() < 0.9] * len(pairs),
            "imgsz": [[80, 60] if r.random() < 0.75 else r.choice([[40, 30], [160, 120], [60, 60], [60, 80]]) for _ in range(n)]
            if r.random() < 0.4 else [[80, 60]] * n,
            "distorted": r.random() < 0.4, "seed": r.randrange(10**6), "ops": ops, "start": r.choice(["Matches"] * 3 + TYPES),
            "keypoints": r.random() < 0.5, "tuple_cams": r.random() < 0.5,
        }

    # ---- the world ----

    def run(self, plan, ctx):
        import scipy.sparse

        from glimpse import optimize
        from glimpse.image import Image

        g = np.random.default_rng(plan["seed"])
        rr = random.Random(plan["seed"])
        os.chdir(ctx.scratch)
        n = plan["n"]
        images = []
        worlds.write_image(os.path.join(ctx.scratch, "a.png"), np.zeros((6, 8), np.uint8))
        for i in range(n):
            w, h = plan["imgsz"][i]
            images.append(Image(
                os.path.join(ctx.scratch, "a.png"), datetime=worlds.T0 + datetime.timedelta(hours=i),
                cam=dict(imgsz=(w, h), f=(w * 1.2, w * 1.25), c=(0.5, -0.3), xyz=(1, 2, 3), viewdir=(4 * rr.random(), -3 * rr.random(), rr.random()),
                         k=[0.02 * rr.random(), 0, 0, 0, 0, 0] if plan["distorted"] else [0] * 6, p=[0.001, 0] if plan["distorted"] else [0, 0])))
        self.cams0 = [im.cam for im in images]
        mt = optimize.KeypointMatcher(images)
        model = []
        self.given, self.witnesses = [], []
        data = np.empty(len(plan["pairs"]), dtype=object)
        for k, ((i, j), size) in enumerate(zip(plan["pairs"], plan["sizes"])):
            uvs = [g.uniform(0.05, 0.95, (size, 2)) * plan["imgsz"][i]]
            # near where the other camera sees the same directions, with errors of various sizes
            d = images[i].cam.uv_to_xyz(uvs[0]) if size else np.zeros((0, 3))
            uvs.append((images[j].cam.xyz_to_uv(d, directions=True) if size else np.zeros((0, 2))) + g.normal(0, 1, (size, 2)) * g.uniform(0, 4, (size, 1)))
            w = g.permutation(np.linspace(0.01, 0.99, size)) + k * 1e-5 if plan["weights"][k] else None
            cams = (images[i].cam, images[j].cam) if plan["tuple_cams"] else [images[i].cam, images[j].cam]
            given = [u.copy() for u in uvs], None if w is None else w.copy()
            self.given.append((given, (uvs, w)))
            m = mtype(plan["start"])(cams, given[0], weights=given[1])
            data[k] = m
            model.append({"ij": (i, j), "ids": list(range(size)), "uvs": uvs, "imgsz": [np.array(plan["imgsz"][x]) for x in (i, j)], "w": w,
                          "weights": w is not None, "type": plan["start"], "has_uvs": True})
        m = scipy.sparse.coo_matrix(([1] * len(data), ([p[0] for p in plan["pairs"]], [p[1] for p in plan["pairs"]])), shape=(n, n))
        m.data = data
        mt.matches = m
        self.snapshots = {}
        keys = [object() for _ in range(n)]
        if plan["keypoints"]:
            mt.keypoints = list(keys)
        self.streams = make_streams(1)
        state = {"mt": mt, "model": model, "images": list(range(n)), "keys": keys}
        self.compare(ctx, plan, state, "start")
        for number, op in enumerate(plan["ops"]):
            what = f"operation {number} ({op['op']})"
            ctx.log("op", number, op["op"])
            ctx.probe(op["op"])
            getattr(self, "do_" + op["op"])(ctx, plan, state, op, what)
            self.compare(ctx, plan, state, what)
            self.bystanders(ctx, state, op, what)

    @staticmethod
    def snapshot(m):
        def copy(x):
            return None if x is None else [np.array(a) for a in x]

        return [copy(m.uvs), copy(getattr(m, "xys", None)), None if m.weights is None else [np.array(m.weights)]]

    def bystanders(self, ctx, state, op, what):
        """Matches no longer (or never) in the matcher, and the arrays it was built from, must not change."""
        data = list(state["mt"].matches.data)
        for i, (m, snap) in list(self.snapshots.items()):
            if not any(m is x for x in data):
                self.witnesses.append((m, snap))  # dropped out: as it was before the operation
        self.snapshots = {id(m): (m, self.snapshot(m)) for m in data}
        for m, snap in self.witnesses:
            now = self.snapshot(m)
            for name, a, b in zip(("image coordinates", "camera coordinates", "weights"), snap, now):
                same = (a is None) == (b is None) and (a is None or all(np.array_equal(x, y) for x, y in zip(a, b)))
                ctx.check(same, "other-matches-changed", f"{what}: {name} of other matches (made or replaced earlier) changed")
        for (uvs, w), (uvs0, w0) in self.given:
            same = all(np.array_equal(a, b) for a, b in zip(uvs, uvs0)) and (w is None or np.array_equal(w, w0))
            ctx.check(same, "arguments-changed", f"{what}: the arrays the matches were built from changed")
        if len(self.witnesses) < 12 and data:
            m = data[len(self.witnesses) % len(data)]
            other = [t for t in TYPES + ["Matches"] if mtype(t) is not type(m)]
            try:
                m = m.to_type(mtype(other[(op.get("item") or 0) % len(other)]))
            except Exception:  # noqa: BLE001
                return
            self.witnesses.append((m, self.snapshot(m)))

    # ---- expected values ----

    def points(self, p, c, cams):
        """Expected image coordinates of a pair's points in its camera c."""
        return p["uvs"][c][p["ids"]] * (cams[c].imgsz / p["imgsz"][c])

    def camera_points(self, p, c, cams):
        d = cams[c].uv_to_xyz(self.points(p, c, cams)) @ cams[c].R.T
        return d[:, :2] / d[:, 2:3]

    def cams(self, state, p):
        return [self.cams0[i] for i in p["ij"]]

    def compare(self, ctx, plan, state, what):
        mt, model = state["mt"], state["model"]
        ids = state["images"]
        ctx.check([im.cam for im in mt.images] == [self.cams0[i] for i in ids], "wrong-images", f"{what}: the images are not {ids}")
        if mt.keypoints is not None:
            ctx.check(len(mt.keypoints) == len(ids) and all(k is state["keys"][i] for k, i in zip(mt.keypoints, ids)), "wrong-keypoints",
                      f"{what}: keypoints no longer belong to their images")
        s = mt.matches
        ctx.check(s.shape == (len(ids), len(ids)), "wrong-shape", f"{what}: {s.shape} for {len(ids)} images")
        got = {(ids[int(i)], ids[int(j)]): m for m, i, j in zip(s.data, s.row, s.col)}
        ctx.check(len(s.data) == len(got) == len(model) and set(got) == {p["ij"] for p in model}, "wrong-pairs",
                  lambda: f"{what}: pairs {sorted(got)} instead of {sorted(p['ij'] for p in model)}")
        for p in model:
            self.compare_pair(ctx, got[p["ij"]], p, self.cams(state, p), f"{what}: pair {p['ij']}")
        if len(ids):
            want = [sum(len(p["ids"]) for p in model if i in p["ij"]) for i in ids]
            ctx.check(list(mt.matches_per_image()) == want, "wrong-counts", f"{what}: matches_per_image {mt.matches_per_image()}, not {want}")
            want = [sum(len(p["ids"]) > 0 for p in model if i in p["ij"]) for i in ids]
            ctx.check(list(mt.images_per_image()) == want, "wrong-counts", f"{what}: images_per_image {mt.images_per_image()}, not {want}")

    def compare_pair(self, ctx, m, p, cams, what):
        if any(a is not b for a, b in zip(m.cams, cams)):
            raise Violation("wrong-camera", f"{what}: the matches refer to other camera objects than the images'")
        ctx.check(type(m).__mro__[0].__name__ in (p["type"], "Type"), "wrong-type", f"{what}: {type(m).__name__} instead of {p['type']}")
        size = len(p["ids"])
        ctx.check(m.size == size, "wrong-size", f"{what}: {m.size} points instead of {size}")
        if p["weights"]:
            ctx.check(m.weights is not None and np.array_equal(m.weights, p["w"][p["ids"]]), "wrong-weights", f"{what}: {m.weights}")
        else:
            ctx.check(m.weights is None, "wrong-weights", f"{what}: weights appeared")
        if p["has_uvs"]:
            for c in range(2):
                ctx.check(m.uvs is not None and np.shape(m.uvs[c]) == (size, 2) and np.allclose(m.uvs[c], self.points(p, c, cams), rtol=0, atol=1e-3),
                          "wrong-points", lambda: f"{what}, camera {c}: image coordinates are not the original pairs {p['ids']}")
        else:
            ctx.check(m.uvs is None, "wrong-points", f"{what}: image coordinates were to be cleared")
        if p["type"] != "Matches":
            for c in range(2):
                ctx.check(np.shape(m.xys[c]) == (size, 2), "wrong-points", f"{what}, camera {c}: {np.shape(m.xys[c])} camera coordinates")
                if size:
                    ctx.check(np.allclose(m.xys[c], self.camera_points(p, c, cams), rtol=0, atol=1e-5), "wrong-camera-points",
                              lambda: f"{what}, camera {c}: camera coordinates are not those of the original pairs {p['ids']}")

    # ---- operations ----

    def attempt(self, fn):
        try:
            fn()
            return None
        except (HarnessError, Deadlock, StepLimit):
            raise
        except Exception as e:  # noqa: BLE001
            return e

    def pool(self, ctx, op, n):
        kill = None
        if op["fault"] == "kill" and op["mode"] == "process" and n:
            kill = {"map": 0, "item": op["item"] % n, "at": random.Random(op["item"]).choice(["start", "end"])}
        if op["mode"] != "serial":
            ctx.probe(op["mode"])
        use_pool(ctx, op["mode"], self.streams, kill=kill)
        return kill

    def adopt(self, ctx, state, news, failed, kill, what):
        """After an operation that raised: every pair is as before or done; a failing one is as before."""
        ctx.probe("raised")
        got = {(state["images"][int(i)], state["images"][int(j)]): m
               for m, i, j in zip(state["mt"].matches.data, state["mt"].matches.row, state["mt"].matches.col)}
        model = state["model"]
        for k, (old, new) in enumerate(zip(model, news)):
            m = got[old["ij"]]
            if k in failed or new is None:
                continue
            same = (m.size, type(m).__name__.replace("Type", new["type"]), m.uvs is not None, m.weights is not None)
            if same == (len(new["ids"]), new["type"], new["has_uvs"], new["weights"]):
                model[k] = new

    def do_convert(self, ctx, plan, state, op, what):
        model, mt = state["model"], state["mt"]
        name = op["type"]
        T = mtype(name)
        refused = set()
        if op["fault"] == "pair" and op["mode"] != "process" and model:
            k = op["item"] % len(model)
            p = model[k]
            if p["weights"] and p["ids"]:
                T = refusing(T, p["w"][p["ids"][0]])
                refused = {k}
        clear = op["clear_uvs"]
        news = [self.converted(p, name, clear and T is mtype(name)) for p in model]
        kill = self.pool(ctx, op, len(model))
        e = self.attempt(lambda: mt.convert_matches(T, clear_uvs=clear, parallel=op["np"] or False))
        ctx.state(("convert", tuple(sorted({(p["type"], p["has_uvs"], p["weights"]) for p in model})), name, clear, type(e).__name__, op["mode"]))
        expected = bool(refused or kill)
        if kill:
            ctx.probe("worker-killed")
        if e is None:
            ctx.check(not expected, "did-not-raise", f"{what}: {'a worker died' if kill else 'a pair could not be converted'}, but nothing was raised")
            state["model"] = news
        else:
            if not expected:
                raise Violation("raised", f"{what}: {type(e).__name__}: {e}")
            self.adopt(ctx, state, news, refused, kill, what)
        for p, q in zip(model, news):
            if not q["has_uvs"]:
                ctx.probe("cleared-uvs")
            elif not p["has_uvs"]:
                ctx.probe("back-to-image")
        if refused:  # back to a type the model knows
            ctx.check(all(type(m).__name__ != "Type" for k, m in enumerate(mt.matches.data) if k in refused), "half-done", f"{what}: converted despite the failure")
            for k, m in enumerate(mt.matches.data):
                if type(m).__name__ == "Type":
                    m.__class__ = mtype(name)

    def converted(self, p, name, clear):
        q = {**p, "type": name}
        if name == p["type"]:
            if clear and name in XY:
                q["has_uvs"] = False
            return q
        if name in XY:
            q["has_uvs"] = p["has_uvs"] and not clear
        else:
            q["has_uvs"] = True
        return q

    def selection(self, ctx, p, op, cams):
        """(kept ids, arguments) of a filter on a pair; None where the call must or may raise."""
        kw = {}
        size = len(p["ids"])
        keep = np.ones(size, bool)
        for name in ("n_best", "min_weight"):
            if op[name]:
                kw[name] = op[name]
        if kw and not p["weights"]:
            return None, kw
        w = p["w"][p["ids"]] if p["weights"] else None
        if "n_best" in kw:
            keep[np.argsort(-w)[op["n_best"] :]] = False
        if "min_weight" in kw:
            keep &= w >= op["min_weight"]
        return keep, kw

    def values(self, p, cams, ci):
        """Errors and distances of a pair in the units of its type."""
        co = 1 - ci
        if not p["ids"]:
            return np.zeros(0), np.zeros(0)
        if p["type"] in XY:
            a, b = self.camera_points(p, ci, cams), self.camera_points(p, co, cams)
            d = cams[co].uv_to_xyz(self.points(p, co, cams)) @ cams[ci].R.T
            pred = d[:, :2] / d[:, 2:3]
            return np.linalg.norm(a - pred, axis=1), np.linalg.norm(a - b, axis=1)
        a, b = self.points(p, ci, cams), self.points(p, co, cams)
        pred = cams[ci].xyz_to_uv(cams[co].uv_to_xyz(b), directions=True)
        return np.linalg.norm(a - pred, axis=1), np.linalg.norm(b * (cams[ci].imgsz / cams[co].imgsz) - a, axis=1)

    def threshold(self, values, q):
        v = np.sort(np.concatenate(values)) if values else np.zeros(0)
        if not len(v):
            return 1.0
        k = min(int(q * len(v)), len(v) - 1)
        t = (v[k] + v[min(k + 1, len(v) - 1)]) / 2 + (1e-3 if k == len(v) - 1 else 0)
        return None if t <= 0 or np.any(np.abs(v - t) < 1e-5) else float(t)

    def filter_args(self, ctx, state, op, pairs):
        """Arguments of a filter and what it does to each pair: the new pair, or None if it may raise."""
        ci = op["cam"]
        kw = {}
        weights = [p["w"][p["ids"]] for p in pairs if p["weights"] and p["ids"]]
        if op["exact"] and op["min_weight"] and weights:  # the least weight is one of the weights, and stays
            w = np.concatenate(weights)
            op = {**op, "min_weight": float(w[np.argmin(np.abs(w - op["min_weight"]))])}
        for name in ("n_best", "min_weight"):
            if op[name]:
                kw[name] = op[name]
                ctx.probe(name)
        xy = any(p["type"] in XY for p in pairs)
        vals = {}
        scaled = op["scaled"] and not xy and len({tuple(self.cams(state, p)[ci].imgsz) for p in pairs}) == 1
        unit = self.cams(state, pairs[0])[ci].imgsz[0] if scaled and pairs else 1
        for name, q in (("max_error", 0), ("max_distance", 1)):
            if op[name] is None:
                continue
            if name == "max_distance" and xy and any(tuple(a.imgsz) != tuple(b.imgsz) for a, b in (self.cams(state, p) for p in pairs)):
                continue  # camera coordinates have no pixel distance
            vals[name] = [self.values(p, self.cams(state, p), ci)[q] for p in pairs]
            if op["all"]:
                t = 1e-9
            else:
                t = self.threshold(vals[name], op[name])
            if t is None:
                del vals[name]
                continue
            kw[name] = t / unit
            ctx.probe(name)
            vals[name] = [v <= t for v in vals[name]]
        if kw.keys() & {"max_error", "max_distance"}:
            kw["cam"] = ci
            if scaled:
                kw["scaled"] = True
        news = []
        for k, p in enumerate(pairs):
            keep, wkw = self.selection(ctx, p, op, None)
            if keep is None:
                news.append((None, True, True))
                continue
            if p["type"] == "RotationMatchesXYZ" and vals:
                # predicted and observed do not compare for this type (but nothing may be left to compare)
                must = bool(keep.any() or len(keep) and "max_error" in vals)
                news.append((None if must else {**p, "ids": []}, True, must))
                continue
            for name in vals:
                keep = keep & vals[name][k]
            news.append(({**p, "ids": [x for x, y in zip(p["ids"], keep) if y]}, False, False))
        return kw, news

    def do_filter(self, ctx, plan, state, op, what, moved=False):
        model, mt = state["model"], state["mt"]
        if not model:
            return
        kw, news = self.filter_args(ctx, state, op, model)
        may = {k for k, (_, m, _) in enumerate(news) if m}
        must = {k for k, (_, _, m) in enumerate(news) if m}
        restore = None
        if op["fault"] == "pair" and "max_error" in kw:
            k = op["item"] % len(model)
            cam = self.cams(state, model[k])[0]
            hit = {i for i, p in enumerate(model) if any(c is cam for c in self.cams(state, p))}
            restore = cam.xyz.copy()
            cam.xyz = restore + 1
            may |= hit
            must |= hit
        kill = self.pool(ctx, op, len(model))
        clear = op["clear_weights"]
        e = self.attempt(lambda: mt.filter_matches(clear_weights=clear, parallel=op["np"] or False, **kw))
        if restore is not None:
            cam.xyz = restore
        ctx.state(("filter", tuple(sorted({(p["type"], p["has_uvs"], p["weights"]) for p in model})), tuple(sorted(kw)), type(e).__name__, op["mode"]))
        news = [None if q is None else {**q, "weights": q["weights"] and not clear} for q, _, _ in news]
        if kill:
            ctx.probe("worker-killed")
        if e is None:
            ctx.check(not must and not kill, "did-not-raise", f"{what}: pairs {sorted(must)} could not be filtered or a worker died, but nothing was raised")
            state["model"] = news
        else:
            if not (may or kill):
                raise Violation("raised", f"{what} {kw}: {type(e).__name__}: {e}")
            self.adopt(ctx, state, news, must, kill, what)
        if any(p["ids"] and not q["ids"] for p, q in zip(model, state["model"])):
            ctx.probe("emptied")

    def do_resize(self, ctx, plan, state, op, what):
        mt, model = state["mt"], state["model"]
        size, force = op["size"], False
        fixed = any(p["type"] != "Matches" for p in model)
        cams = {id(c): c for p in model for c in self.cams(state, p)}.values()
        for m, p in zip(mt.matches.data, model):
            before = [c.to_array() for c in self.cams0]
            a, b = self.cams(state, p)
            if p["type"] != "Matches":
                e = self.attempt(lambda: m.resize(0.5))
                ctx.check(e is not None, "did-not-raise", f"{what}: {p['type']} was resized")
                ctx.check(all(np.array_equal(x, c.to_array()) for x, c in zip(before, self.cams0)), "camera-changed", f"{what}: a failed resize changed a camera")
                continue
            if fixed:
                continue  # other matches rely on the camera as it is
            m.resize()  # earlier matches may have resized its cameras
            if size == "bad":
                e = self.attempt(lambda: m.resize((77, 10)))
                ctx.check(e is not None, "did-not-raise", f"{what}: resized to another shape")
            elif size == "shape":  # fits the first camera, perhaps not the other
                e = self.attempt(lambda: m.resize(tuple(int(x) for x in plan["imgsz"][p["ij"][0]])))
                if e is not None:
                    ctx.probe("raised")
            elif size in ("force", "wide", "tall"):  # the original is [80, 60], mostly
                to = {"force": (50, 40), "wide": (100, 60), "tall": (80, 30)}[size]
                e = self.attempt(lambda: m.resize(to, force=True))
                if e is not None:
                    raise Violation("raised", f"{what}: {type(e).__name__}: {e}")
            else:
                e = self.attempt(lambda: m.resize(size))
                if e is not None:
                    raise Violation("raised", f"{what}: {type(e).__name__}: {e}")
            if e is not None:
                ctx.check(all(np.array_equal(x, c.to_array()) for x, c in zip(before, self.cams0)), "camera-changed", f"{what}: a failed resize changed a camera")
            self.compare_pair(ctx, m, p, [a, b], what)
        if not fixed:
            for m in mt.matches.data:
                m.resize()
        ctx.state(("resize", size, fixed, len(list(cams))))

    def do_reload(self, ctx, plan, state, op, what):
        from glimpse import helpers

        mt = state["mt"]
        for k, m in enumerate(mt.matches.data):
            path = os.path.join(ctx.scratch, f"m{k}.pkl")
            helpers.write_pickle(m, path)
            q = helpers.read_pickle(path)
            q.cams = (mt.images[mt.matches.row[k]].cam, mt.images[mt.matches.col[k]].cam)
            mt.matches.data[k] = q

    def do_drop(self, ctx, plan, state, op, what):
        mt, model, ids = state["mt"], state["model"], state["images"]
        if not ids:
            return
        imgs = op["imgs"]
        if isinstance(imgs, int):
            imgs = imgs % len(ids)
            gone = {ids[imgs]}
        else:
            imgs = [i for i in imgs if i < len(ids)]
            gone = {ids[i] for i in imgs}
        new = [p for p in model if not set(p["ij"]) & gone]
        if not new and not op["last"]:
            return
        e = self.attempt(lambda: mt.drop_images(imgs))
        if e is not None:
            raise Violation("raised", f"{what} {imgs}: {type(e).__name__}: {e}")
        state["model"] = new
        state["images"] = [i for i in ids if any(i in p["ij"] for p in new)]

    def do_turn(self, ctx, plan, state, op, what):
        cam = self.cams0[op["img"]]
        cam.viewdir = np.asarray(cam.viewdir) + np.asarray(op["by"])

    def do_move(self, ctx, plan, state, op, what):
        """Predictions refuse cameras that are apart, and carry on once they are not."""
        model = state["model"]
        if not model:
            return
        p = model[0]
        m = state["mt"].matches.data[[k for k, q in enumerate(model) if q is p][0]]
        cam = self.cams(state, p)[0]
        old = cam.xyz.copy()
        cam.xyz = old + np.abs(op["by"]) + 1
        e = self.attempt(lambda: m.predicted())
        cam.xyz = old
        ctx.probe("moved")
        ctx.check(e is not None, "did-not-raise", f"{what}: predicted between cameras at different positions")

    def do_copy(self, ctx, plan, state, op, what):
        """Work on a converted set leaves the one it was made from alone."""
        model = state["model"]
        if not model:
            return
        k = op["pair"] % len(model)
        p = model[k]
        if op["type"] == p["type"]:
            return
        m = state["mt"].matches.data[k]
        new = self.converted(p, op["type"], False)
        q = m.to_type(mtype(op["type"]))
        self.compare_pair(ctx, q, new, self.cams(state, p), f"{what}: converted to {op['type']}")
        kw, news = self.filter_args(ctx, state, op, [new])
        want, may, must = news[0]
        if op["by_cam"] and "cam" in kw:
            kw["cam"] = self.cams(state, p)[kw["cam"]]
        e = self.attempt(lambda: q.filter(**kw))
        if e is None:
            ctx.check(not must, "did-not-raise", f"{what}: {kw} on {op['type']}")
            new = want
        elif not may:
            raise Violation("raised", f"{what} {kw}: {type(e).__name__}: {e}")
        self.compare_pair(ctx, q, new, self.cams(state, p), f"{what}: copy as {op['type']}")
        b = pickle.loads(pickle.dumps(q))
        b.cams = q.cams
        self.compare_pair(ctx, b, new, self.cams(state, p), f"{what}: reloaded copy")

    def shrink(self, plan):
        ops = plan["ops"]
        for i in range(len(ops)):
            if len(ops) > 1:
                yield {**plan, "ops": ops[:i] + ops[i + 1 :]}
        for k in range(len(plan["pairs"])):
            if len(plan["pairs"]) > 1:
                yield {**plan, **{x: plan[x][:k] + plan[x][k + 1 :] for x in ("pairs", "sizes", "weights")}}
        for k, s in enumerate(plan["sizes"]):
            if s > 1:
                yield {**plan, "sizes": plan["sizes"][:k] + [1 if s < 5 else 2] + plan["sizes"][k + 1 :]}
        for a, b in {"imgsz": [[80, 60]] * plan["n"], "distorted": False, "start": "Matches", "keypoints": False, "tuple_cams": True}.items():
            if plan[a] != b:
                yield {**plan, a: b}
        for i, o in enumerate(ops):
            for a, b in {"mode": "serial", "np": 0, "fault": None, "clear_uvs": False, "n_best": None, "min_weight": None, "max_error": None,
                         "max_distance": None, "scaled": False, "cam": 0, "clear_weights": False, "by_cam": False, "all": False}.items():
                if a in o and o[a] != b:
                    new = {**o, a: b}
                    if a == "mode":
                        new["np"] = 0
                    yield {**plan, "ops": ops[:i] + [new] + ops[i + 1 :]}


CHECK = C15()
