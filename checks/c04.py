"""C04: datetimes are matched by elapsed time, whatever the process time zone."""
import copy
import datetime
import os
import sys
import time
import warnings

import numpy as np

from sim.check import Check
from sim.core import Violation
from sim.env import CLOCK

ZONES = [
    "UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NST3:30NDT,M3.2.0,M11.1.0", "LHST-10:30LHDT-11,M10.1.0,M4.1.0",
    "<+14>-14", "<-12>12", "NZST-12NZDT,M9.5.0,M4.1.0/3", "AAA-5BBB-9,M3.5.0,M10.5.0", "GMT0BST,M3.5.0/1,M10.5.0",
]
# moments around daylight-saving changes of those zones, and plain ones
ANCHORS = [
    (2021, 3, 28, 1, 30), (2021, 3, 28, 2, 15), (2021, 10, 31, 2, 30), (2021, 3, 14, 2, 30), (2021, 11, 7, 1, 30),
    (2021, 4, 4, 1, 45), (2021, 10, 3, 2, 0), (2020, 1, 1, 0, 0), (1969, 12, 31, 23, 59), (1970, 1, 1, 0, 0),
    (2038, 1, 19, 3, 14), (1905, 6, 1, 12, 0), (2099, 12, 31, 23, 0), (2016, 2, 29, 23, 59),
]
EPOCH = datetime.datetime(1970, 1, 1)
US = datetime.timedelta(microseconds=1)


def us(t):
    return (t - EPOCH) // US


def zone(name):
    os.environ["TZ"] = name
    time.tzset()


class Upset:
    """Change time zone and clock at chosen lines executed in the code under test."""

    def __init__(self, ctx, changes):
        self.ctx, self.changes, self.n = ctx, sorted(changes, key=lambda c: c[0]), 0

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith("/repo/src/"):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            while self.changes and self.changes[0][0] <= self.n:
                _, z, jump = self.changes.pop(0)
                if z is not None:
                    zone(z)
                    self.ctx.fault("zone-change-during-call")
                if jump:
                    CLOCK.now += jump
                    self.ctx.fault("clock-jump-during-call")
                    self.ctx.sim_seconds += abs(jump)
        return self._line

    def __enter__(self):
        if self.changes:
            sys.settrace(self._trace)

    def __exit__(self, *a):
        sys.settrace(None)


class Stub:
    """An image is only a datetime here."""

    def __init__(self, t):
        self.datetime = t


class C04(Check):
    id = "C04"
    quick = (12000, 100)
    thorough = (300000, 840)
    rule = (
        "A run draws datetimes around daylight-saving gaps, folds and epochs (microsecond spacing to years, fold flags "
        "set at random), then calls each matching function in a random zone while zone and wall clock change at chosen "
        "lines; results are compared with integer-microsecond references; runs are distinct by event log."
    )
    measure = "distinct (zone, operation, outcome class)"
    real = ["glimpse.helpers datetime functions", "Tracker.parse_datetimes / match_datetimes", "Observer.index / subset / split",
            "RasterInterpolant.nearest", "libc time zone conversion (tzset)"]
    stubs = ["time.time and sleep", "images (objects with a datetime only)"]
    assumptions = ["datetimes are naive, as the library's own datetimes are", "POSIX TZ strings stand for the zones"]
    expect_probes = ("match", "no-match", "not-monotonic", "too-few", "index-out-of-range", "snap", "not-bracketed",
                     "at-tolerance", "split", "split-at", "split-too-small")

    def gen(self, r, tier):
        anchor = r.choice(ANCHORS)
        scale = r.choice([1, 1000, 10**6, 60 * 10**6, 3600 * 10**6, 86400 * 10**6])
        grid = r.random() < 0.6

        def offs(k, lo=2):
            k = max(k, lo)
            return sorted(r.sample(range(0, max(40, 3 * k)), k)) if grid else sorted({r.randint(0, 40 * 1000) / 1000 for _ in range(k)})

        obs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            o = offs(r.randint(2, 7))
            if len(o) < 2:
                o = [0, 1]
            obs.append({"at": [int(x * scale) for x in o], "fold": [int(r.random() < 0.3) for _ in o]})
            if len(set(obs[-1]["at"])) < len(o):
                obs[-1]["at"] = [i * scale for i in range(len(o))]
        allat = [x for o in obs for x in o["at"]]
        want = []
        maxdt = r.choice([0, 0, scale // 2, scale, 3 * scale, 1])
        for _ in range(r.randint(1, 8)):
            x = r.choice(allat)
            want.append(x + r.choice([0, 0, maxdt, -maxdt, maxdt + 1, -maxdt - 1, r.randint(-2 * scale, 2 * scale)]))
        if r.random() < 0.85:
            want.sort(reverse=r.random() < 0.35)
        if r.random() < 0.3:
            i = r.randrange(len(want))
            want.insert(i, want[i])
        changes = [
            [r.randint(1, 60), r.choice(ZONES + [None]), r.choice([0, 0, 3600, -7200, 10**8, -(10**9)])]
            for _ in range(r.choice([0, 0, 1, 3]))
        ]
        return {
            "anchor": list(anchor), "obs": obs, "want": want, "wfold": [int(r.random() < 0.3) for _ in want],
            "maxdt": maxdt * r.choice([1, 1, -1]), "zone": r.choice(ZONES), "changes": changes,
            "start": r.choice([None, r.choice(allat), r.choice(allat) + 1, r.choice(allat) - scale]),
            "end": r.choice([None, r.choice(allat), r.choice(allat) - 1, r.choice(allat) + scale]),
            "snap": r.choice([None, scale, 2 * scale, 5 * scale + 1, 7 * scale]),
            "smaxdt": r.choice([None, 0, scale // 2, scale, 1]),
            "origin": r.choice([None, r.randint(-10 * scale, 10 * scale)]),
            "value": r.choice(allat) + r.choice([0, 0, 1, -1, scale // 2, -scale, 5 * scale]),
            "imaxdt": r.choice([None, 0, 0, 1, scale // 2, scale]),
            "n": r.choice([1, 1, 2, 3, 4, 7]),
            "overlap": r.choice([0, 1, 1, 2]),
            "single": r.random() < 0.1,
            "breaks": [r.choice(allat) + r.choice([0, 0, 1, -1, scale // 2]) for _ in range(r.choice([0, 1, 1, 2, 3]))],
        }

    def run(self, plan, ctx):
        from glimpse import helpers
        from glimpse.raster import RasterInterpolant
        from glimpse.track.observer import Observer
        from glimpse.track.tracker import Tracker

        warnings.simplefilter("ignore")
        base = datetime.datetime(*plan["anchor"])

        def t(x, fold=0):
            return (base + x * US).replace(fold=fold)

        zone(plan["zone"])
        if plan["zone"] != "UTC":
            ctx.fault("zone")
        obs = [[t(x, f) for x, f in zip(o["at"], o["fold"])] for o in plan["obs"]]
        want = [t(x, f) for x, f in zip(plan["want"], plan["wfold"])]
        maxdt = plan["maxdt"] * US

        def call(name, f):
            with Upset(ctx, plan["changes"]):
                try:
                    out = f()
                except Exception as e:  # noqa: BLE001
                    out = e
            # observers by the number of their images, not by address
            parts = [len(x.images) for x in out] if isinstance(out, list) and all(hasattr(x, "images") for x in out) else len(out.images) if hasattr(out, "images") else out
            ctx.log(name, repr(parts)[:300])
            ctx.state((name, plan["zone"], type(out).__name__))
            return out

        # pairwise distances
        flat = sorted(x for o in obs for x in o)
        d = call("pairwise", lambda: helpers.pairwise_distance_datetimes(want, flat))
        if isinstance(d, Exception):
            raise Violation("raised", f"pairwise_distance_datetimes: {d!r}") from d
        exact = np.array([[abs(us(a) - us(b)) for b in flat] for a in want]) / 1e6
        ok = d.shape == exact.shape and np.allclose(d, exact, rtol=1e-12, atol=2e-7)
        ctx.check(ok, "pairwise", lambda: f"{plan['zone']}: {d} instead of {exact}")
        # tracker
        tracker = Tracker([Observer([Stub(x) for x in o]) for o in obs])
        ctx.check(list(tracker.datetimes) == sorted(set(flat)), "tracker-datetimes", lambda: str(tracker.datetimes))
        m = call("match", lambda: tracker.match_datetimes(want, maxdt=maxdt))
        if isinstance(m, Exception):
            raise Violation("raised", f"match_datetimes: {m!r}") from m
        ctx.check(m.shape == (len(want), len(obs)), "match-shape", str(m.shape))
        tol = abs(plan["maxdt"])
        for i, w in enumerate(want):
            for k, o in enumerate(obs):
                dist = [abs(us(w) - us(x)) for x in o]
                if min(dist) == tol:
                    ctx.probe("at-tolerance")
                if min(dist) > tol:
                    ctx.probe("no-match")
                    ctx.check(m[i, k] is None, "matched-too-far", lambda: f"{plan['zone']}: {w} to {o[m[i, k]]}, tolerance {maxdt}")
                else:
                    ctx.probe("match")
                    ok = m[i, k] is not None and dist[m[i, k]] == min(dist)
                    ctx.check(ok, "not-nearest", lambda: f"{plan['zone']}: {w} matched {m[i, k]} of {o}, tolerance {maxdt}")
        p = call("parse", lambda: tracker.parse_datetimes(want, maxdt=maxdt))
        x = [us(w) for w in want]
        up, down = x == sorted(x), x == sorted(x, reverse=True)
        kept = []
        for i, w in enumerate(x):
            if (i == 0 or w != x[i - 1]) and min(abs(w - us(y)) for y in flat) <= tol:
                kept.append(w)
        if not (up or down):
            ctx.probe("not-monotonic")
            ctx.check(isinstance(p, ValueError), "non-monotonic-accepted", lambda: f"{want}: {p!r}")
        elif len(kept) < 2:
            ctx.probe("too-few")
            ctx.check(isinstance(p, ValueError), "too-few-accepted", lambda: f"{plan['zone']} {want} {flat}: {p!r}")
        else:
            if isinstance(p, Exception):
                raise Violation("raised", f"parse_datetimes: {p!r}") from p
            ctx.check([us(y) for y in p] == kept, "parsed", lambda: f"{plan['zone']}: {list(p)} from {want}, images {flat}")
        self.select(plan, ctx, call, helpers, obs[0], t)
        self.observer(plan, ctx, call, Observer, obs[0], t)
        # bracketing rasters
        value = t(plan["value"])
        interp = RasterInterpolant(means=[None] * len(obs[0]), x=obs[0])
        n = call("nearest", lambda: interp.nearest(value))
        xs, v = [us(y) for y in obs[0]], us(value)
        if not xs[0] <= v <= xs[-1]:
            ctx.probe("not-bracketed")
            ctx.check(isinstance(n, ValueError), "bracketed-outside", lambda: f"{value}: {n!r}")
        else:
            if isinstance(n, Exception):
                raise Violation("raised", f"nearest: {n!r}") from n
            i, j = n
            lo, hi = max(y for y in xs if y <= v), min(y for y in xs if y >= v)
            ctx.check((xs[i], xs[j]) == (lo, hi), "bracket", lambda: f"{plan['zone']}: {value} between {obs[0][i]} and {obs[0][j]}")
        n = call("nearest-any", lambda: interp.nearest(value, extrapolate=True))
        if isinstance(n, Exception):
            raise Violation("raised", f"nearest: {n!r}") from n
        dist = sorted(abs(y - v) for y in xs)
        ok = sorted(abs(xs[k] - v) for k in n) == dist[:2] and xs[n[0]] < xs[n[1]]
        ctx.check(ok, "two-nearest", lambda: f"{plan['zone']}: {value}: {n} of {obs[0]}")

    def select(self, plan, ctx, call, helpers, o, t):
        o = o[:1] if plan["single"] else o
        kw = {k: t(plan[k]) for k in ("start", "end") if plan[k] is not None}
        snap = plan["snap"]
        if snap is not None:
            ctx.probe("snap")
            kw["snap"] = snap * US
            if plan["smaxdt"] is not None:
                kw["maxdt"] = plan["smaxdt"] * US
            if plan["origin"] is not None:
                kw["origin"] = t(plan["origin"])
        s = call("select", lambda: helpers.select_datetimes(o, **kw))
        xs = [us(y) for y in o]
        lo = us(kw["start"]) if "start" in kw else xs[0]
        hi = us(kw["end"]) if "end" in kw else xs[-1]
        slack = snap or 0
        if (lo - (0 if "start" in kw else slack)) > (hi + (0 if "end" in kw else slack)):
            ctx.check(isinstance(s, ValueError), "empty-range-accepted", lambda: f"{kw}: {s!r}")
            return
        if isinstance(s, Exception):
            raise Violation("raised", f"select_datetimes({o}, {kw}): {s!r}") from s
        inside = [("start" not in kw or lo <= x) and ("end" not in kw or x <= hi) for x in xs]
        if snap is None:
            must = may = inside
        else:
            origin = us(kw.get("origin", EPOCH))
            limit = us(EPOCH + kw["maxdt"]) if "maxdt" in kw else snap / 2
            a = lo if "start" in kw else lo - snap
            b = hi if "end" in kw else hi + snap
            first = a + (origin - a) % snap
            must, may = [False] * len(xs), [False] * len(xs)
            # only targets next to an image can select it
            targets = set()
            for x in xs:
                k = (x - first) // snap
                targets |= {first + (k + e) * snap for e in range(-2, 4)}
            reach = [g for g in targets if a <= g <= b]
            for g in reach:
                dist = [abs(x - g) for x in xs]
                near = [i for i, z in enumerate(dist) if z == min(dist)]
                if min(dist) <= limit:
                    for i in near:
                        may[i] = True
                        if len(near) == 1:
                            must[i] = True
                if abs(min(dist) - limit) <= 1 and limit != int(limit):
                    for i in near:
                        may[i], must[i] = True, False
            must = [p and q for p, q in zip(must, inside)]
            may = [p and q for p, q in zip(may, inside)]
        s = [bool(x) for x in s]
        ok = len(s) == len(xs) and all((not p or q) and (not q or z) for p, q, z in zip(must, s, may))
        ctx.check(ok, "selected", lambda: f"{plan['zone']}: {o} {kw}: {s}, expected {must} to {may}")

    def observer(self, plan, ctx, call, Observer, o, t):
        images = [Stub(x) for x in o]
        observer = Observer(images)
        value = t(plan["value"])
        kw = {"maxdt": None if plan["imaxdt"] is None else plan["imaxdt"] * US}
        i = call("index", lambda: int(observer.index(value, **kw)))
        xs, v = [us(x) for x in o], us(value)
        dist = [abs(x - v) for x in xs]
        if plan["imaxdt"] is not None and min(dist) > plan["imaxdt"]:
            ctx.probe("index-out-of-range")
            ctx.check(isinstance(i, ValueError), "index-too-far", lambda: f"{value} {kw}: {i!r} of {o}")
        else:
            if isinstance(i, Exception):
                raise Violation("raised", f"index: {i!r}") from i
            ctx.check(dist[i] == min(dist), "index", lambda: f"{plan['zone']}: {value}: {i} of {o}")
        kw = {k: t(plan[k]) for k in ("start", "end") if plan[k] is not None}
        sub = call("subset", lambda: observer.subset(**kw))
        lo, hi = us(kw.get("start", o[0])), us(kw.get("end", o[-1]))
        inside = [im for im, x in zip(images, xs) if lo <= x <= hi]
        if lo > hi or len(inside) < 2:
            ctx.check(isinstance(sub, ValueError), "subset-too-small", lambda: f"{kw}: {sub!r}")
        else:
            if isinstance(sub, Exception):
                raise Violation("raised", f"subset: {sub!r}") from sub
            ok = [id(x) for x in sub.images] == [id(x) for x in inside] and list(sub.datetimes) == [x.datetime for x in inside]
            ctx.check(ok, "subset", lambda: f"{plan['zone']}: {kw} of {o}: {list(sub.datetimes)}")
        self.split(plan, ctx, call, observer, images, plan["n"], [us(o[0]) + (us(o[-1]) - us(o[0])) * k / plan["n"] for k in range(1, plan["n"])],
                   0 if (us(o[-1]) - us(o[0])) % plan["n"] == 0 else plan["n"] + 1)
        # Breaks in any order, any number of times
        breaks = [x for x in plan["breaks"] if us(o[0]) <= us(t(x)) <= us(o[-1])]
        self.split(plan, ctx, call, observer, images, [t(x) for x in breaks], sorted({us(t(x)) for x in breaks} - {us(o[0]), us(o[-1])}), 0)

    def split(self, plan, ctx, call, observer, images, n, breaks, slack):
        """Compare the parts with those ending at given breaks, if these are further than the slack from any image."""
        overlap = plan["overlap"]
        xs = [us(x.datetime) for x in images]
        kept = copy.deepcopy(n)
        parts = call("split", lambda: observer.split(n, overlap=overlap))
        ctx.check(n == kept, "argument-changed", lambda: f"{kept} became {n}")
        what = f"{plan['zone']}: split of {[x.datetime for x in images]} by {n}, overlap {overlap}"
        if any(abs(x - b) < slack for x in xs for b in breaks):
            ctx.probe("split-near")
            return
        want, first = [], 0
        for end in [*breaks, xs[-1]]:
            part = [k for k in range(first, len(xs)) if xs[k] <= end]
            if len(part) < 2:
                # an observer left with too few images is the only reason to fail
                ctx.probe("split-too-small")
                ctx.check(isinstance(parts, ValueError), "split-too-small", lambda: f"{what}: {parts!r}")
                return
            want.append(part)
            first = part[-1] + 1 - min(overlap, len(part))
        if isinstance(parts, Exception):
            raise Violation("raised", f"{what}: {parts!r}") from parts
        ctx.probe("split")
        if breaks and not slack:
            ctx.probe("split-at")
        pos = {id(x): k for k, x in enumerate(images)}
        got = [[pos[id(x)] for x in part.images] for part in parts]
        ctx.check(got == want, "split", lambda: f"{what}: {got} instead of {want}")
        for part, k in zip(parts, want):
            ctx.check([us(x) for x in part.datetimes] == [xs[i] for i in k], "split-datetimes", lambda: f"{what}: {part.datetimes}")
            ctx.check(part.sigma == observer.sigma and part.cache == observer.cache, "split-options", lambda: f"{what}: {part.sigma}, {part.cache}")

    def shrink(self, plan):
        if plan["changes"]:
            yield {**plan, "changes": []}
        for i in range(len(plan["want"])):
            if len(plan["want"]) > 1:
                yield {**plan, "want": plan["want"][:i] + plan["want"][i + 1 :], "wfold": plan["wfold"][:i] + plan["wfold"][i + 1 :]}
        for i in range(len(plan["obs"])):
            if len(plan["obs"]) > 1:
                yield {**plan, "obs": plan["obs"][:i] + plan["obs"][i + 1 :]}
        for k, o in enumerate(plan["obs"]):
            for i in range(len(o["at"])):
                if len(o["at"]) > 2:
                    x = {"at": o["at"][:i] + o["at"][i + 1 :], "fold": o["fold"][:i] + o["fold"][i + 1 :]}
                    yield {**plan, "obs": plan["obs"][:k] + [x] + plan["obs"][k + 1 :]}
        for k, v in {"start": None, "end": None, "snap": None, "origin": None, "zone": "UTC", "n": 1, "breaks": [], "single": False}.items():
            if plan[k] != v:
                yield {**plan, k: v}


CHECK = C04()
