"""C07: keypoints and matches do not depend on parallelism or scheduling."""
import copy
import datetime
import os

import numpy as np

from sim import matching
from sim.check import Check
from sim.core import Deadlock, HarnessError, StepLimit, Violation
from sim.disk import Disk
from sim.matching import KP_KW, MASKS, MATCH_KW, Ref, kp_key, mask_arg, match_key, selected_pairs
from sim.tracking import make_streams, use_pool

TYPES = ["Matches", "RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ"]
FILTERS = [{"n_best": 4}, {"max_distance": 9.0}, {"max_error": 12.0}, {"min_weight": 1.3}, {"n_best": 6, "max_distance": 0.3, "scaled": True}]


def gen_pool(r):
    return {"mode": r.choice(["serial", "process", "process", "thread", "thread"]), "parallel": r.choice([True, 1, 2, 2, 3, 5]),
            "ncpu": r.choice([1, 2, 4])}


def gen_match(r, n):
    return {
        "op": "match",
        "maxdt": r.choice([None, None, 0, 1, 2, 6]),
        "seq": r.choice([None, None, [1], [2], [1, 2], [1, 3], [2, 1], [0, 1, 9], [-1, 1]]),
        "imgs": r.choice([None, None, None, "i", "ij"]),
        "pick": [r.randrange(n), r.randrange(n)],
        "mkw": r.randrange(len(MATCH_KW)),
        "weights": r.random() < 0.5,
        "mtype": r.choice([None, None] + TYPES),
        "filter": r.choice([None, None, None] + list(range(len(FILTERS)))),
        "path": r.random() < 0.5,
        "kpath": r.random() < 0.5,
        "overwrite": r.random() < 0.3,
        "clear_k": r.random() < 0.6,
        "clear_m": r.random() < 0.2,
    }


class C07(Check):
    id = "C07"
    quick = (2200, 110)
    thorough = (120000, 840)
    rule = (
        "A run performs 1-6 operations (build keypoints, build matches, convert, filter, drop images, start over with a new "
        "matcher on the same files) on generated photos, each under a serial, simulated process or simulated thread pool "
        "chosen by the seed, with workers killed or images missing in some; runs are distinct by event log."
    )
    measure = "distinct (operations, pools, delivery orders)"
    real = ["KeypointMatcher", "Matches types", "detect_keypoints", "match_keypoints", "Image reads", "pickle files",
            "forked workers / threads", "OpenCV SIFT and brute-force matcher"]
    stubs = ["sharedmem.MapReduce / MapReduceByThread (simulated pool)", "os.cpu_count",
             "the default approximate FLANN matcher (randomised inside OpenCV) is replaced by the brute-force matcher"]
    assumptions = ["OpenCV's keypoint detector and brute-force matcher are deterministic for one thread"]
    expect_probes = ("process", "thread", "serial", "out-of-order", "killed", "failed", "match", "kp", "filter", "convert", "drop",
                     "cleared", "from-file", "resumed-kp", "resumed-match", "no-pairs", "no-points", "ambiguous-files", "blocked-in-order")

    def gen(self, r, tier):
        im = matching.gen_images(r)
        n = len(im["names"])
        kp = lambda: {  # noqa: E731
            "op": "kp", "kw": r.randrange(len(KP_KW)), "mask": r.choice([0, 0, 1, 2]), "mtype": r.choice(["uint8", "bool", "int64", "float64"]), "path": r.random() < 0.5,
            "overwrite": r.random() < 0.3, "clear": r.random() < 0.25, "clear_images": r.random() < 0.7,
        }
        ops = [kp(), gen_match(r, n)]
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            ops.append(r.choice([
                kp, lambda: gen_match(r, n), lambda: gen_match(r, n),
                lambda: {"op": "convert", "mtype": r.choice(TYPES), "clear_uvs": r.random() < 0.4},
                lambda: {"op": "filter", "filter": r.choice([None] + list(range(len(FILTERS)))), "clear_weights": r.random() < 0.3},
                lambda: {"op": "fresh"}, lambda: {"op": "cache", "i": r.randrange(n)},
                lambda: {"op": "drop", "imgs": sorted(r.sample(range(n), r.choice([1, 1, 2])))},
            ])())
        filed = cleared = False
        for o in ops:
            o["pool"] = gen_pool(r)
            o["fault"] = None
            if r.random() < 0.2:
                o["fault"] = r.choice([["kill", r.randrange(n), r.choice(["start", "end", 1, 2, 3])]] * 2 + [
                    ["image", r.randrange(n)], ["kpfile", r.randrange(n)]])
                if o["fault"][0] == "kill":
                    o["pool"] = {"mode": "process", "parallel": r.choice([2, 3]), "ncpu": 2}
            # mostly sequences that can go on
            if o["op"] == "kp":
                filed |= o["path"] or o["clear"]
                cleared = o["clear"]
            elif o["op"] == "fresh":
                cleared = True
            elif o["op"] == "match":
                if cleared and r.random() < 0.9:
                    o["kpath"] = True
                if not filed and r.random() < 0.9:
                    o["kpath"] = False
                if o["filter"] is not None and r.random() < 0.8:
                    o["weights"] = True
                    o["mtype"] = None if o["mtype"] and o["mtype"].endswith(("XY", "XYZ")) else o["mtype"]
                cleared |= o["clear_k"]
        return {"images": im, "ops": ops, "disk": r.random() < 0.4}

    def run(self, plan, ctx):
        import cv2

        from glimpse import optimize

        im = plan["images"]
        ctx.im = im
        n = len(im["names"])
        src, kdir, mdir = (os.path.join(ctx.scratch, d) for d in ("img", "kp", "mt"))
        os.mkdir(src)
        paths = matching.write_images(im, src)
        ref = Ref(im)
        streams = make_streams(1)
        disk = Disk(ctx.scratch) if plan["disk"] else None
        if disk:
            disk.install()

        def fresh():
            images = matching.build_images(im, paths)
            return optimize.KeypointMatcher(images, clahe=im["clahe"])

        mt = fresh()
        # model: what each image's keypoints in memory and in files come from, and each match file
        mem, files, mfiles = [None] * n, [None] * n, {}
        self.names = list(im["names"])
        alive = list(range(n))  # original index of each image of the matcher
        matches = None  # {(i, j): reference match} or None
        for number, o in enumerate(plan["ops"]):
            ctx.log("op", number, o["op"])
            if o["op"] == "fresh":
                mt, alive, matches = fresh(), list(range(n)), None
                mem = [None] * n
                continue
            if o["op"] == "cache":
                if o["i"] < len(alive):
                    mt.images[o["i"]].read(cache=True)
                continue
            p = o["pool"]
            fault = o["fault"]
            if fault and fault[0] == "kill" and (p["mode"] != "process" or o["op"] == "drop"):
                fault = None
            kill = {"map": 0, "item": fault[1], "at": fault[2]} if fault and fault[0] == "kill" else None
            pool = use_pool(ctx, p["mode"], streams, kill=kill, disk=disk, ncpu=p["ncpu"])
            parallel = False if p["mode"] == "serial" else p["parallel"]
            if fault and fault[0] == "image":
                os.rename(paths[fault[1]], paths[fault[1]] + ".away")
            gone = None
            if fault and fault[0] == "kpfile":
                gone = os.path.join(kdir, im["names"][fault[1]] + ".pkl")
                if os.path.exists(gone):
                    os.rename(gone, gone + ".away")
                else:
                    gone = None
            array0 = {a: mt.images[k].array is None for k, a in enumerate(alive)}
            killed0 = ctx.faults["worker-killed"]
            hours = [im["hours"][a] for a in alive]
            m = len(alive)
            err = None
            first = len(ctx.events)
            try:
                if o["op"] == "kp":
                    mask = mask_arg(im, MASKS[o["mask"]])
                    if isinstance(mask, list):
                        mask = [mask[a].astype(o["mtype"]) for a in alive]
                    elif mask is not None:
                        mask = mask.astype(o["mtype"])
                    path = kdir if o["path"] or o["clear"] else None
                    mt.build_keypoints(masks=mask, path=path, overwrite=o["overwrite"], clear_images=o["clear_images"],
                                       clear_keypoints=o["clear"], parallel=parallel, **KP_KW[o["kw"]])
                elif o["op"] == "match":
                    imgs = None if o["imgs"] is None else [x % m for x in o["pick"][: len(o["imgs"])]] if m else []
                    mpath = mdir if o["path"] or o["clear_m"] else None
                    mt.build_matches(
                        maxdt=None if o["maxdt"] is None else datetime.timedelta(hours=o["maxdt"]), seq=o["seq"], imgs=imgs,
                        keypoints_path=kdir if o["kpath"] else None, path=mpath, overwrite=o["overwrite"],
                        clear_keypoints=o["clear_k"], clear_matches=o["clear_m"], parallel=parallel, weights=o["weights"],
                        mtype=getattr(optimize, o["mtype"]) if o["mtype"] else None,
                        filter=None if o["filter"] is None else dict(FILTERS[o["filter"]]), matcher=cv2.BFMatcher(),
                        **MATCH_KW[o["mkw"]])
                elif o["op"] == "convert":
                    mt.convert_matches(getattr(optimize, o["mtype"]), clear_uvs=o["clear_uvs"], parallel=parallel)
                elif o["op"] == "filter":
                    mt.filter_matches(clear_weights=o["clear_weights"], parallel=parallel,
                                      **({} if o["filter"] is None else FILTERS[o["filter"]]))
                else:
                    mt.drop_images([x for x in o["imgs"] if x < m])
            except (HarnessError, Deadlock, StepLimit):
                raise
            except Exception as e:  # noqa: BLE001
                err = e
            if disk:
                disk.hook = None
            order = [e for e in ctx.events[first:] if e.startswith("('deliver'")]
            if order != sorted(order, key=lambda e: int(e.split(",")[2])):
                ctx.probe("out-of-order")
                ctx.fault("late-delivery")
            if any("'ordered-enter'" in e or "ordered'" in e for e in ctx.events[first:]):
                ctx.probe("blocked-in-order")
            ctx.fault("task-switch", pool.switches)
            ctx.probe(p["mode"])
            if fault and fault[0] == "image":
                os.rename(paths[fault[1]] + ".away", paths[fault[1]])
            if gone:
                os.rename(gone + ".away", gone)
            killed = ctx.faults["worker-killed"] > killed0
            ctx.state((number, o["op"], p["mode"], tuple(order), type(err).__name__))

            # ---- what had to happen ----
            if killed:
                ctx.probe("killed")
                ctx.check(err is not None, "dead-worker-ignored", f"a worker died in {o['op']} but it returned")
            if o["op"] == "kp":
                path = o["path"] or o["clear"]
                new, newf, detect = list(mem), list(files), []
                for a in alive:
                    value = None if o["overwrite"] else mem[a]
                    written = path and files[a] is not None and not o["overwrite"]
                    if value is None and written:
                        ctx.probe("resumed-kp")
                        value = files[a] if not o["clear"] else None
                    elif value is None:
                        detect.append(a)
                        value = (o["kw"], o["mask"])
                        if path:
                            newf[a] = value
                    elif path and not written:
                        newf[a] = value
                    new[a] = None if o["clear"] else value
                # an image that cannot be read, or a keypoint file that is away
                broken = None
                if fault and fault[0] == "image" and fault[1] in detect and array0[fault[1]]:
                    broken = "image"
                maybe = bool(gone) or (fault and fault[0] == "image" and fault[1] in detect)
                if err is None:
                    ctx.check(not broken, "missing-image-ignored", "keypoints were built although an image was missing")
                    if gone and fault[1] in alive and path:
                        # the file looked missing: the keypoints were detected (or written) again, then replaced by ours
                        a = fault[1]
                        if mem[a] is None or o["overwrite"]:
                            new[a] = None if o["clear"] else (o["kw"], o["mask"])
                        newf = self.adopt(ctx, ref, kdir, newf, alive, o, keep=(a, files[a]))
                    else:
                        self.check_files(ctx, ref, kdir, newf)
                    mem, files = new, newf
                    ctx.probe("kp")
                    self.check_memory(ctx, ref, mt, mem, alive)
                    if o["clear"]:
                        ctx.probe("cleared")
                else:
                    if not (killed or maybe or broken):
                        raise Violation("raised", f"build_keypoints({p}): {err!r}") from err
                    ctx.probe("failed")
                    files = self.adopt(ctx, ref, kdir, newf, alive, o, old=files)
                    mt, alive, matches, mem = fresh(), list(range(n)), None, [None] * n
            elif o["op"] == "match":
                pairs = selected_pairs(hours, o["maxdt"], o["seq"], imgs)
                path = o["path"] or o["clear_m"]
                names = [im["names"][a] for a in alive]
                source = [mem[a] if mem[a] is not None else (files[a] if o["kpath"] else None) for a in alive]
                needs = not o["kpath"] and any(mem[a] is None for a in alive)
                missing = any(s is None for s in source) or bool(gone)
                if needs:
                    ctx.check(isinstance(err, ValueError), "missing-keypoints-accepted",
                              f"keypoints are missing without a keypoints_path: {err!r}")
                    continue
                pairnames = [names[i] + "-" + names[j] for i, j in pairs]
                if path and len(set(pairnames)) < len(pairnames):
                    ctx.probe("ambiguous-files")
                    ctx.check(isinstance(err, ValueError) or killed or missing, "ambiguous-files", f"pairs share a file: {err!r}")
                    break
                if err is not None:
                    badfilter = o["filter"] is not None and not o["clear_m"] and self.filter_can_fail(o, FILTERS[o["filter"]])
                    # files without weights, met by a filter on weights
                    stale = o["filter"] is not None and path and not o["clear_m"] and not o["overwrite"] and any(
                        not mfiles[f][5] for f in pairnames if f in mfiles)
                    if not (killed or missing or badfilter or stale):
                        raise Violation("raised", f"build_matches({p}): {err!r}") from err
                    ctx.probe("failed")
                    mfiles = self.adopt_matches(ctx, ref, mdir, mfiles, path, pairs, alive, source, o)
                    mt, alive, matches, mem = fresh(), list(range(n)), None, [None] * n
                    continue
                if not pairs:
                    ctx.probe("no-pairs")
                ctx.check(not any(source[k] is None for ij in pairs for k in ij), "missing-keypoints-accepted",
                          "matches were built from keypoints that do not exist")
                if any(mem[a] is None for a in alive):
                    ctx.probe("from-file")
                ctx.probe("match")
                expected = {}
                for i, j in sorted(pairs):
                    f = names[i] + "-" + names[j]
                    how = (alive[i], source[i], alive[j], source[j], o["mkw"], o["weights"])
                    if path and not o["overwrite"] and f in mfiles:
                        how = mfiles[f]
                        ctx.probe("resumed-match")
                    elif path:
                        mfiles[f] = how
                    expected[i, j] = how
                if o["clear_m"]:
                    ctx.check(mt.matches is None, "matches-kept", "matches were to be cleared")
                    matches = None
                    ctx.probe("cleared")
                else:
                    self.check_matrix(ctx, mt, expected, len(alive))
                    matches = {}
                    for i, j in expected:
                        uva, uvb, w = ref.match(*expected[i, j])
                        if not len(uva):
                            ctx.probe("no-points")
                        one = optimize.Matches((mt.images[i].cam, mt.images[j].cam), [uva, uvb], w)
                        if o["mtype"]:
                            one = one.to_type(getattr(optimize, o["mtype"]))
                        if o["filter"] is not None:
                            one.filter(**FILTERS[o["filter"]])
                        matches[i, j] = one
                    self.check_matches(ctx, mt, matches, f"build_matches {p}")
                if path:
                    self.check_match_files(ctx, ref, mdir, mfiles)
                kps = mt.keypoints
                ctx.check(len(kps) == len(alive), "keypoints-length", f"{len(kps)} keypoints of {len(alive)} images")
                for k, a in enumerate(alive):
                    if o["clear_k"]:
                        ctx.check(kps[k] is None, "keypoints-kept", f"keypoints of image {k} were to be cleared ({p})")
                        mem[a] = None
                    elif kps[k] is not None:
                        mem[a] = source[k]
                self.check_memory(ctx, ref, mt, mem, alive)
                self.check_files(ctx, ref, kdir, files)
            elif o["op"] in ("convert", "filter"):
                if matches is None:
                    ctx.check(isinstance(err, ValueError), "no-matches-accepted", f"{o['op']} without matches: {err!r}")
                    continue
                want, fails = {}, None
                for ij in sorted(matches):
                    one = copy.copy(matches[ij])
                    try:
                        if o["op"] == "convert":
                            mtype = getattr(optimize, o["mtype"])
                            one = one.to_type(mtype)
                            if o["clear_uvs"] and o["mtype"][-2:] in ("XY", "YZ"):
                                one.uvs = None
                        else:
                            if o["filter"] is not None:
                                one.filter(**FILTERS[o["filter"]])
                            if o["clear_weights"]:
                                one.weights = None
                    except Exception as e:  # noqa: BLE001
                        fails = e
                        continue
                    want[ij] = one
                if err is not None:
                    if fails is None and not killed:
                        raise Violation("raised", f"{o['op']}({p}): {err!r}") from err
                    ctx.probe("failed")
                    # each pair is as before or done, never half done
                    for mm, i, j in zip(mt.matches.data, mt.matches.row, mt.matches.col):
                        keys = [match_key(x[i, j]) for x in (matches, want) if (i, j) in x]
                        ctx.check(match_key(mm) in keys, "half-done", f"pair {i, j} after a failed {o['op']}")
                    mt, alive, matches, mem = fresh(), list(range(n)), None, [None] * n
                    continue
                ctx.check(fails is None, "failure-ignored", f"{o['op']} must fail: {fails!r}")
                matches = want
                ctx.probe(o["op"])
                self.check_matches(ctx, mt, matches, f"{o['op']} {p}")
            else:
                if matches is None:
                    ctx.check(isinstance(err, ValueError), "no-matches-accepted", f"drop without matches: {err!r}")
                    continue
                if err is not None:
                    raise Violation("raised", f"drop_images: {err!r}") from err
                ctx.probe("drop")
                left = {ij: v for ij, v in matches.items() if not set(ij) & set(o["imgs"])}
                keep = sorted({k for ij in left for k in ij})
                alive = [alive[k] for k in keep]
                matches = {(keep.index(i), keep.index(j)): v for (i, j), v in left.items()}
                ctx.check([str(x.path) for x in mt.images] == [paths[a] for a in alive], "wrong-images-dropped",
                          f"{[x.path for x in mt.images]} instead of {alive}")
                self.check_matches(ctx, mt, matches, "drop")
                if mt.keypoints is not None:
                    ctx.check(len(mt.keypoints) == len(alive), "keypoints-misaligned", f"{len(mt.keypoints)} for {len(alive)} images")
                    self.check_memory(ctx, ref, mt, mem, alive)
                if not alive:
                    break
        ctx.log("end", [kp_key(k) for k in mt.keypoints or []])

    # ---- parts ----

    def filter_can_fail(self, o, f):
        if not o["weights"] and ("n_best" in f or "min_weight" in f):
            return True
        return o["mtype"] in ("RotationMatchesXYZ", "RotationMatchesXY") and bool({"max_error", "max_distance"} & set(f))

    def check_memory(self, ctx, ref, mt, mem, alive):
        for k, a in enumerate(alive):
            got, want = kp_key(mt.keypoints[k]), mem[a]
            if want is None:
                ctx.check(got is None, "keypoints-kept", f"keypoints of image {k} are in memory")
            else:
                ctx.check(got is not None, "keypoints-missing", f"keypoints of image {k} are not in memory")
                ctx.check(got == kp_key(ref.keypoints(a, *want)), "wrong-keypoints", f"keypoints of image {k}: not those of {want}")

    def read(self, ctx, path):
        import pickle

        try:
            with open(path, "rb") as f:
                return pickle.load(f)
        except Exception as e:  # noqa: BLE001
            raise Violation("incomplete-file", f"{os.path.basename(path)}: {e!r}") from e

    def listing(self, d):
        return sorted(f for f in os.listdir(d) if f.endswith(".pkl")) if os.path.isdir(d) else []

    def check_files(self, ctx, ref, kdir, files):
        want = sorted(n + ".pkl" for n, v in zip(self.names, files) if v is not None)
        got = self.listing(kdir)
        ctx.check(got == want, "wrong-files", f"keypoint files {got} instead of {want}")
        for a, v in enumerate(files):
            if v is not None:
                k = kp_key(self.read(ctx, os.path.join(kdir, self.names[a] + ".pkl")))
                ctx.check(k == kp_key(ref.keypoints(a, *v)), "wrong-keypoint-file", f"file of image {a} is not {v}")

    def adopt(self, ctx, ref, kdir, newf, alive, o, old=None, keep=None):
        """After a failure each file is complete: as before, or as this build writes it."""
        out = list(old if old is not None else newf)
        have = self.listing(kdir)
        for a, name in enumerate(self.names):
            if name + ".pkl" not in have:
                ctx.check(old is None or old[a] is None, "file-lost", f"keypoint file of image {a} vanished")
                out[a] = None
                continue
            k = kp_key(self.read(ctx, os.path.join(kdir, name + ".pkl")))
            options = [v for v in (old[a] if old else None, newf[a], keep[1] if keep and keep[0] == a else None,
                                   (o["kw"], o["mask"])) if v is not None]
            hits = [v for v in options if kp_key(ref.keypoints(a, *v)) == k]
            ctx.check(hits, "wrong-keypoint-file", f"file of image {a} is none of {options}")
            out[a] = hits[0]
        return out

    def check_matrix(self, ctx, mt, expected, n):
        m = mt.matches
        ctx.check(m.shape == (n, n), "matrix-shape", f"{m.shape} instead of {(n, n)}")
        got = sorted(zip(m.row.tolist(), m.col.tolist()))
        ctx.check(got == sorted(expected), "wrong-pairs", f"{got} instead of {sorted(expected)}")

    def check_matches(self, ctx, mt, matches, what):
        m = mt.matches
        n = len(mt.images)
        ctx.check(m.shape == (n, n), "matrix-shape", f"{m.shape} instead of {(n, n)}")
        got = sorted(zip(m.row.tolist(), m.col.tolist()))
        ctx.check(got == sorted(matches), "wrong-pairs", f"{got} instead of {sorted(matches)} after {what}")
        for one, i, j in zip(m.data, m.row.tolist(), m.col.tolist()):
            want = matches[i, j]
            ctx.check(type(one) is type(want), "wrong-type", f"{type(one).__name__} instead of {type(want).__name__} after {what}")
            ctx.check(one.cams[0] is mt.images[i].cam and one.cams[1] is mt.images[j].cam, "wrong-cameras",
                      f"pair {i, j} does not refer to the cameras of its images after {what}")
            ctx.check(match_key(one) == match_key(want), "wrong-matches",
                      lambda: f"pair {i, j} after {what}: {one.size} points instead of {want.size}"
                      + (": coordinates or weights differ" if one.size == want.size else ""))

    def check_match_files(self, ctx, ref, mdir, mfiles):
        got, want = self.listing(mdir), sorted(f + ".pkl" for f in mfiles)
        ctx.check(got == want, "wrong-files", f"match files {got} instead of {want}")
        for f, how in mfiles.items():
            self.check_one_file(ctx, ref, os.path.join(mdir, f + ".pkl"), [how])

    def check_one_file(self, ctx, ref, path, hows):
        m = self.read(ctx, path)
        for how in hows:
            uva, uvb, w = ref.match(*how)
            same = [np.array_equal(m.uvs[0], uva), np.array_equal(m.uvs[1], uvb),
                    (m.weights is None) == (w is None) and (w is None or np.array_equal(m.weights, w))]
            if all(same):
                cams = [matching.cam_args(ctx.im, a) for a in (how[0], how[2])]
                ok = all(np.allclose(c.viewdir, a["viewdir"]) for c, a in zip(m.cams, cams))
                ctx.check(ok, "wrong-cameras", f"{os.path.basename(path)} holds other cameras")
                return how
        raise Violation("wrong-match-file", f"{os.path.basename(path)} is none of {hows}")

    def adopt_matches(self, ctx, ref, mdir, mfiles, path, pairs, alive, source, o):
        out = dict(mfiles)
        names = [self.names[a] for a in alive]
        new = {}
        for i, j in pairs:
            if path and source[i] is not None and source[j] is not None:
                new[names[i] + "-" + names[j]] = (alive[i], source[i], alive[j], source[j], o["mkw"], o["weights"])
        have = [f[:-4] for f in self.listing(mdir)]
        for f in mfiles:
            ctx.check(f in have, "file-lost", f"match file {f} vanished")
        for f in have:
            hows = [h for h in (mfiles.get(f), new.get(f)) if h is not None]
            out[f] = self.check_one_file(ctx, ref, os.path.join(mdir, f + ".pkl"), hows)
        return out

    def shrink(self, plan):
        ops = plan["ops"]
        for i in range(len(ops)):
            if len(ops) > 1:
                yield {**plan, "ops": ops[:i] + ops[i + 1 :]}
        for i, o in enumerate(ops):
            for k, v in {"fault": None, "filter": None, "mtype": None, "mkw": 0, "weights": False, "imgs": None, "seq": None,
                         "maxdt": None, "overwrite": False, "mask": 0, "kw": 0}.items():
                if k in o and o[k] != v and not (k == "mtype" and o["op"] == "convert"):
                    yield {**plan, "ops": ops[:i] + [{**o, k: v}] + ops[i + 1 :]}
            if o["pool"]["mode"] != "serial":
                yield {**plan, "ops": ops[:i] + [{**o, "pool": {"mode": "serial", "parallel": 2, "ncpu": 2}}] + ops[i + 1 :]}
            if o["pool"]["parallel"] not in (1, 2):
                yield {**plan, "ops": ops[:i] + [{**o, "pool": {**o["pool"], "parallel": 2}}] + ops[i + 1 :]}
        if plan["disk"]:
            yield {**plan, "disk": False}
        im = plan["images"]
        if im["clahe"]:
            yield {**plan, "images": {**im, "clahe": False}}
        if im["bands"] != 1:
            yield {**plan, "images": {**im, "bands": 1}}
        for k in range(len(im["names"])):
            if im["kinds"][k] != "texture":
                yield {**plan, "images": {**im, "kinds": im["kinds"][:k] + ["texture"] + im["kinds"][k + 1 :]}}
        if len(im["names"]) > 2:
            yield {**plan, "images": {**im, **{k: im[k][:-1] for k in ("names", "hours", "kinds")}}}


CHECK = C07()
