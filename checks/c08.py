"""C08: keypoint and match runs resume correctly after any crash."""
import datetime
import os
import pickle

import numpy as np

from sim import machine, matching
from sim.check import Check
from sim.core import Violation, digest
from sim.matching import KP_KW, MATCH_KW, Ref, kp_key, match_key, selected_pairs
from sim.tracking import make_streams, use_pool


class C08(Check):
    id = "C08"
    quick = (1500, 110)
    thorough = (80000, 840)
    rule = (
        "A run builds keypoint and match files in one or more phases; each phase has 1-3 concurrent builder processes that "
        "stop before every disk operation, with a kill, power loss, I/O error, full disk, torn or short write at a chosen "
        "operation, and the last phase is undisturbed; runs are distinct by event log (every disk operation)."
    )
    measure = "distinct (phase, fault, operation hit, files present after it)"
    real = ["KeypointMatcher.build_keypoints / build_matches", "pickle files through Python file I/O on a real scratch directory",
            "builder processes (real fork and SIGKILL)", "OpenCV"]
    stubs = ["builtins.open and os file functions (disk seam)", "sharedmem.MapReduce (simulated pool)", "power loss (model over "
             "the recorded operations)", "FLANN matcher replaced by the brute-force matcher"]
    assumptions = ["rename is atomic; a file's content survives a power loss only after fsync", "directories survive once made"]
    expect_probes = ("crashed", "failed", "resumed", "concurrent", "overwrite", "workers", "power", "partial-tree", "files-lost")

    def gen(self, r, tier):
        im = matching.gen_images(r, n=r.choice([2, 2, 3, 3, 4]), small=True)
        over = r.random() < 0.3
        phases = []
        for _ in range(r.choice([1, 1, 2, 3])):
            b = r.choice([1, 1, 1, 2, 2, 3])
            workers = b == 1 and r.random() < 0.25
            phases.append({"builders": b, "workers": 2 if workers else 0,
                           "lost": r.choice([None, None, None, r.randint(1, 255)]),
                           "fault": None if r.random() < 0.12 else machine.gen_fault(r, builders=b)})
        b = r.choice([1, 1, 2, 3])
        phases.append({"builders": b, "workers": 2 if b == 1 and r.random() < 0.3 else 0, "fault": None})
        return {
            "images": im, "phases": phases, "overwrite": over, "kw": r.randrange(len(KP_KW)), "mkw": r.randrange(len(MATCH_KW)),
            "weights": r.random() < 0.5, "maxdt": r.choice([None, None, 1, 3]), "seq": r.choice([None, None, [1]]),
            "imgs": r.choice([None, None, None, [0]]), "clear_k": r.random() < 0.4, "clear_mk": r.random() < 0.6,
            "clear_m": r.random() < 0.2, "mtype": r.choice([None, None, "RotationMatches"]), "bufsize": r.choice([None, None, 256]),
            "same_dir": r.random() < 0.2,
        }

    def run(self, plan, ctx):
        im = plan["images"]
        n = len(im["names"])
        src = os.path.join(ctx.scratch, "src")
        out = os.path.join(ctx.scratch, "out")
        os.mkdir(src)
        os.mkdir(out)
        kdir = os.path.join(out, "kp")
        mdir = kdir if plan["same_dir"] else os.path.join(out, "deep", "mt")
        paths = matching.write_images(im, src)
        ref = Ref(im)
        streams = make_streams(1)
        pairs = sorted(selected_pairs(im["hours"], plan["maxdt"], plan["seq"], plan["imgs"]))
        kfiles = {os.path.join(kdir, im["names"][i] + ".pkl"): i for i in range(n)}
        mfiles = {os.path.join(mdir, f"{im['names'][i]}-{im['names'][j]}.pkl"): (i, j) for i, j in pairs}
        if set(kfiles) & set(mfiles):
            mdir = os.path.join(out, "deep", "mt")
            mfiles = {os.path.join(mdir, os.path.basename(p)): v for p, v in mfiles.items()}
        mc = machine.Machine(ctx, out, lambda p: p in kfiles or p in mfiles)
        mc.disk.bufsize = plan["bufsize"]

        def job(kw, mkw, overwrite, workers):
            import cv2

            from glimpse import optimize

            pool = use_pool(ctx, "process" if workers else "serial", streams, disk=mc.disk)
            pool.io_action = lambda who, op: mc.chan.call("io", op)
            mt = optimize.KeypointMatcher(matching.build_images(im, paths), clahe=im["clahe"])
            mt.build_keypoints(path=kdir, overwrite=overwrite, clear_keypoints=plan["clear_k"], parallel=workers or False,
                               **KP_KW[kw])
            kps = [kp_key(k) for k in mt.keypoints]
            mt.build_matches(
                maxdt=None if plan["maxdt"] is None else datetime.timedelta(hours=plan["maxdt"]), seq=plan["seq"],
                imgs=plan["imgs"], keypoints_path=kdir, path=mdir, overwrite=overwrite, clear_keypoints=plan["clear_mk"],
                clear_matches=plan["clear_m"], parallel=workers or False, weights=plan["weights"],
                mtype=getattr(optimize, plan["mtype"]) if plan["mtype"] else None, matcher=cv2.BFMatcher(), **MATCH_KW[mkw])
            m = mt.matches
            got = None if m is None else sorted(
                (int(i), int(j), match_key(x)) for x, i, j in zip(m.data, m.row, m.col))
            return {"kps": kps, "matches": got}

        def expect(kw, mkw):
            from glimpse import optimize

            k = [kp_key(ref.keypoints(i, kw, 0)) for i in range(n)]
            m = {}
            for i, j in pairs:
                uva, uvb, w = ref.match(i, (kw, 0), j, (kw, 0), mkw, plan["weights"])
                m[i, j] = (digest(uva, uvb, w), optimize.Matches(
                    [matching.build_images(im, paths)[x].cam for x in (i, j)], [uva, uvb], w))
            return k, m

        kw2, mkw2 = plan["kw"], plan["mkw"]
        final = expect(kw2, mkw2)
        stale = None
        if plan["overwrite"]:
            ctx.probe("overwrite")
            kw1, mkw1 = (kw2 + 1) % len(KP_KW), (mkw2 + 1) % len(MATCH_KW)
            res, _ = mc.run({"stale": lambda: job(kw1, mkw1, False, 0)})
            if res["stale"][0] != "done":
                raise Violation("raised", str(res["stale"]))
            stale = expect(kw1, mkw1)
            self.check_tree(ctx, kfiles, mfiles, [stale], full=True)
        allowed = [x for x in (final, stale) if x]
        # matches of old keypoints with new arguments, and the reverse, while overwriting
        if stale:
            allowed.append((final[0], {ij: (None, None) for ij in pairs}))

        every = allowed

        def after(name, op):
            if op["kind"] in ("rename", "close", "unlink", "truncate", "write") and (
                mc.is_final(op["path"]) or (op["dst"] and mc.is_final(op["dst"]))
            ):
                if op["kind"] == "rename":
                    self.check_tree(ctx, kfiles, mfiles, allowed)

        mc.after = after
        for number, ph in enumerate(plan["phases"]):
            ctx.log("phase", number)
            last = number == len(plan["phases"]) - 1
            before = self.check_tree(ctx, kfiles, mfiles, allowed)
            jobs = {f"b{k}": (lambda: job(kw2, mkw2, plan["overwrite"], ph["workers"])) for k in range(ph["builders"])}
            if ph["builders"] > 1:
                ctx.probe("concurrent")
            if ph["workers"]:
                ctx.probe("workers")
            res, fired = mc.run(jobs, None if last else ph["fault"])
            if fired == "power":
                allowed = every  # renames of this phase may be undone
            present = self.check_tree(ctx, kfiles, mfiles, allowed)
            ctx.state((number, fired, ph["builders"], tuple(sorted(present))))
            if fired == "power":
                ctx.probe("power")
            if 0 < len(present) < len(kfiles) + len(mfiles):
                ctx.probe("partial-tree")
            if before and fired is None:
                ctx.probe("resumed")
            for k, (name, r) in enumerate(sorted(res.items())):
                hit = fired is not None and (fired == "power" or (ph["fault"]["proc"] == k))
                if r[0] == "dead":
                    ctx.check(hit, "builder-died", f"{name} died on its own")
                    ctx.probe("crashed")
                elif r[0] == "exc":
                    if not hit or fired == "short":
                        raise Violation("build-failed", f"phase {number}, {name}: {r[1][0]}: {r[1][1]}\n{r[1][2][-1500:]}")
                    ctx.probe("failed")
                else:
                    self.check_result(ctx, plan, r[1], final, f"phase {number}, {name}")
            done = any(r[0] == "done" for r in res.values())
            if done and fired != "power":
                full = [final] if plan["overwrite"] is False or all(r[0] == "done" for r in res.values()) else allowed
                self.check_tree(ctx, kfiles, mfiles, full, full=True)
                if full == [final]:
                    allowed = [final]
            if ph.get("lost"):
                # some files are deleted before the next run
                for k, path in enumerate(sorted([*kfiles, *mfiles])):
                    if ph["lost"] >> (k % 8) & 1 and os.path.exists(path):
                        ctx.probe("files-lost")
                        os.unlink(path)
        ctx.log("tree", sorted(os.path.basename(p) for p in present))

    def check_result(self, ctx, plan, got, final, what):
        if plan["clear_k"]:
            ctx.check(all(k is None for k in got["kps"]), "wrong-keypoints", f"{what}: keypoints were to be cleared")
        else:
            bad = [i for i, (a, b) in enumerate(zip(got["kps"], final[0])) if a != b]
            ctx.check(not bad, "wrong-keypoints", f"{what}: keypoints of images {bad} differ from an undisturbed run")
        if plan["clear_m"]:
            ctx.check(got["matches"] is None, "wrong-matches", f"{what}: matches were to be cleared")
            return
        want = []
        from glimpse import optimize

        for (i, j), (_, m) in final[1].items():
            if plan["mtype"]:
                m = m.to_type(getattr(optimize, plan["mtype"]))
            want.append((i, j, match_key(m)))
        ctx.check(got["matches"] == sorted(want), "wrong-matches",
                  lambda: f"{what}: pairs {[x[:2] for x in got['matches'] if x not in want]} differ from an undisturbed run")

    def check_tree(self, ctx, kfiles, mfiles, allowed, full=False):
        """Every file present is complete and one of the allowed results; with ``full``, all are present."""
        present = []
        for path, key in list(kfiles.items()) + list(mfiles.items()):
            name = os.path.basename(path)
            if not os.path.exists(path):
                ctx.check(not full, "file-missing", f"{name} was not written")
                continue
            present.append(name)
            try:
                with open(path, "rb") as f:
                    obj = pickle.load(f)
            except Exception as e:  # noqa: BLE001
                raise Violation("incomplete-file", f"{name}: {e!r}") from e
            if path in kfiles:
                ok = kp_key(obj) in [a[0][key] for a in allowed]
            else:
                ds = [a[1][key][0] for a in allowed]
                ok = None in ds or digest(np.asarray(obj.uvs[0]), np.asarray(obj.uvs[1]), obj.weights) in ds
            ctx.check(ok, "wrong-file", f"{name} is not what an undisturbed run writes")
        return present

    def shrink(self, plan):
        ph = plan["phases"]
        for i in range(len(ph) - 1):
            yield {**plan, "phases": ph[:i] + ph[i + 1 :]}
        for i, p in enumerate(ph):
            for k, v in {"builders": 1, "workers": 0}.items():
                if p[k] != v and not (k == "builders" and p["fault"] and p["fault"]["proc"]):
                    yield {**plan, "phases": ph[:i] + [{**p, k: v}] + ph[i + 1 :]}
            if p.get("lost"):
                yield {**plan, "phases": ph[:i] + [{**p, "lost": None}] + ph[i + 1 :]}
            if p["fault"]:
                yield {**plan, "phases": ph[:i] + [{**p, "fault": None}] + ph[i + 1 :]}
                if p["fault"]["on"] != "any":
                    continue
        for k, v in {"overwrite": False, "kw": 0, "mkw": 0, "weights": False, "maxdt": None, "seq": None, "imgs": None,
                     "clear_k": False, "clear_mk": True, "clear_m": False, "mtype": None, "bufsize": None, "same_dir": False}.items():
            if plan[k] != v:
                yield {**plan, k: v}
        im = plan["images"]
        if len(im["names"]) > 2:
            yield {**plan, "images": {**im, **{k: im[k][:-1] for k in ("names", "hours", "kinds")}}}


CHECK = C08()
