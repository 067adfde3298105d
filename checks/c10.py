"""C10: writing Exif tags never damages the photo."""
import os
import random
import shutil

import numpy as np

from sim import machine
from sim.check import Check
from sim.core import Violation, digest
from sim.disk import tree

REPO = os.environ.get("VERIF_REPO", "/repo")
PHOTO = os.path.join(REPO, "tests", "AK10b_20141013_020336.JPG")
TAGS = {
    "0th": {"Make": "ascii", "Model": "ascii", "Orientation": "short", "XResolution": "rational", "Software": "ascii", "DateTime": "ascii",
            "Artist": "ascii", "ImageDescription": "ascii", "Copyright": "ascii", "Rating": "short"},
    "Exif": {"ExposureTime": "rational", "FNumber": "rational", "ISOSpeedRatings": "short", "DateTimeOriginal": "ascii",
             "SubSecTimeOriginal": "ascii", "FocalLength": "rational", "PixelXDimension": "long", "PixelYDimension": "long",
             "ExposureBiasValue": "srational", "MakerNote": "bytes", "UserComment": "bytes", "LensMake": "ascii"},
    "GPS": {"GPSLatitude": "dms", "GPSLongitude": "dms", "GPSLatitudeRef": "ascii", "GPSAltitude": "rational", "GPSDateStamp": "ascii"},
    "Interop": {"InteroperabilityIndex": "ascii"},
}
POINTERS = ("ExifTag", "GPSTag", "InteroperabilityTag", "JPEGInterchangeFormat", "JPEGInterchangeFormatLength")
BAD = ("group", "tag", "value", "big", "thumbnail")


def gen_value(r, kind):
    if kind == "ascii":
        return bytes(r.choice(b"abc 019:.XYZ") for _ in range(r.choice([1, 3, 4, 5, 19, 200])))
    if kind == "short":
        return r.choice([0, 1, 65535, 200])
    if kind == "long":
        return r.choice([0, 1, 70000, 2**32 - 1])
    if kind == "rational":
        return (r.choice([0, 1, 10, 2**32 - 1]), r.choice([1, 800, 2**32 - 1]))
    if kind == "srational":
        return (r.choice([-4, 0, 7, -(2**31)]), r.choice([1, 6, -3]))
    if kind == "dms":
        return ((r.randrange(90), 1), (r.randrange(60), 1), (r.randrange(6000), 100))
    return bytes(r.randrange(256) for _ in range(r.choice([1, 4, 5, 300, 5000])))


def make_tags(spec, base):
    """The tags of a spec: new ones, or edits of the tags given."""
    import copy

    r = random.Random(spec["seed"])
    tags = {} if base is None else copy.deepcopy(base)
    for g, names in TAGS.items():
        if g == "Interop" and "Exif" not in tags:
            continue
        if base is None and r.random() < 0.3:
            continue
        d = tags.setdefault(g, {})
        for t in r.sample(sorted(names), r.randint(0, min(4, len(names)))):
            if t in d and r.random() < 0.3:
                del d[t]
            else:
                d[t] = gen_value(r, names[t])
        if base is not None and r.random() < 0.1:
            for t in list(d):
                if t not in POINTERS:
                    del d[t]
    if "Interop" in tags and tags["Interop"]:
        tags.setdefault("Exif", {})
    bad = spec["bad"]
    if bad == "group":
        tags["Nope"] = {}
    elif bad == "tag":
        tags.setdefault("Exif", {})["Unknown"] = 0
    elif bad == "value":
        tags.setdefault("Exif", {})["ExposureTime"] = "fast"
    elif bad == "big":
        tags.setdefault("Exif", {})["MakerNote"] = bytes(70000)
    elif bad == "thumbnail":
        tags["1st"] = {}
        tags["thumbnail"] = b"not a jpeg"
    return tags


def norm(tags):
    out = {}
    for g, d in tags.items():
        if g == "thumbnail":
            out[g] = d and {"pixels": decoded(d)}  # piexif drops marker segments of the thumbnail
        else:
            out[g] = {k: v for k, v in d.items() if k not in POINTERS}
    return {g: d for g, d in out.items() if d}


def pixels(path):
    with open(path, "rb") as f:
        return decoded(f.read())


def decoded(data):
    import cv2

    a = cv2.imdecode(np.frombuffer(data, np.uint8), cv2.IMREAD_UNCHANGED | cv2.IMREAD_IGNORE_ORIENTATION)
    return None if a is None else digest(a)


class C10(Check):
    id = "C10"
    quick = (2500, 100)
    thorough = (150000, 840)
    rule = (
        "A run makes 1-5 rounds of Exif insertions into JPEG and WebP photos (new tags or edits of those in the file, through "
        "links, 1-3 at once) with invalid tags, wrong files, or a kill, power loss, error, torn or short write at a chosen disk "
        "operation, and reads every file back after each round; runs are distinct by event log."
    )
    measure = "distinct (photo, edit kind, bad tag, fault, outcome)"
    real = ["Exif.__init__ / dump / insert", "piexif", "Python file I/O on a real scratch directory", "inserting processes (real fork "
            "and SIGKILL)", "OpenCV decoding of the photos"]
    stubs = ["builtins.open and os file functions (disk seam)", "power loss (model over the recorded operations)"]
    assumptions = ["rename is atomic; a file's content survives a power loss only after fsync"]
    expect_probes = ("new-tags", "edited", "done", "failed", "dead", "bad-tag", "wrong-file", "missing-file", "concurrent", "webp",
                     "thumbnail", "late-power")

    def gen(self, r, tier):
        steps = []
        for _ in range(r.randint(1, 5)):
            b = r.choice([1, 1, 1, 1, 2, 3])
            jobs = []
            for _ in range(b):
                jobs.append({
                    "target": r.choice(["small.jpg", "small.jpg", "camera.jpg", "link.jpg", "pic.webp"] * 3 + ["notes.txt", "none.jpg"]),
                    "seed": r.randrange(10**6), "edit": b == 1 and r.random() < 0.5, "thumbnail": r.random() < 0.5,
                    "bad": r.choice([None] * 7 + list(BAD)), "twice": r.random() < 0.15, "relative": r.random() < 0.15,
                })
            for j in jobs:
                if j["target"] == "pic.webp" and j["bad"] == "big":
                    j["bad"] = "tag"  # only JPEG limits the size
            steps.append({"jobs": jobs, "fault": None if r.random() < 0.2 else machine.gen_fault(r, maxop=14, builders=b),
                          "late": r.random() < 0.1})
        return {"steps": steps, "bufsize": r.choice([None, 64, 1024]), "seed": r.randrange(10**6)}

    def run(self, plan, ctx):
        import cv2

        root = os.path.join(ctx.scratch, "d")
        os.mkdir(root)
        os.chdir(root)
        g = np.random.default_rng(plan["seed"])
        im = g.integers(0, 255, (24, 32, 3), dtype=np.uint8)
        for name, args in (("small.jpg", []), ("real.jpg", []), ("pic.webp", [])):
            ok, data = cv2.imencode(os.path.splitext(name)[1], im, args)
            with open(os.path.join(root, name), "wb") as f:
                f.write(data.tobytes())
        if any(j["target"] == "camera.jpg" for s in plan["steps"] for j in s["jobs"]):
            shutil.copyfile(PHOTO, os.path.join(root, "camera.jpg"))
        os.symlink("real.jpg", os.path.join(root, "link.jpg"))
        for name in ("notes.txt", "small.jpg.bak"):
            with open(os.path.join(root, name), "w") as f:
                f.write("not a photo " * 9)
        start = tree(root)
        pix = {rel: pixels(os.path.join(root, rel)) for rel in start}
        mc = machine.Machine(ctx, root, lambda p: os.path.relpath(p, mc.root) in start)
        mc.disk.bufsize = plan["bufsize"]
        for number, step in enumerate(plan["steps"]):
            ctx.log("step", number)
            before = tree(root)
            want = [self.want(j, root, ctx) for j in step["jobs"]]
            jobs = {f"i{k}": (lambda j=j, w=w: self.insert(j, w, root)) for k, (j, w) in enumerate(zip(step["jobs"], want))}
            if len(jobs) > 1:
                ctx.probe("concurrent")
            out, fired = mc.run(jobs, step["fault"])
            late = step["late"] and fired is None
            if late:
                ctx.probe("late-power")
                ctx.fault("power-late")
                mc.power_loss()
            self.judge(ctx, step, number, root, before, pix, want, out, fired, late)

    def want(self, j, root, ctx):
        from glimpse.exif import Exif

        base = None
        if j["edit"] and j["target"].endswith((".jpg", ".webp")) and j["target"] != "none.jpg":
            try:
                base = Exif(os.path.join(root, j["target"]), thumbnail=j["thumbnail"]).tags
            except ValueError:
                if j["target"] != "pic.webp":  # piexif cannot read WebP without tags
                    raise
        if base is not None:
            ctx.probe("edited")
            if base.get("thumbnail"):
                ctx.probe("thumbnail")
        else:
            ctx.probe("new-tags")
        return make_tags(j, base)

    def insert(self, j, want, root):
        import copy

        from glimpse.exif import Exif

        exif = Exif(PHOTO)
        exif.tags = copy.deepcopy(want)
        path = j["target"] if j["relative"] else os.path.join(root, j["target"])
        for _ in range(2 if j["twice"] else 1):
            exif.insert(path)
        return exif.tags == want

    def judge(self, ctx, step, number, root, before, pix, want, out, fired, late):
        from glimpse.exif import Exif

        after = tree(root)
        touched = {}
        for k, j in enumerate(step["jobs"]):
            touched.setdefault("real.jpg" if j["target"] == "link.jpg" else j["target"], []).append((k, j, want[k], out[f"i{k}"]))
        for rel, data in before.items():
            if rel not in touched and not (rel == "link.jpg" and "real.jpg" in touched):
                ctx.check(after.get(rel) == data, "other-file-changed", f"step {number}: {rel} changed or vanished")
        for rel, mine in touched.items():
            old, new, done = before.get(rel), after.get(rel), []
            for k, j, w, r in mine:
                hit = fired is not None and step["fault"]["proc"] == k or fired == "power" or late
                ctx.state((rel, j["edit"], j["bad"], fired, r[0], j["twice"]))
                wrong = j["bad"] or rel in ("notes.txt", "none.jpg")
                ctx.probe({"done": "done", "exc": "failed", "dead": "dead"}[r[0]])
                if rel == "pic.webp":
                    ctx.probe("webp")
                if wrong:
                    ctx.probe("bad-tag" if j["bad"] else "wrong-file" if rel == "notes.txt" else "missing-file")
                if r[0] == "exc" and not wrong and not (hit and fired != "short"):
                    raise Violation("insert-failed", f"step {number}: {rel}: {r[1][0]}: {r[1][1]}\n{r[1][2][-1500:]}")
                if r[0] == "done":
                    ctx.check(not wrong, "bad-tags-inserted", f"step {number}: {rel} ({j['bad']}) did not raise")
                    ctx.check(r[1], "tags-modified", f"step {number}: inserting changed the tags being inserted")
                    if fired != "power" and not late:
                        done.append(k)
                if r[0] == "dead":
                    ctx.check(hit, "inserter-died", f"step {number}: inserter of {rel} died on its own")
            if new == old and not done:
                continue
            ctx.check(new is not None, "file-lost", f"step {number}: {rel} is gone (fault {fired})")
            ctx.check(old is not None, "file-made", f"step {number}: {rel} was made by an insertion")
            path = os.path.join(root, rel)
            what = [r[0] for *_, r in mine]
            ctx.check(pixels(path) == pix[rel], "pixels-changed", lambda: f"step {number}: {rel} after {what} (fault {fired}): {len(old)} -> "
                                                                         f"{len(new)} bytes")
            try:
                got = digest(norm(Exif(path, thumbnail=True).tags))
            except Exception as e:  # noqa: BLE001
                raise Violation("unreadable-tags", f"step {number}: {rel} after {what} (fault {fired}): {type(e).__name__}: {e}") from None
            fits = [k for k, j, w, r in mine if not j["bad"] and digest(norm(w)) == got]
            # the tags of one insertion that ended, or of one that ran beside it
            ctx.check(fits or (new == old and not done), "wrong-tags", lambda: f"step {number}: {rel} after {what} (fault {fired}): the tags are "
                                                                               f"not those inserted")
        crashed = fired in ("kill", "power") or late
        stray = [rel for rel in after if rel not in before]
        if not crashed and not (fired == "error" and ctx.last_fault == "unlink"):
            ctx.check(not stray, "stray-file", f"step {number}: stray files after {[o[0] for o in out.values()]} (fault {fired})")
        for rel in stray:
            os.unlink(os.path.join(root, rel))

    def shrink(self, plan):
        st = plan["steps"]
        for i in range(len(st)):
            if len(st) > 1:
                yield {**plan, "steps": st[:i] + st[i + 1 :]}
        for i, s in enumerate(st):
            def put(x):
                return {**plan, "steps": st[:i] + [x] + st[i + 1 :]}

            for k in range(len(s["jobs"])):
                if len(s["jobs"]) > 1 and not (s["fault"] and s["fault"]["proc"]):
                    yield put({**s, "jobs": s["jobs"][:k] + s["jobs"][k + 1 :]})
                for a, b in {"bad": None, "edit": False, "thumbnail": False, "twice": False, "relative": False, "target": "small.jpg"}.items():
                    if s["jobs"][k][a] != b:
                        yield put({**s, "jobs": s["jobs"][:k] + [{**s["jobs"][k], a: b}] + s["jobs"][k + 1 :]})
            if s["fault"]:
                yield put({**s, "fault": None})
            if s["late"]:
                yield put({**s, "late": False})
        if plan["bufsize"]:
            yield {**plan, "bufsize": None}


CHECK = C10()
