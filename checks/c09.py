"""C09: saved pickle, JSON, camera and SVG files are complete or untouched."""
import json
import os
import random
import xml.etree.ElementTree as ET

import numpy as np

from sim import machine
from sim.check import Check
from sim.core import Violation, digest
from sim.disk import tree

TEXT = ["plain", "[1, 2,  3]", 'quote " here', "back\\slash", "{ \"a\": [ 1,\n 2 ] }", "café ☃", "", "]", "a , b", "\t[\n]", '"0"', "7"]


def gen_value(r, depth=0):
    k = r.random()
    if depth < 3 and k < 0.3:
        return [gen_value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 4]))]
    if depth < 3 and k < 0.5:
        return {r.choice(TEXT) + str(i): gen_value(r, depth + 1) for i in range(r.choice([0, 1, 2, 3]))}
    return r.choice([r.choice(TEXT), r.randint(-5, 10**6), r.uniform(-1, 1), 1e-300, 10**20, True, False, None, 0.1])


class Odd:
    """An object that cannot be saved: fails after part of its state was written."""

    def __init__(self, what):
        self.what = what

    def __reduce__(self):
        raise {"type": TypeError, "memory": MemoryError, "os": OSError}[self.what]("cannot be saved")


class Blob:
    def __init__(self, a, b):
        self.a, self.b = a, b


def build(spec):
    """The object of a spec (built anew each time)."""
    r = random.Random(spec["seed"])
    kind = spec["kind"]
    if kind in ("pickle", "gzip"):
        n = spec["size"]
        obj = {"x": np.arange(n) * 0.5, "s": ["t%d" % i for i in range(n % 97)], "v": gen_value(r), "b": Blob(n, (1, "ä"))}
        if spec["bad"]:
            obj["zz"] = Odd(spec["bad"])
        return obj
    if kind == "json":
        obj = {"k%d" % i: gen_value(r) for i in range(3)}
        obj["n"] = list(range(spec["size"] % 500))
        obj["t"] = [[r.choice(TEXT), [r.choice(TEXT)]], []]
        if spec["bad"]:
            obj["zz"] = Odd(spec["bad"])
        return obj
    if kind == "camera":
        from glimpse.camera import Camera

        return Camera(imgsz=(r.randint(1, 5000), r.randint(1, 5000)), f=(r.uniform(1, 9999), r.uniform(1, 9999)),
                      c=(r.uniform(-9, 9), 0), xyz=(r.uniform(-1e6, 1e6), r.uniform(-1, 1), 1e-9), viewdir=(r.uniform(0, 360), -90, 1 / 3),
                      k=[r.uniform(-1, 1) for _ in range(r.choice([0, 2, 6]))], p=[r.uniform(-0.01, 0.01) for _ in range(2)])
    from glimpse import svg

    children = [svg.image(href=r.choice(["a.jpg", "ü b.jpg", "<&>.png"]), width=12, height=8)]
    for i in range(2 + spec["size"] % 60):
        pts = [(r.randint(0, 12), round(r.uniform(0, 8), 3)) for _ in range(r.choice([2, 3, 5]))]
        children.append(r.choice([
            lambda: svg.path(pts, id=r.choice(TEXT) or "i"),
            lambda: ET.Element("polyline", {"points": " ".join(f"{x},{y}" for x, y in pts), "id": f"p{i}"}),
            lambda: svg.g(svg.path(pts), id=r.choice(["g é", "g"])),
            lambda: ET.Element("circle", {"cx": "3", "cy": "4.5", "id": f"c{i}"}),
        ])())
    if spec["bad"]:
        children.append(ET.Element("path", attrib={"d": 5}))
    return svg.svg(*children)


def xml_key(e):
    return (e.tag, sorted(e.attrib.items()), (e.text or "").strip(), [xml_key(c) for c in e])


class C09(Check):
    id = "C09"
    quick = (3500, 110)
    thorough = (200000, 840)
    rule = (
        "A run makes 2-7 saves (pickle, gzip, JSON, camera JSON, SVG; new or existing files, nested folders, links, restricted "
        "modes, several savers at once) with an unserialisable object or a kill, power loss, error, torn or short write at a "
        "chosen disk operation, reading everything back after each; runs are distinct by event log."
    )
    measure = "distinct (kind, target, fault, operation hit, outcome)"
    real = ["helpers.write_pickle / read_pickle / write_json / read_json", "Camera.to_json / from_json", "svg.write / svg.read",
            "Python file I/O on a real scratch directory", "saving processes (real fork and SIGKILL)"]
    stubs = ["builtins.open and os file functions (disk seam)", "power loss (model over the recorded operations)", "locale encoding"]
    assumptions = ["rename is atomic; a file's content survives a power loss only after fsync"]
    expect_probes = ("pickle", "gzip", "json", "camera", "svg", "done", "failed", "dead", "unserialisable", "new-file", "existing",
                     "concurrent", "late-power", "old-kept", "locale")

    def gen(self, r, tier):
        steps = []
        for _ in range(r.randint(2, 7)):
            b = r.choice([1, 1, 1, 1, 2, 2, 3])
            saves = []
            for _ in range(b):
                saves.append({
                    "kind": r.choice(["pickle", "gzip", "json", "json", "camera", "svg"]),
                    "target": r.choice(["a", "a", "b", "deep/er/c", "link"]),
                    "seed": r.randrange(10**6), "size": r.choice([3, 40, 300, 4000]), "indent": r.choice([None, None, 0, 2, "\t", -1]),
                    "flat": r.random() < 0.5, "sep": r.random() < 0.2, "ascii": r.random() < 0.7,
                    "bad": r.choice([None] * 6 + ["type", "memory", "os"]), "relative": r.random() < 0.15,
                })
                if saves[-1]["kind"] == "camera":
                    saves[-1]["bad"] = None
                if saves[-1]["kind"] == "svg" and "/" in saves[-1]["target"]:
                    saves[-1]["target"] = "b"  # svg.write makes no folders
            steps.append({"saves": saves, "fault": None if r.random() < 0.25 else machine.gen_fault(r, maxop=16, builders=b),
                          "late": r.random() < 0.1})
        return {"steps": steps, "bufsize": r.choice([None, 64, 256, 1024]), "encoding": r.choice([None, None, "latin-1", "cp1252"]),
                "old": r.random() < 0.6, "mode": r.choice([0o644, 0o600])}

    def run(self, plan, ctx):
        root = os.path.join(ctx.scratch, "d")
        os.mkdir(root)
        os.chdir(root)
        for name in ("keep.txt", "a.bak"):
            with open(os.path.join(root, name), "w") as f:
                f.write(name * 5)
        os.symlink("real", os.path.join(root, "link"))
        if plan["old"]:
            for name in ("a", "real"):
                with open(os.path.join(root, name), "w") as f:
                    f.write("an older file " * 30)
                os.chmod(os.path.join(root, name), plan["mode"])
        targets = {t: os.path.join(root, t) for t in ("a", "b", "deep/er/c", "link")}
        finals = set(targets.values()) | {os.path.join(root, "real")}
        mc = machine.Machine(ctx, root, lambda p: p in finals or os.path.basename(p) in ("keep.txt", "a.bak"))
        mc.disk.bufsize = plan["bufsize"]
        mc.disk.encoding = plan["encoding"]
        if plan["encoding"]:
            ctx.probe("locale")
        for number, step in enumerate(plan["steps"]):
            ctx.log("step", number)
            before = tree(root)
            jobs = {f"s{k}": (lambda s=s: self.save(s, root)) for k, s in enumerate(step["saves"])}
            if len(jobs) > 1:
                ctx.probe("concurrent")
            out, fired = mc.run(jobs, step["fault"])
            late = step["late"] and fired is None
            if late:
                ctx.probe("late-power")
                ctx.fault("power-late")
                mc.power_loss()
            self.judge(ctx, plan, step, number, root, targets, before, out, fired, late)

    def path(self, s, root):
        return s["target"] if s["relative"] else os.path.join(root, s["target"])

    def json_args(self, s):
        kw = {"flat_arrays": s["flat"]}
        if s["indent"] is not None:
            kw["indent"] = s["indent"]
        if s["sep"]:
            kw["separators"] = (",", ":")
        if not s["ascii"]:
            kw["ensure_ascii"] = False
        return kw

    def save(self, s, root):
        from glimpse import helpers, svg

        obj, path, kind = build(s), self.path(s, root), s["kind"]
        if kind in ("pickle", "gzip"):
            helpers.write_pickle(obj, path, gz=kind == "gzip")
        elif kind == "json":
            helpers.write_json(obj, path, **self.json_args(s))
        elif kind == "camera":
            obj.to_json(path, **self.json_args(s))
        else:
            svg.write(obj, path, indent=s["indent"])
        return None

    def holds(self, s, path):
        """Whether the file at path holds exactly the object of the save (None: cannot be read)."""
        from glimpse import helpers, svg
        from glimpse.camera import Camera

        kind = s["kind"]
        clean = {**s, "bad": None}
        try:
            if kind in ("pickle", "gzip"):
                got, want = helpers.read_pickle(path, gz=kind == "gzip"), build(clean)
                for o in (got, want):
                    o["b"] = (o["b"].a, o["b"].b)
                return digest(got) == digest(want)
            if kind == "json":
                return digest(helpers.read_json(path)) == digest(json.loads(json.dumps(build(clean))))
            if kind == "camera":
                return digest(Camera.from_json(path).to_array()) == digest(build(clean).to_array())
            want = build(clean)
            if xml_key(ET.parse(path).getroot()) != xml_key(ET.fromstring(ET.tostring(want, encoding="unicode"))):
                return False
            import io

            return repr(svg.read(path)) == repr(svg.read(io.StringIO(svg.write(want))))
        except Exception:  # noqa: BLE001
            return None

    def judge(self, ctx, plan, step, number, root, targets, before, out, fired, late):
        after = tree(root)
        saves = step["saves"]
        for t, path in targets.items():
            rel = os.path.relpath(path, root)
            mine = [(k, s) for k, s in enumerate(saves) if s["target"] == t]
            old, new = before.get(rel), after.get(rel)
            if not mine:
                ctx.check(old == new, "other-file-changed", f"step {number}: {rel} changed although nothing was saved there")
                continue
            ctx.probe("existing" if old is not None else "new-file")
            fits = []
            for k, s in mine:
                r = out[f"s{k}"]
                hit = fired is not None and step["fault"]["proc"] == k or fired == "power" or late
                ctx.probe(s["kind"])
                ctx.probe({"done": "done", "exc": "failed", "dead": "dead"}[r[0]])
                ctx.state((s["kind"], t, old is None, fired, s["bad"], r[0], r[1][0] if r[0] == "exc" else None))
                if r[0] == "exc":
                    unsaveable = s["bad"] or (s["kind"] == "json" and not s["ascii"] and plan["encoding"])
                    if s["bad"]:
                        ctx.probe("unserialisable")
                    if not (unsaveable or (hit and fired != "short")):
                        raise Violation("save-failed", f"step {number}: {s['kind']} {t}: {r[1][0]}: {r[1][1]}\n{r[1][2][-1500:]}")
                elif r[0] == "done":
                    ctx.check(not s["bad"], "bad-object-saved", f"step {number}: an unserialisable {s['kind']} was saved")
                    if fired == "error" and hit:
                        ctx.probe("error-survived")
                elif r[0] == "dead":
                    ctx.check(hit, "saver-died", f"step {number}: {s['kind']} {t} died on its own")
                holds = self.holds(s, path) if new is not None else None
                fits.append((k, s, r[0], hit, holds))
            done = [f for f in fits if f[2] == "done" and fired != "power" and not late]
            if new == old and not done:
                ctx.probe("old-kept")
                continue
            ok = [f for f in fits if f[4] and not f[1]["bad"]]
            what = ", ".join(f"{f[1]['kind']}:{f[2]}" for f in fits)
            if new is None:
                raise Violation("file-lost", f"step {number}: {rel} is gone after {what} (fault {fired})")
            if done:
                # a saver that ended successfully: its object, or that of one that saved after it
                if any(f[4] for f in done) or any(f[4] for f in ok if f[2] != "done"):
                    continue
                raise Violation("not-what-was-saved", f"step {number}: {rel} does not hold what was saved by {what} (fault {fired}): "
                                                      f"{new[:60]!r}")
            ctx.check(ok or new == old, "half-saved", f"step {number}: {rel} is neither old nor new after {what} (fault {fired}): "
                                                      f"{len(new)} bytes {new[:60]!r}")
        # everything else
        finals = {os.path.relpath(p, root) for p in targets.values()} | {"real"}
        for rel, data in before.items():
            if rel not in finals:
                ctx.check(after.get(rel) == data, "other-file-changed", f"step {number}: {rel} changed or vanished")
        crashed = fired in ("kill", "power") or late
        stray = [rel for rel in after if rel not in before and rel not in finals]
        stuck = fired == "error" and ctx.last_fault == "unlink"
        if not crashed and not stuck:  # nothing can remove a file whose removal fails
            ctx.check(not stray, "stray-file", f"step {number}: {len(stray)} stray file(s) after {[o[0] for o in out.values()]} (fault "
                                               f"{fired} {ctx.events[-3:]})")
        for rel in stray:  # a new process may tidy up after a crash; this harness does it here
            os.unlink(os.path.join(root, rel))

    def shrink(self, plan):
        st = plan["steps"]
        for i in range(len(st)):
            if len(st) > 1:
                yield {**plan, "steps": st[:i] + st[i + 1 :]}
        for i, s in enumerate(st):
            def put(x):
                return {**plan, "steps": st[:i] + [x] + st[i + 1 :]}

            for k in range(len(s["saves"])):
                if len(s["saves"]) > 1 and not (s["fault"] and s["fault"]["proc"]):
                    yield put({**s, "saves": s["saves"][:k] + s["saves"][k + 1 :]})
                for a, b in {"size": 3, "bad": None, "indent": None, "flat": False, "sep": False, "ascii": True, "relative": False,
                             "target": "a"}.items():
                    if s["saves"][k][a] != b:
                        yield put({**s, "saves": s["saves"][:k] + [{**s["saves"][k], a: b}] + s["saves"][k + 1 :]})
            if s["fault"]:
                yield put({**s, "fault": None})
            if s["late"]:
                yield put({**s, "late": False})
        for k, v in {"bufsize": None, "encoding": None, "old": True, "mode": 0o644}.items():
            if plan[k] != v:
                yield {**plan, k: v}


CHECK = C09()
