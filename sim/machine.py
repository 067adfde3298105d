"""A machine whose processes run one disk operation at a time, and can lose power.

``Machine.run`` runs forked processes under the scheduler: each stops before every disk
operation below ``root``, and the machine decides who goes next and what happens to the
operation (carry on, fail, tear, kill the process, cut the power).

Power model. Only what was synced is sure to survive: a file written since its last sync
keeps any prefix of its content (or its content before it was opened), a rename that no
later sync of the file covers may or may not have happened. Without power loss (a killed
process) everything that reached the files stays.
"""
import errno
import os
import pickle

from .core import Choices, HarnessError
from .disk import Disk, read_bytes
from .procs import Proc

MUTATING = ("open-w", "write", "close", "fsync", "rename", "unlink", "mkdir", "rmdir", "truncate", "link")
ERRNOS = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE, "edquot": errno.EDQUOT}


def gen_fault(r, maxop=150, builders=1):
    kind = r.choice(["kill", "kill", "kill", "power", "power", "error", "error", "error", "torn", "short"])
    return {
        "kind": kind,
        "proc": r.randrange(builders),
        "op": int(maxop ** r.random()) if r.random() < 0.5 else r.randrange(maxop),
        "on": r.choice(["any", "any", "mutating", "mutating", "write", "rename", "open-w", "close", "fsync"]),
        "errno": r.choice(sorted(ERRNOS)),
        "frac": r.choice([0, 0, 0.5, 0.9, 1]),
    }


class Machine:
    def __init__(self, ctx, root, is_final):
        self.ctx, self.disk, self.is_final = ctx, Disk(root), is_final
        self.root = self.disk.root
        self.disk.install()
        self.temps = {}
        self.durable = {}  # path -> list of possible durable contents: bytes, None (absent) or "prefix"
        self.syncing = {}  # process -> path whose sync completes before its next operation
        self.opened = set()
        self.after = None  # callback after each mutating operation completed

    # -- names --

    def label(self, path):
        if path is None:
            return None
        if not path.startswith(self.root + "/"):
            return "<outside>"
        rel = path[len(self.root) + 1 :]
        if self.is_final(path):
            return rel
        d, b = os.path.split(rel)
        return os.path.join(d, "<temp%d>" % self.temps.setdefault(rel, len(self.temps)))

    # -- durability --

    def options(self, path):
        if path not in self.durable:
            self.durable[path] = [read_bytes(path)]
        return self.durable[path]

    def before(self, name, op):
        """Account for an operation that is about to happen."""
        done = self.syncing.pop(name, None)
        if done is not None:
            content = read_bytes(done)
            if content is not None:
                self.durable[done] = [content]
        kind, path = op["kind"], op["path"]
        if kind in ("open-w", "write", "truncate"):
            o = self.options(path)
            if "prefix" not in o:
                self.durable[path] = o + ["prefix"]
        elif kind == "fsync":
            self.syncing[name] = path
        elif kind == "rename":
            src = self.options(path)
            self.durable[op["dst"]] = [x for x in self.options(op["dst"]) if x != "prefix"] + list(src)
            self.durable[path] = src + [None]
        elif kind == "unlink":
            self.durable[path] = self.options(path) + [None]

    def power_loss(self):
        """Leave on the disk one of the states a power loss can leave."""
        pick = self.ctx.choices.pick
        self.syncing.clear()
        for path in sorted(self.durable, key=self.label):
            opts = self.durable[path]
            now = read_bytes(path)
            if len(opts) == 1 and opts[0] == now:
                continue
            o = opts[pick(len(opts))]
            if o == "prefix":
                base = now
                if base is None:
                    continue
                o = base[: (len(base) * pick(9)) // 8]
            if o is None:
                if now is not None:
                    os.unlink(path)
            elif o != now:
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as f:
                    f.write(o)
            self.ctx.log("power", self.label(path), None if o is None else len(o))
        self.durable.clear()

    # -- running --

    def spawn(self, name, fn, k):
        disk, ctx = self.disk, self.ctx

        def body(chan):
            ctx.choices = Choices(f"{ctx.plan.get('sched_seed')}:{name}:{k}")
            self.chan = chan
            disk.hook = lambda op: chan.call("io", op)
            try:
                r = ("done", pickle.dumps(fn()))
            except Exception as e:  # noqa: BLE001
                import traceback

                r = ("exc", (type(e).__name__, str(e), traceback.format_exc()))
            disk.hook = None
            chan.call(*r)

        p = Proc(body, name)
        p.k = k
        p.ops = 0
        p.count = 0
        p.resume()
        return p

    def run(self, jobs, fault=None):
        """Run the jobs (name -> function) to their ends.

        Returns (outcomes, what): outcomes[name] is ("done", value), ("exc", (class, message, traceback)) or
        ("dead",); what tells the fault that fired, if any.
        """
        ctx = self.ctx
        pick = ctx.choices.pick
        self.durable.clear()  # what earlier runs wrote has long reached the disk
        names = list(jobs)
        procs = {n: self.spawn(n, jobs[n], k) for k, n in enumerate(names)}
        out = {}
        fired = None
        last = None
        try:
            while procs:
                runnable = sorted(procs)
                if last in procs:
                    runnable.remove(last)
                    runnable.insert(0, last)
                n = runnable[pick(len(runnable))]
                if last is not None and n != last:
                    ctx.fault("process-switch")
                last = n
                p = procs[n]
                kind, payload = p.msg
                if kind in ("done", "exc"):
                    out[n] = (kind, pickle.loads(payload) if kind == "done" else payload)
                    ctx.log("end", n, kind, payload[0] if kind == "exc" else None)
                    p.kill()
                    del procs[n]
                    continue
                if kind == "dead":
                    out[n] = ("dead",)
                    del procs[n]
                    continue
                if kind != "io":
                    raise HarnessError(f"process sent {kind}: {payload}")
                op = payload
                ctx.steps += 1
                p.ops += 1
                ctx.log("io", n, op["kind"], self.label(op["path"]), self.label(op["dst"]), op["n"])
                action = None
                if fault and fired is None and fault["proc"] == names.index(n):
                    on = fault["on"]
                    if on == "any" or op["kind"] == on or (on == "mutating" and op["kind"] in MUTATING):
                        if p.count == fault["op"]:
                            fired, action = self.inject(fault, op)
                        p.count += 1
                if fired == "power":
                    # the operation under way may have been done in part
                    if op["kind"] == "write" and action is not None:
                        self.before(n, op)
                        p.resume(action)
                    for q in procs.values():
                        q.kill()
                    for m in procs:
                        out[m] = ("dead",)
                    self.power_loss()
                    procs = {}
                    break
                if action is None or action[0] in ("short", "partial", "kill"):
                    if not (action and action[0] == "kill" and op["kind"] != "write"):
                        self.before(n, op)
                p.resume(action)
                if self.after is not None and op["kind"] in MUTATING:
                    self.after(n, op)
        finally:
            for p in procs.values():
                p.kill()
        return out, fired

    def inject(self, fault, op):
        ctx, kind, n = self.ctx, fault["kind"], op["n"]
        k = int(fault["frac"] * n) if n else 0
        no = ERRNOS[fault["errno"]]
        if kind in ("error", "torn") and op["kind"] == "stat":  # failing metadata reads are not modelled
            return None, None
        ctx.last_fault = op["kind"]
        ctx.log("fault", kind, op["kind"], k)
        if kind == "kill":
            ctx.fault("kill-" + op["kind"])
            return "kill", ("kill", k)
        if kind == "power":
            ctx.fault("power-" + op["kind"])
            return "power", ("kill", k)
        if kind == "short" and op["kind"] == "write":
            ctx.fault("short-write")
            return "short", ("short", max(1, k))
        if kind == "torn" and op["kind"] == "write":
            ctx.fault("torn-write")
            return "error", ("partial", k, no)
        if kind in ("error", "torn"):
            ctx.fault(f"{fault['errno']}-{op['kind']}")
            return "error", ("errno", no)
        return None, None
