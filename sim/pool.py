"""The scheduling seam: stand-ins for ``sharedmem.MapReduce`` driven by the simulator.

``SimPool.backend`` replaces ``glimpse.config.backend`` and keeps sharedmem's contract:
np=0 or an empty sequence runs in the calling process; results come back in the order of
the sequence; ``reduce`` runs in the caller in arrival order with tuples unpacked;
workers are forked when the map starts and take items in order; a failing item or a dead
worker raises ``sharedmem.WorkerException`` in the caller.

mode "serial"   every map runs in the caller whatever np is
mode "process"  real forked workers, run one at a time, scheduled at every seam call
mode "thread"   real threads, parked and released one at a time at traced lines
"""
import os
import re
import signal
import sys
import threading
import traceback

import sharedmem

from .core import Deadlock, HarnessError
from .procs import Proc, Unpicklable, picklable, pickle

GAPS = (4000, 400, 120, 40, 15, 6, 3, 1)  # lines between preemptions; choice 0 is tamest


def untold(path):
    """A path without the random part of a temporary name."""
    return path and re.sub(r"[0-9a-f]{32}", "<random>", path)


class _Ordered:
    def __init__(self, enter, leave):
        self._enter, self._leave = enter, leave

    def __enter__(self):
        self._enter()
        return self

    def __exit__(self, *a):
        self._leave()


class SimPool:
    """Factory of simulated pools for one run."""

    def __init__(self, ctx, mode, streams=None, keys=None, disk=None, kill=None, trace_root="/repo/src/glimpse",
                 thread_lines=True):
        self.ctx, self.mode, self.streams, self.keys, self.disk = ctx, mode, streams, keys, disk
        self.kill = kill  # {"map": m, "item": i, "at": "start"|"end"|k-th yield}
        self.trace_root = trace_root
        self.maps = 0
        self.items = 0
        self.switches = 0
        self.on_item = None  # callback(map, item) in whichever process runs the item
        self.io_action = None  # callback(worker name, op) -> action for disk operations
        self.max_np = 0
        self.thread_lines = thread_lines
        self.tids = {}
        self.chan = None

    def backend(self, np=None, backend=None):
        return _Pool(self, os.cpu_count() if np is None else np)

    def key(self, m, i):
        if self.keys is not None:
            return self.keys(m, i)
        return (m, i)

    def enter_item(self, m, i):
        if self.streams is not None:
            self.streams.enter(self.key(m, i))
        if self.on_item is not None:
            self.on_item(m, i)

    def point(self, label):
        """A seam call of the simulated environment: the scheduler may switch here."""
        if self.chan is not None:
            self.chan.call("io", {"kind": "point", "path": label, "dst": None, "n": None})
            return
        t = self.tids.get(threading.get_ident())
        if t is not None:
            t.yields += 1
            tracer = sys.gettrace()
            sys.settrace(None)
            t.park("point:" + label)
            sys.settrace(tracer)

    def leave_item(self):
        if self.streams is not None:
            self.streams.tls.key = "main"


class _Pool:
    def __init__(self, sim, np):
        self.sim, self.np = sim, int(np)
        self.local = None

    def __enter__(self):
        self.local = None
        self._counter = 0
        self._mode = None
        self._lock_owner = None
        self.ordered = _Ordered(self._ordered_enter, self._ordered_exit)
        self.critical = _Ordered(self._critical_enter, self._critical_exit)
        return self

    def __exit__(self, *a):
        self.local = None

    # -- the map --

    def map(self, func, sequence, reduce=None, star=False, minlength=0):
        sim = self.sim
        m = sim.maps
        sim.maps += 1
        sim.max_np = max(sim.max_np, self.np)

        def realreduce(r):
            if reduce:
                return reduce(*r) if isinstance(r, tuple) else reduce(r)
            return r

        def realfunc(i):
            sim.enter_item(m, i)
            try:
                work = sequence[i]
                return func(*work) if star else func(work)
            finally:
                sim.leave_item()

        n = len(sequence)
        sim.items += n
        if n <= 0 or self.np == 0 or sim.mode == "serial":
            self._mode = "serial"
            self.local = type("Local", (), {"rank": 0})()
            out = []
            for i in range(n):
                self._item = i
                out.append(realreduce(realfunc(i)))
            self.local = None
            return out
        self._counter = 0
        workers = min(self.np, n)
        if sim.mode == "process":
            self._mode = "process"
            return self._map_process(m, n, workers, realfunc, realreduce)
        self._mode = "thread"
        return self._map_thread(m, n, workers, realfunc, realreduce)

    # -- ordered / critical --

    def _ordered_enter(self):
        if self._mode == "process" and self._chan is not None:
            self._chan.call("ordered-enter", self._item)
        elif self._mode == "thread" and threading.get_ident() in self.sim.tids:
            t = self.sim.tids[threading.get_ident()]
            while self._counter != t.item:
                t.blocked = lambda: self._counter != t.item
                t.park("ordered")
            t.blocked = None

    def _ordered_exit(self):
        if self._mode == "process" and self._chan is not None:
            self._chan.call("ordered-exit", self._item)
        else:
            self._counter += 1

    def _critical_enter(self):
        if self._mode == "process" and self._chan is not None:
            self._chan.call("critical-enter", self._item)
        elif self._mode == "thread" and threading.get_ident() in self.sim.tids:
            t = self.sim.tids[threading.get_ident()]
            while self._lock_owner is not None:
                t.blocked = lambda: self._lock_owner is not None
                t.park("critical")
            t.blocked = None
            self._lock_owner = t

    def _critical_exit(self):
        if self._mode == "process" and self._chan is not None:
            self._chan.call("critical-exit", self._item)
        else:
            self._lock_owner = None

    # -- processes --

    _chan = None

    def _map_process(self, m, n, workers, realfunc, realreduce):
        sim, ctx = self.sim, self.sim.ctx
        pick = ctx.choices.pick

        def body_for(rank):
            def body(chan):
                self._chan = sim.chan = chan
                self.local = type("Local", (), {"rank": rank})()
                if sim.disk is not None:
                    sim.disk.hook = lambda op: chan.call("io", op)
                cmd = chan.call("idle")
                while cmd is not None:
                    self._item = cmd
                    try:
                        r = ("done", picklable((cmd, realfunc(cmd))))
                    except BaseException as e:  # noqa: BLE001
                        tb = traceback.format_exc()
                        try:
                            pickle.loads(pickle.dumps(e))
                        except Exception:  # noqa: BLE001
                            e = str(e)
                        r = ("exc", (e, tb))
                    cmd = chan.call(*r)

            return body

        procs = [Proc(body_for(k), f"m{m}w{k}") for k in range(workers)]
        for p in procs:
            p.item = None
            p.yields = 0
            p.resume()  # runs up to "idle"
            p.state = "idle"
        pending = list(range(n))
        arrived = [[] for _ in procs]  # results of each worker, in its own order
        out = {}
        last = 0
        kill = sim.kill if sim.kill and sim.kill.get("map", 0) == m else None
        lock = None

        def stop():
            for p in procs:
                p.kill()

        def settle(p):
            """Interpret the message a worker stopped with."""
            kind, payload = p.msg
            if kind == "io":
                p.state = "io"
            elif kind in ("ordered-enter", "ordered-exit", "critical-enter", "critical-exit"):
                p.state = kind
            elif kind == "done":
                if isinstance(payload, Unpicklable):
                    stop()
                    ctx.log("unpicklable", p.item, payload.what)
                    raise sharedmem.WorkerException(Exception(payload.what), "result could not leave the worker")
                p.state = "done"
                p.result = payload
            elif kind == "exc":
                p.state = "exc"
            elif kind == "dead":
                p.state = "dead"
            elif kind == "crash":
                stop()
                raise HarnessError("worker crashed outside its item:\n" + str(payload))
            else:
                stop()
                raise HarnessError(f"unexpected worker message {kind}")

        def step(k, action=None):
            nonlocal last
            p = procs[k]
            if k != last:
                sim.switches += 1
            last = k
            ctx.steps += 1
            p.resume(action)
            settle(p)

        def maybe_kill(p, at):
            if kill and kill["item"] == p.item and kill["at"] == at:
                ctx.fault("worker-killed")
                ctx.log("kill", p.name, "item", p.item, at)
                p.kill()
                p.state = "dead"
                return True
            return False

        try:
            while True:
                for k, p in enumerate(procs):
                    if p.state == "dead":
                        stop()
                        sig = p.exitsig or signal.SIGKILL
                        if sig == signal.SIGXCPU:
                            raise Deadlock("worker used up its CPU budget")
                        raise sharedmem.WorkerException(
                            Exception("worker process %d killed by signal %d" % (k, sig)), ""
                        )
                    if p.state == "exc":
                        stop()
                        raise sharedmem.WorkerException(*p.msg[1])
                    if p.state == "done":
                        # the result is in the worker's queue; it can die before delivering it
                        if maybe_kill(p, "end"):
                            break
                        arrived[k].append(p.result)
                        p.state = "idle"
                        p.item = None
                else:
                    opts = [("deliver", k) for k in range(workers) if arrived[k]]
                    runnable = []
                    for k, p in enumerate(procs):
                        if p.state == "io" or p.state.endswith("-exit"):
                            runnable.append(k)
                        elif p.state == "ordered-enter" and self._counter == p.item:
                            runnable.append(k)
                        elif p.state == "critical-enter" and lock is None:
                            runnable.append(k)
                    if last in runnable:
                        runnable.remove(last)
                        runnable.insert(0, last)
                    opts += [("step", k) for k in runnable]
                    if pending:
                        opts += [("give", k) for k, p in enumerate(procs) if p.state == "idle"]
                    if not opts:
                        if len(out) == n:
                            break
                        stop()
                        raise Deadlock("no worker can make progress")
                    what, k = opts[pick(len(opts))]
                    p = procs[k]
                    if what == "deliver":
                        i, r = pickle.loads(arrived[k].pop(0))
                        ctx.log("deliver", m, i, "from", k)
                        if sim.disk is not None and sim.io_action is not None:
                            sim.disk.hook = lambda op: sim.io_action("master", op)
                        out[i] = realreduce(r)
                        if len(out) == n:
                            break
                    elif what == "give":
                        p.item = pending.pop(0)
                        p.yields = 0
                        ctx.log("give", m, p.item, "to", k)
                        if maybe_kill(p, "start"):
                            continue
                        step(k, p.item)
                    else:
                        action = None
                        if p.state == "io":
                            p.yields += 1
                            op = p.msg[1]
                            ctx.log("io", p.name, op["kind"], untold(op["path"]), untold(op["dst"]), op["n"])
                            if maybe_kill(p, p.yields):
                                continue
                            if sim.io_action is not None:
                                action = sim.io_action(p.name, op)
                        elif p.state == "ordered-exit":
                            self._counter += 1
                        elif p.state == "critical-enter":
                            lock = k
                        elif p.state == "critical-exit":
                            lock = None
                        ctx.log("step", p.name, p.state)
                        step(k, action)
        finally:
            stop()
        return [out[i] for i in range(n)]

    # -- threads --

    def _map_thread(self, m, n, workers, realfunc, realreduce):
        sim, ctx = self.sim, self.sim.ctx
        pick = ctx.choices.pick
        threads = [_Thread(self, k, m, realfunc) for k in range(workers)]
        pending = list(range(n))
        arrived = [[] for _ in threads]
        out = {}
        last = 0
        failure = None
        for t in threads:
            t.start()
        try:
            while True:
                for k, t in enumerate(threads):
                    if t.state == "done":
                        arrived[k].append((t.item, t.result))
                        t.state, t.item = "idle", None
                    elif t.state == "exc":
                        if failure is None:
                            failure = t.result
                        t.state, t.item = "idle", None
                running = [
                    k for k, t in enumerate(threads) if t.state == "running" and not (t.blocked and t.blocked())
                ]
                opts = [("deliver", k) for k in range(workers) if arrived[k]] if failure is None else []
                if last in running:
                    running.remove(last)
                    running.insert(0, last)
                opts += [("step", k) for k in running]
                if pending and failure is None:
                    opts += [("give", k) for k, t in enumerate(threads) if t.state == "idle"]
                if not opts:
                    if failure is not None and not any(t.state == "running" for t in threads):
                        break
                    if len(out) == n:
                        break
                    raise Deadlock("no thread can make progress")
                what, k = opts[pick(len(opts))]
                t = threads[k]
                if what == "deliver":
                    i, r = arrived[k].pop(0)
                    ctx.log("deliver", m, i, "from", k)
                    out[i] = realreduce(r)
                    if len(out) == n:
                        break
                    continue
                if what == "give":
                    t.item = pending.pop(0)
                    t.state = "running"
                    ctx.log("give", m, t.item, "to", k)
                if k != last:
                    sim.switches += 1
                last = k
                t.gap = GAPS[pick(len(GAPS))]
                ctx.steps += 1
                t.run_slice()
                ctx.log("slice", k, t.item, t.where)
        finally:
            for t in threads:
                t.stop()
        if failure is not None:
            raise sharedmem.WorkerException(*failure)
        return [out[i] for i in range(n)]


class _Thread:
    """A real thread that runs only while the scheduler waits for it."""

    def __init__(self, pool, rank, m, realfunc):
        self.pool, self.rank, self.m, self.realfunc = pool, rank, m, realfunc
        self.sem = threading.Semaphore(0)
        self.ctl = threading.Semaphore(0)
        self.state, self.item, self.result, self.blocked = "idle", None, None, None
        self.gap, self.where = 0, ""
        self.yields = 0
        self.stopping = False
        self.thread = threading.Thread(target=self._main, daemon=True)

    def start(self):
        self.thread.start()

    def stop(self):
        """Abandon the thread: it stays parked (daemon) or ends if idle."""
        self.stopping = True
        if self.state == "idle":
            self.sem.release()
            self.thread.join(5)

    def run_slice(self):
        self.sem.release()
        if not self.ctl.acquire(timeout=200):
            raise HarnessError("simulated thread did not come back")

    def park(self, where):
        self.where = where
        self.ctl.release()
        self.sem.acquire()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.pool.sim.trace_root):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.gap -= 1
            if self.gap <= 0:
                sys.settrace(None)
                self.park(f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}:{frame.f_lineno}")
                sys.settrace(self._trace)
        return self._line

    def _main(self):
        sim = self.pool.sim
        sim.tids[threading.get_ident()] = self
        while True:
            self.sem.acquire()
            if self.stopping:
                return
            try:
                if sim.thread_lines:
                    sys.settrace(self._trace)
                try:
                    self.result = self.realfunc(self.item)
                finally:
                    sys.settrace(None)
                self.state = "done"
            except BaseException as e:  # noqa: BLE001
                self.result = (e if isinstance(e, Exception) else str(e), traceback.format_exc())
                self.state = "exc"
            self.where = "end"
            self.ctl.release()
