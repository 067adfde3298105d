"""Simulated processes: forked workers that run one at a time and stop at every seam call.

A worker runs only between a ``resume`` from the scheduler and its next message back
(yield at a seam, result, or death), so the scheduler decides every interleaving.
"""
import os
import pickle
import select
import signal
import struct
import sys
import traceback

from .core import REAL_MONO, HarnessError
from .disk import REAL


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = REAL.write(fd, data)
        data = data[n:]


def _recv_exact(fd, n, deadline=None):
    out = b""
    while len(out) < n:
        if deadline is not None:
            left = deadline - REAL_MONO()
            if left <= 0:
                raise HarnessError("simulated process did not answer in time")
            ready, _, _ = select.select([fd], [], [], left)
            if not ready:
                continue
        chunk = REAL.read(fd, n - len(out))
        if not chunk:
            raise EOFError
        out += chunk
    return out


def _recv(fd, timeout=None):
    deadline = None if timeout is None else REAL_MONO() + timeout
    n = struct.unpack("<Q", _recv_exact(fd, 8, deadline))[0]
    return pickle.loads(_recv_exact(fd, n, deadline))


class Unpicklable:
    def __init__(self, what):
        self.what = what


class Channel:
    """Worker side: talk to the scheduler."""

    def __init__(self, rfd, wfd):
        self.rfd, self.wfd = rfd, wfd

    def call(self, kind, payload=None):
        """Stop here until the scheduler resumes this process; return its action."""
        try:
            _send(self.wfd, (kind, payload))
            return _recv(self.rfd)
        except (EOFError, BrokenPipeError):
            REAL._exit(0)


class Proc:
    """Scheduler side of one simulated process. ``body(channel)`` runs in the child."""

    def __init__(self, body, name):
        self.name = name
        r1, w1 = REAL.pipe()
        r2, w2 = REAL.pipe()
        self.pid = REAL.fork()
        if self.pid == 0:
            try:
                REAL.close(w1)
                REAL.close(r2)
                chan = Channel(r1, w2)
                chan.call("ready")
                body(chan)
                _send(w2, ("end", None))
            except BaseException:
                try:
                    _send(w2, ("crash", traceback.format_exc()))
                except BaseException:
                    pass
            finally:
                REAL._exit(0)
        REAL.close(r1)
        REAL.close(w2)
        self.rfd, self.wfd = r2, w1
        self.alive = True
        self.msg = None
        self.exitsig = None
        self._receive()
        assert self.msg[0] == "ready", self.msg

    def _receive(self):
        try:
            self.msg = _recv(self.rfd, timeout=200)
        except EOFError:
            self.alive = False
            _, st = REAL.waitpid(self.pid, 0)
            self.exitsig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            self.msg = ("dead", self.exitsig)
            self._close()
        return self.msg

    def resume(self, action=None):
        """Let the process run until it stops again; return its next message (kind, payload)."""
        try:
            _send(self.wfd, action)
        except BrokenPipeError:
            pass
        return self._receive()

    def kill(self):
        if self.alive:
            REAL.kill(self.pid, signal.SIGKILL)
            REAL.waitpid(self.pid, 0)
            self.alive = False
            self._close()

    def finish(self):
        """Reap a process that has ended."""
        if self.alive:
            REAL.waitpid(self.pid, 0)
            self.alive = False
            self._close()

    def _close(self):
        for fd in (self.rfd, self.wfd):
            try:
                REAL.close(fd)
            except OSError:
                pass


def picklable(obj):
    try:
        return pickle.dumps(obj, protocol=4)
    except Exception as e:  # noqa: BLE001
        return Unpicklable(f"{type(e).__name__}: {e}")
