"""Interrupts: an exception raised at the n-th line executed by the code under test."""
import sys

ROOT = "/repo/src/glimpse"


class Interrupted(BaseException):
    """Stands for KeyboardInterrupt: nothing in the code under test catches it by class."""


class LineInterrupt:
    """Raise ``exc`` when the code under test is about to execute its n-th line (counting from 0)."""

    def __init__(self, ctx, n, exc=KeyboardInterrupt, root=ROOT):
        self.ctx, self.n, self.exc, self.root = ctx, n, exc, root
        self.fired = False
        self.lines = 0

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            if self.lines == self.n and not self.fired:
                self.fired = True
                sys.settrace(None)
                self.ctx.fault("interrupt")
                raise self.exc("interrupted by the simulator")
            self.lines += 1
        return self._line

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
