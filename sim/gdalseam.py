"""GDAL behind a seam: reads, opens and writes that fail when the simulator says so."""
import osgeo.gdal as gdal

from .core import HarnessError


class GdalSeam:
    """Counts GDAL calls and makes chosen ones fail the way GDAL fails (None or an error code)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.pending = None  # {"on": kinds, "after": n, "times": k}
        self.fired = 0
        self.on_call = None  # callback(kind) before each call
        self.calls = 0
        self._open, self._band, self._ds = gdal.Open, gdal.Band.ReadAsArray, gdal.Dataset.ReadAsArray
        seam = self
        self.inside = False

        def wrap(kind, fn):
            def call(*a, **k):
                if seam.inside:
                    return fn(*a, **k)
                seam.calls += 1
                if seam.on_call is not None:
                    seam.on_call(kind)
                if seam.hit(kind):
                    return None
                seam.inside = True
                try:
                    return fn(*a, **k)
                finally:
                    seam.inside = False

            return call

        gdal.Open = wrap("open", self._open)
        gdal.Band.ReadAsArray = wrap("read", self._band)
        gdal.Dataset.ReadAsArray = wrap("read", self._ds)

    def hit(self, kind):
        f = self.pending
        if f is None or kind not in f["on"]:
            return False
        if f["after"] > 0:
            f["after"] -= 1
            return False
        f["times"] -= 1
        if f["times"] <= 0:
            self.pending = None
        self.fired += 1
        self.ctx.fault("gdal-" + kind)
        return True

    def arm(self, on, after=0, times=1):
        if self.pending is not None:
            raise HarnessError("a fault is pending")
        self.pending = {"on": on, "after": after, "times": times}
        self.fired = 0

    def disarm(self):
        """Withdraw the pending fault; how often it fired."""
        self.pending = None
        n, self.fired = self.fired, 0
        return n
