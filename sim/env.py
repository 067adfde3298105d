"""Prepare this process: environment, seams that must exist before imports, warm-up."""
import os
import sys

os.environ.update(
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    MKL_NUM_THREADS="1",
    GDAL_NUM_THREADS="1",
    OPENCV_OPENCL_RUNTIME="disabled",
    MPLBACKEND="agg",
    PYTHONDONTWRITEBYTECODE="1",
    TZ="UTC",
    LANG="C.UTF-8",
    GDAL_PAM_ENABLED="NO",
)
os.environ.setdefault("HOME", "/root")
sys.dont_write_bytecode = True
REPO_SRC = "/repo/src"
for d in (REPO_SRC, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))):
    if d in sys.path:
        sys.path.remove(d)
    sys.path.insert(0, d)


class Clock:
    """Simulated wall clock: moves only when told to."""

    now = 1_600_000_000.0

    def time(self):
        return Clock.now

    def time_ns(self):
        return int(Clock.now * 1e9)

    def sleep(self, seconds):
        Clock.now += max(0.0, seconds)


CLOCK = Clock()
_done = False


def setup():
    """Import everything once, in the parent, so that forked runs start warm."""
    global _done
    if _done:
        return
    _done = True
    import time


    time.tzset()
    from . import core  # noqa: F401  (keeps the real clock functions first)

    time.time = CLOCK.time
    time.time_ns = CLOCK.time_ns
    time.sleep = CLOCK.sleep
    import tempfile

    base = os.environ.get("VSIM_MPL") or tempfile.gettempdir() + "/vsim-mpl"
    os.environ.setdefault("MPLCONFIGDIR", base)
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    import cv2

    cv2.setNumThreads(0)
    cv2.ocl.setUseOpenCL(False)
    import matplotlib

    matplotlib.use("agg")
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401
    import osgeo.gdal as gdal
    import osgeo.gdal_array  # noqa: F401
    import piexif  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.ndimage  # noqa: F401
    import scipy.optimize  # noqa: F401

    import glimpse
    import glimpse.convert
    import glimpse.exif
    import glimpse.optimize
    import glimpse.svg
    import glimpse.track
    import glimpse.track.motion
    import glimpse.track.observer
    import glimpse.track.tracker
    import glimpse.track.tracks

    if not os.path.realpath(glimpse.__file__).startswith(REPO_SRC):
        raise SystemExit(f"glimpse was imported from {glimpse.__file__}, not from {REPO_SRC}")
    # the progress bar prints to stderr only on a tty; runs have none
