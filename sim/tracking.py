"""Run Tracker.track inside the simulator."""
import os
import threading

import numpy as np

from . import worlds
from .core import Deadlock, HarnessError, StepLimit, digest
from .pool import SimPool
from .rng import Streams


def make_streams(seed):
    s = Streams(seed)
    s.install()
    return s


def use_pool(ctx, mode, streams, keys=None, kill=None, disk=None, ncpu=4):
    import glimpse.config

    pool = SimPool(ctx, mode, streams=streams, keys=keys, disk=disk, kill=kill)
    glimpse.config.backend = pool.backend
    os.cpu_count = lambda: ncpu
    return pool


def error_text(e):
    """Class and own message of an error, whether raised or recorded with its traceback."""
    if e is None:
        return None
    return type(e).__name__


def warning_texts(w):
    if w is None:
        return None
    return [(x.category.__name__, str(x.message)) for x in w]


class Outcome:
    """What one tracking call produced."""

    def __init__(self, tracks=None, exc=None):
        self.tracks, self.exc = tracks, exc


def track(tracker, models, args):
    try:
        return Outcome(tracks=tracker.track(models, **args))
    except (HarnessError, Deadlock, StepLimit):
        raise
    except Exception as e:  # noqa: BLE001
        return Outcome(exc=e)


def part_digest(tracks, i):
    return digest(worlds.track_parts(tracks, i))


def head_digest(tracks):
    return digest(
        [str(t) for t in np.asarray(tracks.datetimes)],
        np.asarray(tracks.images).tolist() if tracks.images is not None else None,
        tracks.time_unit.total_seconds(),
    )


def differing(parts_a, parts_b):
    return [k for k in parts_a if digest(parts_a[k]) != digest(parts_b[k])]


def warm_threads():
    """Import lazily-imported modules before threads are scheduled (import locks)."""
    threading.current_thread()
