"""The randomness seam: every ``np.random`` draw comes from the stream of the current task."""
import threading
import zlib

import numpy as np

NAMES = (
    "random random_sample ranf sample rand randn standard_normal normal uniform randint choice shuffle "
    "permutation multinomial exponential poisson gamma beta binomial lognormal multivariate_normal "
    "standard_exponential laplace logistic triangular vonmises"
).split()
REAL = {n: getattr(np.random, n) for n in NAMES}
REAL_DEFAULT_RNG = np.random.default_rng


class Extreme(np.random.RandomState):
    """A legal stream whose uniform draws often sit at the edges of [0, 1)."""

    EDGES = (0.0, np.nextafter(1.0, 0.0), 1.0 - 2.0**-53, 2.0**-53, 0.5, 1.0 - 1e-16, 1e-300)

    def __init__(self, seed, rate=0.5):
        super().__init__(seed)
        self._rate = rate
        self.extremes = 0

    def _edge(self, x):
        hit = super().random_sample(np.shape(x)) < self._rate
        pick = super().randint(0, len(self.EDGES), np.shape(x))
        self.extremes += int(np.count_nonzero(hit))
        out = np.where(hit, np.asarray(self.EDGES)[pick], x)
        return float(out) if np.ndim(x) == 0 else out

    def random_sample(self, size=None):
        return self._edge(super().random_sample(size))

    random = ranf = sample = random_sample

    def rand(self, *d):
        return self.random_sample(d or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (np.subtract(high, low)) * self.random_sample(size)


class Streams:
    """Per-task streams: a draw made while task ``key`` runs comes from ``key``'s stream."""

    def __init__(self, seed, factory=None):
        self.seed = seed
        self.factory = factory or (lambda s: np.random.RandomState(s))
        self.tls = threading.local()
        self.states = {}
        self.draws = 0
        self.limit = None
        self.on_draw = None

    def enter(self, key):
        """Start the stream of a task afresh on the calling thread."""
        self.tls.key = key
        self.states[key] = self.factory(zlib.crc32(repr((self.seed, key)).encode()))

    def state(self):
        key = getattr(self.tls, "key", "main")
        if key not in self.states:
            self.states[key] = self.factory(zlib.crc32(repr((self.seed, key)).encode()))
        return self.states[key]

    def install(self):
        def route(name):
            def f(*a, **k):
                self.draws += 1
                if self.on_draw is not None:
                    self.on_draw(name, a)
                return getattr(self.state(), name)(*a, **k)

            return f

        for n in NAMES:
            if hasattr(np.random.RandomState, n) or n in ("ranf", "sample"):
                setattr(np.random, n, route(n if n not in ("ranf", "sample") else "random_sample"))
        np.random.default_rng = lambda seed=None: (
            REAL_DEFAULT_RNG(seed) if seed is not None else REAL_DEFAULT_RNG(int(self.state().randint(0, 2**31)))
        )
        np.random.seed = lambda seed=None: None
