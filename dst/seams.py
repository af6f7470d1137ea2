"""
The seams: every way the library can reach a clock or a random number is routed
to the current simulation.  Nothing here depends on how a library module spells
its import: module attributes that *are* one of the replaced functions are
replaced too.
"""

import logging
import random
import sys
import time

from .core import CUR, sim_id

ORIG = {}
_TIME_NAMES = ("time", "monotonic", "perf_counter", "process_time")
_RAND_NAMES = (
    "random",
    "randint",
    "randrange",
    "choice",
    "shuffle",
    "sample",
    "choices",
    "uniform",
    "getrandbits",
)


def _mk_time(name, orig):
    def read():
        sim = CUR[0]
        if sim is None:
            return orig()
        return sim.clock.read()

    read.__name__ = name
    return read


def _mk_time_ns(orig):
    def read_ns():
        sim = CUR[0]
        if sim is None:
            return orig()
        return int(sim.clock.read() * 1e9)

    return read_ns


def _sleep(orig):
    def sleep(secs):
        sim = CUR[0]
        if sim is None:
            return orig(secs)
        sim.clock.sleep(secs)

    return sleep


class TapeRandom:
    """Answers the library's random calls from the tape."""

    def __init__(self, draw):
        self.draw = draw

    def weighted_index(self, weights):
        tot = sum(weights)
        r = self.draw(tot) if isinstance(tot, int) else self.draw(1 << 20) / (1 << 20) * tot
        for i, w in enumerate(weights):
            if r < w:
                return i
            r -= w
        return len(weights) - 1

    def random(self):
        return self.draw(1 << 30) / (1 << 30)

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def getrandbits(self, k):
        return self.draw(1 << k)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        n = len(range(start, stop, step))
        if n <= 0:
            raise ValueError(f"empty range for randrange() ({start}, {stop}, {step})")
        return start + step * self.draw(n)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self.draw(len(seq))]

    def shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = self.draw(i + 1)
            x[i], x[j] = x[j], x[i]

    def sample(self, population, k, *, counts=None):
        pop = list(population)
        res = []
        for _ in range(k):
            res.append(pop.pop(self.draw(len(pop))))
        return res

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        population = list(population)
        if cum_weights is not None:
            cum_weights = list(cum_weights)
            weights = [b - a for a, b in zip([0] + cum_weights, cum_weights)]
        if weights is None:
            return [self.choice(population) for _ in range(k)]
        weights = list(weights)
        if sum(weights) <= 0:
            raise ValueError("Total of weights must be greater than zero")
        return [population[self.weighted_index(weights)] for _ in range(k)]


def _mk_rand(name, orig):
    def call(*args, **kwargs):
        sim = CUR[0]
        if sim is None:
            return orig(*args, **kwargs)
        hook = sim.rng_hook
        if hook is None:
            hook = sim.rng_hook = TapeRandom(sim.draw)
        sim.probe("rng." + name)
        return getattr(hook, name)(*args, **kwargs)

    call.__name__ = name
    return call


def _fake_asizeof(*_args, **_kwargs):
    return 1


def install():
    """Install the seams.  To be called after the library is imported."""
    if ORIG:
        return
    logging.disable(logging.CRITICAL)
    repl = []
    for name in _TIME_NAMES:
        orig = getattr(time, name)
        new = _mk_time(name, orig)
        ORIG["time." + name] = orig
        repl.append((orig, new))
        setattr(time, name, new)
    orig = time.time_ns
    ORIG["time.time_ns"] = orig
    new = _mk_time_ns(orig)
    repl.append((orig, new))
    time.time_ns = new
    orig = time.sleep
    ORIG["time.sleep"] = orig
    new = _sleep(orig)
    repl.append((orig, new))
    time.sleep = new
    for name in _RAND_NAMES:
        orig = getattr(random, name)
        ORIG["random." + name] = orig
        new = _mk_rand(name, orig)
        repl.append((orig, new))
        setattr(random, name, new)
    try:
        from pympler import asizeof as _az

        repl.append((_az.asizeof, _fake_asizeof))
        _az.asizeof = _fake_asizeof
    except ImportError:
        pass
    # names imported into the library (or into the universes) by value
    for modname, mod in list(sys.modules.items()):
        if mod is None or not modname.startswith(("comb_spec_searcher", "example", "tests")):
            continue
        for attr, val in list(vars(mod).items()):
            for orig, new in repl:
                if val is orig:
                    setattr(mod, attr, new)
    # the bound methods of the hidden Random instance are == but not `is`
    for modname, mod in list(sys.modules.items()):
        if mod is None or not modname.startswith("comb_spec_searcher"):
            continue
        mod.id = sim_id
        for attr, val in list(vars(mod).items()):
            if getattr(val, "__self__", None) is getattr(random, "_inst", object()):
                nm = getattr(val, "__name__", "")
                if nm in _RAND_NAMES:
                    setattr(mod, attr, getattr(random, nm))


def cleanup_library():
    """Forget library globals that would tie one run to the next."""
    try:
        from comb_spec_searcher.utils import TermsCache

        TermsCache.ALL_CACHES.clear()
        TermsCache.KEY_CACHE.clear()
    except (ImportError, AttributeError):
        pass
