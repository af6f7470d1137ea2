"""
The simulator kernel: one tape of choices decides everything in a run.

A run is ``body(sim)``.  Every choice (inputs, schedule, clock script, random
numbers answered to the library, fault points) is ``sim.draw(n)``.  In search
mode the tape is produced by a PRNG seeded with (VERIF_SEED, property, index);
in replay mode it is the recorded list.  Past the end of a recorded tape every
choice is 0, which makes deleting a suffix a legal shrink.
"""

import hashlib
import random as _random
import time as _time
import weakref
from collections import Counter

REAL_ID = id
REAL_TIME = _time.time
REAL_CPU = _time.process_time
REAL_MONO = _time.monotonic


class Violation(Exception):
    """A property is broken.  ``kind`` identifies the class of violation."""

    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class Discard(Exception):
    """The generated case is outside what the run can use (counted)."""


class InjectedFault(Exception):
    """Raised by the simulator inside a user callback (an interrupt)."""


class Hang(BaseException):
    """The watchdog of a single run fired."""


class StepBudget(BaseException):
    """The deterministic step budget of a run was exhausted."""


class Tape:
    def __init__(self, seed=None, choices=None):
        self.rec = []
        self.pos = 0
        self.given = choices
        self.rng = None if choices is not None else _random.Random(seed)

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            # no choice: not recorded
            return 0
        if self.given is not None:
            if self.pos < len(self.given):
                v = self.given[self.pos]
                self.pos += 1
                if v >= n:
                    v = v % n
            else:
                v = 0
        else:
            v = int(self.rng.random() * n) if n < (1 << 40) else self.rng.randrange(n)
        self.rec.append(v)
        return v


class Clock:
    """
    The simulated clock.  A script (drawn once per run) decides how far each
    reading moves it: a constant tick, jitter, rare long stalls, rare backward
    steps.  A small part of the elapsed time is added at each reading so that
    time-bounded loops of the library end after few iterations.
    """

    def __init__(self, script_seed=0, tick=0.001, stall=0.0, back=0.0, big=1000.0):
        self.t0 = 1_600_000_000.0
        self.now = self.t0
        self.rng = _random.Random(script_seed)
        self.tick = tick
        self.stall = stall
        self.back = back
        self.big = big
        self.reads = 0
        self.nback = 0
        self.fired = Counter()
        self.forced = {}

    def read(self):
        self.reads += 1
        r = self.rng.random()
        adv = self.tick * (0.5 + r) + min(1e6, 1e-2 * max(0.0, self.now - self.t0))
        if self.stall and self.rng.random() < self.stall:
            adv += self.big * self.rng.random()
            self.fired["clock_stall"] += 1
        elif self.back and self.nback < 60 and self.rng.random() < self.back:
            self.nback += 1
            adv = -self.rng.random() * min(5.0, max(0.0, self.now - self.t0))
            self.fired["clock_backward"] += 1
        self.now += adv
        return self.now

    def sleep(self, secs):
        self.now += max(0.0, secs)


class Addresses:
    """Simulated memory addresses: the answers to id() inside the library.

    The address of a dead object is given out again at once, as allocators do; the real
    addresses differ from process to process and would not replay."""

    def __init__(self):
        self.live = {}
        self.free = []
        self.next = 0
        self.kept = []
        self.reused = 0

    def of(self, obj):
        real = REAL_ID(obj)
        entry = self.live.get(real)
        if entry is not None and (entry[1] is None or entry[1]() is obj):
            return entry[0]
        if self.free:
            addr = self.free.pop()
            self.reused += 1
        else:
            self.next += 1
            addr = 0x7F0000000000 + 64 * self.next

        def dead(ref, real=real, addr=addr):
            if self.live.get(real, (None, None))[1] is ref:
                del self.live[real]
            self.free.append(addr)

        try:
            ref = weakref.ref(obj, dead)
        except TypeError:
            ref = None
            self.kept.append(obj)
        self.live[real] = (addr, ref)
        return addr


def sim_id(obj):
    sim = CUR[0]
    return REAL_ID(obj) if sim is None else sim.addresses.of(obj)


class Sim:
    def __init__(self, tape, keep_trace=False):
        self.tape = tape
        self.clock = Clock()
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.keep_trace = keep_trace
        self.trace = []
        self.nev = 0
        self.hash = hashlib.sha256()
        self.nontrivial = False
        self.notes = {}
        self.callbacks = 0
        self.work = None  # the user calls made by the library, when recorded
        self.interrupt_at = None  # number of the user callback that is interrupted
        self.rng_hook = None  # object answering the library's random calls
        self.salt = 0
        self.addresses = Addresses()
        self.plain = False  # classes without a byte form: stored uncompressed

    # -- choices -----------------------------------------------------------
    def draw(self, n):
        return self.tape.draw(n)

    def int(self, lo, hi):
        return lo + self.tape.draw(hi - lo + 1)

    def chance(self, num, den):
        """True with probability num/den; shrinks to False."""
        return self.tape.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.tape.draw(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        r = self.tape.draw(tot)
        for v, w in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.tape.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffled(seq)[:k]

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]

    # -- log ---------------------------------------------------------------
    def log(self, *event):
        s = repr(event)
        self.nev += 1
        self.hash.update(s.encode("utf8", "replace"))
        if self.keep_trace or len(self.trace) < 12:
            if len(self.trace) < 400:
                self.trace.append(s if len(s) < 600 else s[:600] + "...")

    def fault(self, kind, k=1):
        self.faults[kind] += k
        self.log("FAULT", kind)

    def probe(self, name, k=1):
        self.probes[name] += k

    def callback(self, name, *what):
        """Called by the universes whenever the library calls user code."""
        if self.work is not None:
            if name == "is_empty":
                return  # answered from a cache or not: no step of the work
            self.work.append((name, *what))
        self.callbacks += 1
        if self.interrupt_at is not None and self.callbacks >= self.interrupt_at:
            self.interrupt_at = None
            self.fault("interrupt")
            raise InjectedFault(name)

    def arm_interrupt(self, within):
        """Interrupt one of the next `within` user callbacks."""
        self.interrupt_at = self.callbacks + 1 + self.draw(within)

    def state(self, obj):
        h = hashlib.md5(repr(obj).encode()).digest()[:8]
        self.states.add(h)

    def fail(self, kind, msg=""):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg=""):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    # -- clock -------------------------------------------------------------
    def set_clock(self, **kw):
        old = self.clock
        self.clock = Clock(**kw)
        self.clock.fired.update(old.fired)

    def draw_clock(self, faulty=True):
        """Swarm: pick this run's clock script."""
        prof = self.draw(5)
        tick = [0.001, 1e-4, 0.05, 1.0, 20.0][prof]
        stall = back = 0.0
        if faulty:
            stall = [0.0, 0.002, 0.02, 0.2][self.draw(4)]
            back = [0.0, 0.0, 0.01, 0.1][self.draw(4)]
        self.set_clock(
            script_seed=self.draw(1 << 16), tick=tick, stall=stall, back=back
        )
        self.log("clock", tick, stall, back)


# The simulation that is being run in this process (None outside a run)
CUR = [None]
