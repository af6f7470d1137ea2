"""
A random source whose decisions are enumerated.  A number drawn from it is not known: it
is uniform over a range that each comparison splits in two, so that all outcomes of an
algorithm are explored, each with its exact probability, in as many executions as there
are different courses of events (not values).
"""

from fractions import Fraction
from math import floor


class TooMany(Exception):
    """More courses of events than the limit."""


class Inexact(Exception):
    """A floating point number was drawn where only an integer can be exact."""


class Explorer:
    """explore(fn) yields (result of fn, probability) for every course of events."""

    def __init__(self, limit, exact=False):
        self.limit = limit
        self.exact = exact
        self.path = []
        self.pos = 0
        self.prob = None
        self.runs = 0
        self.calls = 0

    def decide(self, weights):
        """The number of one of the options, explored in turn; weights of zero are skipped."""
        live = [i for i, w in enumerate(weights) if w > 0]
        tot = sum(weights)
        if self.pos == len(self.path):
            self.path.append([0, len(live)])
        k, n = self.path[self.pos]
        assert n == len(live), "the execution is not a function of the random decisions"
        self.pos += 1
        i = live[k]
        self.prob *= Fraction(weights[i]) / tot
        return i

    def explore(self, fn):
        self.path = []
        while True:
            self.pos = 0
            self.prob = Fraction(1)
            self.runs += 1
            if self.runs > self.limit:
                raise TooMany
            res = fn()
            assert self.pos == len(self.path), "an execution got shorter"
            yield res, self.prob
            while self.path and self.path[-1][0] + 1 == self.path[-1][1]:
                self.path.pop()
            if not self.path:
                return
            self.path[-1][0] += 1

    # -- the interface of the random module ----------------------------------
    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def randrange(self, start, stop=None, step=1):
        self.calls += 1
        if stop is None:
            start, stop = 0, start
        if isinstance(start, Lazy) or isinstance(stop, Lazy):
            start, stop = int(start), int(stop)
        # len(range()) is no good for large ranges
        n = max(0, -((start - stop) // step))
        if n <= 0:
            raise ValueError(f"empty range for randrange() ({start}, {stop}, {step})")
        return Lazy(Root(self, 0, n - 1, True), Fraction(step), Fraction(start)).simple()

    def getrandbits(self, k):
        return self.randrange(1 << k)

    def random(self):
        self.calls += 1
        if self.exact:
            raise Inexact
        return Lazy(Root(self, Fraction(0), Fraction(1), False), Fraction(1), Fraction(0))

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def choice(self, seq):
        self.calls += 1
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self.decide([1] * len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        self.calls += 1
        population = list(population)
        if cum_weights is not None:
            cum_weights = list(cum_weights)
            weights = [b - a for a, b in zip([0] + cum_weights, cum_weights)]
        if weights is None:
            weights = [1] * len(population)
        if self.exact and sum(weights) > 1 << 53:
            raise Inexact
        weights = [Fraction(w) for w in weights]
        if sum(weights) <= 0:
            raise ValueError("Total of weights must be greater than zero")
        return [population[self.decide(weights)] for _ in range(k)]

    def shuffle(self, x):
        self.calls += 1
        for i in reversed(range(1, len(x))):
            j = self.decide([1] * (i + 1))
            x[i], x[j] = x[j], x[i]

    def sample(self, population, k, *, counts=None):
        pop = list(population)
        if counts is not None:
            pop = [x for x, c in zip(pop, counts) for _ in range(c)]
        self.calls += 1
        return [pop.pop(self.decide([1] * len(pop))) for _ in range(k)]


class Root:
    """A uniform variable on the integers lo..hi or on the interval [lo, hi)."""

    def __init__(self, ex, lo, hi, whole):
        self.ex, self.lo, self.hi, self.whole = ex, lo, hi, whole

    def split(self, at):
        """Decide whether the variable is < at."""
        if self.whole:
            at = -floor(-at)  # < at  iff  <= ceil(at) - 1
            below, above = max(0, min(self.hi + 1, at) - self.lo), \
                max(0, self.hi + 1 - max(self.lo, at))
        else:
            below = max(Fraction(0), min(self.hi, at) - self.lo)
            above = max(Fraction(0), self.hi - max(self.lo, at))
        if not below or not above:
            return bool(below)
        res = self.ex.decide([below, above]) == 0
        if res:
            self.hi = at - 1 if self.whole else at
        else:
            self.lo = at
        return res


def _num(x):
    return Fraction(x) if isinstance(x, (int, float, Fraction)) else None


class Lazy:
    """a * root + b"""

    def __init__(self, root, a, b):
        self.root, self.a, self.b = root, a, b

    def simple(self):
        if self.root.whole and self.root.lo == self.root.hi:
            v = self.a * self.root.lo + self.b
            return int(v) if v.denominator == 1 else v
        return self

    def _less(self, c, strict):
        """self < c (strict) or self <= c"""
        if self.a == 0:
            return self.b < c if strict else self.b <= c
        t = (c - self.b) / self.a
        r = self.root
        if self.a > 0:
            if strict or not r.whole:
                return r.split(t)  # root < t (ties have no weight when continuous)
            return r.split(floor(t) + 1)  # root <= t
        # root > t or root >= t
        if not r.whole:
            return not r.split(t)
        return not r.split(floor(t) + 1) if strict else not r.split(t)

    def _cmp(self, other, fn, swapped):
        if isinstance(other, Lazy):
            other = other.force()
        c = _num(other)
        return NotImplemented if c is None else fn(c)

    def __lt__(self, o):
        return self._cmp(o, lambda c: self._less(c, True), None)

    def __le__(self, o):
        return self._cmp(o, lambda c: self._less(c, False), None)

    def __gt__(self, o):
        return self._cmp(o, lambda c: not self._less(c, False), None)

    def __ge__(self, o):
        return self._cmp(o, lambda c: not self._less(c, True), None)

    def __eq__(self, o):
        if isinstance(o, Lazy):
            o = o.force()
        c = _num(o)
        if c is None:
            return False
        if not self.root.whole:
            return False
        return self._less(c, False) and not self._less(c, True)

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return self != 0

    def _lin(self, a, b):
        return Lazy(self.root, self.a * a, self.b * a + b).simple()

    def __add__(self, o):
        if isinstance(o, Lazy):
            o = o.force()
        c = _num(o)
        return NotImplemented if c is None else self._lin(1, c)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Lazy):
            o = o.force()
        c = _num(o)
        return NotImplemented if c is None else self._lin(1, -c)

    def __rsub__(self, o):
        c = _num(o)
        return NotImplemented if c is None else self._lin(-1, c)

    def __mul__(self, o):
        if isinstance(o, Lazy):
            o = o.force()
        c = _num(o)
        return NotImplemented if c is None else self._lin(c, 0)

    __rmul__ = __mul__

    def __truediv__(self, o):
        c = _num(o)
        return NotImplemented if c is None else self._lin(1 / c, 0)

    def __neg__(self):
        return self._lin(-1, 0)

    def __pos__(self):
        return self

    def force(self):
        """The value, all values explored in turn."""
        r = self.root
        assert r.whole, "a real number was asked for exactly"
        if r.lo < r.hi:
            i = r.ex.decide([1] * (r.hi - r.lo + 1))
            r.lo = r.hi = r.lo + i
        v = self.a * r.lo + self.b
        return int(v) if v.denominator == 1 else v

    def __floor__(self):
        if self.root.whole:
            return floor(self.force())
        lo, hi = sorted((self.a * self.root.lo + self.b, self.a * self.root.hi + self.b))
        k = floor(lo)
        while k + 1 < hi and not self._less(Fraction(k + 1), True):
            k += 1
        return k

    def __int__(self):
        return int(self.__floor__())

    __trunc__ = __int__

    def __index__(self):
        v = self.force()
        if not isinstance(v, int):
            raise TypeError("not an integer")
        return v

    def __hash__(self):
        return hash(self.force())

    def __floordiv__(self, o):
        return self.force() // o

    def __mod__(self, o):
        return self.force() % o

    def __divmod__(self, o):
        return divmod(self.force(), o)

    def __repr__(self):
        return f"<{self.a}*[{self.root.lo}..{self.root.hi}]+{self.b}>"
