"""
Deep specifications: hundreds of rules in one chain, so that the first request goes through
all of them.  Built directly, without a search.
"""

import sys

from comb_spec_searcher import CombinatorialSpecification

from . import trees


class Stack:
    """Room for the recursions of the oracle."""

    def __enter__(self):
        self.old = sys.getrecursionlimit()
        sys.setrecursionlimit(200000)

    def __exit__(self, *exc):
        sys.setrecursionlimit(self.old)


def defs(sim):
    n = sim.weighted([((100, 250), 1), ((300, 500), 3), ((500, 900), 1)])
    n = sim.int(*n)
    atoms = [("A", 0), ("A", 1), ("A", 2), ("E",)]
    zero, one, two, none = range(n + 1, n + 5)
    mix = sim.pick(["U", "P", "UP", "UPQ", "UPQQQ", "PU0"])
    res, extra = [], 0
    for i in range(n):
        k = sim.pick(mix)
        if k == "U":
            # few alternatives: every one of them is an object, as deep as the chain
            other = sim.pick([zero, one, two]) if extra < 8 and sim.chance(1, 20) else none
            extra += other != none
            d = ("U", i + 1, other) if sim.chance(1, 2) else ("U", other, i + 1)
        elif k == "0":
            d = ("U", i + 1, none)
        elif k == "P":
            d = ("P", i + 1, zero) if sim.chance(1, 2) else ("P", zero, i + 1)
        else:
            d = ("Q", i + 1)
        res.append(d)
    back = sim.pick([None, 0, n // 2, n - 1])
    if back is None:
        res.append(("U", zero, one, two))
        return tuple(res + atoms)
    res.append(("U", zero, n + 5))
    return tuple(res + atoms + [("P", one, back)])


def spec(sim):
    """A deep specification with its start class and the largest size to look at."""
    with Stack():
        start = trees.G(defs(sim), 0)
        rules = trees.direct_rules(sim, start)
        for r in rules:
            assert r.comb_class.lang.min < trees.BIG
        top = sim.int(0, 2)
        for n in range(top + 1):
            start.truth(n)
        res = CombinatorialSpecification(start, rules)
    sim.probe("deep")
    return res, start, top


def kept(sim, limit):
    sim.check(sys.getrecursionlimit() == limit, "recursion-limit-changed",
              lambda: f"{sys.getrecursionlimit()} instead of {limit}")


def objects(start, n):
    with Stack():
        return sorted(repr(t) for t in start.gram.objects(start.sym, n))


def shown(objs):
    with Stack():
        return sorted(repr(o.t) for o in objs)
