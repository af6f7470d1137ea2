"""C07: generated objects are the objects of the class; object maps are inverse."""

import sys
from collections import Counter

from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    ReverseRule,
    VerificationRule,
)

from .. import deep, specs, trees, words
from ..core import Discard, InjectedFault
from ..wordgen import gen_any, make_searcher

RUNS = {"quick": 6000, "thorough": 150000}
RULE = (
    "One run = a specification found for a generated word class (as in C01, objects in place of"
    " counts), then a drawn history on it: objects of sizes in a drawn order through the three"
    " ways to ask for them, generators left unfinished or advanced in turns, user callbacks"
    " interrupted and the request repeated. What is generated must be, as a multiset, the words"
    " of the automaton with that size and statistics and as many as the specification counts."
    " Every rule of the specification, the rules inside it, and drawn equivalence paths with"
    " reversed steps map the words of their class to parts in the children and back."
    " One run in 150 instead generates with a directly built chain of 100 to 900 rules."
    " One universe in four is of trees"
    " instead of words: a generated grammar, repeated and empty children, symbols with the"
    " same numbers of objects."
    " Non-trivial: at least twenty objects were generated by a specification of at least four"
    " rules."
)
STATES = "distinct rule-shape multisets of specifications that generated objects"
REAL = ["CombinatorialSpecification", "rules and constructors (objects)",
        "EquivalenceRule, EquivalencePathRule, ReverseRule",
        "CombinatorialSpecificationSearcher and rule databases"]
STUB = ["word classes and strategies (user code)", "clock", "random"]
ASSUME = ["languages of small automata", "at most 400 objects per size",
          "specifications with a complement or quotient rule generate no objects (documented"
          " NotImplementedError); their other rules are still checked"]
MUST_HIT = ["generated", "deep", "trees", "unsupported", "abandoned", "in_turns", "interrupted", "by_params",
            "path.reverse", "path.long", "round.Rule", "round.EquivalencePathRule",
            "round.EquivalenceRule", "round.ReverseRule", "round.BlowRule", "zero_param"]


def body(sim):
    words.reset()
    trees.reset()
    sim.salt = sim.draw(1 << 16)
    if sim.chance(1, 150):
        deep_chain(sim)
        return
    u = gen_any(sim)
    sim.draw_clock()
    which = sim.weighted([("ruledb", 3), ("forget", 2), ("forest", 3), ("forest-noreverse", 2)])
    css, which = make_searcher(sim, u, which, debug=False)
    spec = None
    for spec in specs.search(sim, css, want=1, restarts=False):
        break
    if spec is None:
        raise Discard("no specification")
    specs.rule_forms(sim, spec)
    history(sim, spec, u.start)
    for rule in specs.flat_rules(spec):
        if not isinstance(rule, VerificationRule):
            maps(sim, rule)
    for _ in range(sim.int(0, 3)):
        chain = specs.walk(sim, u.start, u.pack, sim.int(1, 5))
        if chain:
            if any(isinstance(r, ReverseRule) or isinstance(getattr(r, "original_rule", None),
                                                            ReverseRule) for r in chain):
                sim.probe("path.reverse")
            if len(chain) > 1:
                sim.probe("path.long")
            path = EquivalencePathRule(chain)
            maps(sim, path)
            path_objects(sim, path)


def deep_chain(sim):
    """Hundreds of rules in a chain: the first request goes through all of them."""
    spec, start, top = deep.spec(sim)
    limit = sys.getrecursionlimit()
    for n in sim.shuffled(range(top + 1)):
        if sim.chance(1, 2):
            objs = list(spec.generate_objects_of_size(n))
        else:
            objs = spec.get_objects(n).get((), [])
        deep.kept(sim, limit)
        want = deep.objects(start, n)
        sim.check(deep.shown(objs) == want, "objects-wrong",
                  lambda: f"chain of {spec.number_of_rules()} rules: {len(objs)} objects of size"
                  f" {n}, expected {len(want)} others")


def maps(sim, rule):
    is_rev = isinstance(rule, ReverseRule) or isinstance(
        getattr(rule, "original_rule", None), ReverseRule)
    n = sim.int(0, 4)
    try:
        specs.roundtrip(sim, rule, n)
    except NotImplementedError:
        orig = rule
        while hasattr(orig, "original_rule"):
            orig = orig.original_rule
        rest = [x for x in orig.children if not x.lang.empty]
        sim.check(is_rev and len(rest) != 1, "map-not-implemented",
                  lambda: f"{type(rule).__name__} {rule.comb_class} -> {rule.children}")
        return
    sim.probe("round." + type(rule).__name__)


def path_objects(sim, path):
    """A path rule on its own: objects and counts through it."""
    child = path.children[0]

    class Sub:
        def __init__(self, c):
            self.c = c

        def get_terms(self, n):
            return self.c.truth(n)

        def get_objects(self, n):
            res = {}
            for w in self.c.lang.words(n):
                res.setdefault(self.c.value(w), []).append(w)
            return res

        def count_objects_of_size(self, n, **params):
            return self.c.truth(n)[tuple(params[k] for k in self.c.extra_parameters)]

        def random_sample_object_of_size(self, n, **params):
            raise NotImplementedError

    path.set_subrecs(Sub)
    try:
        path.constructor
    except NotImplementedError:
        return
    for n in range(sim.int(0, 4) + 1):
        sim.check(specs.clean(path.get_terms(n)) == path.comb_class.truth(n), "path-count",
                  lambda: f"{[(r.comb_class, r.children, r.strategy) for r in path.rules]} {n}:"
                  f" {path.get_terms(n)} instead of {path.comb_class.truth(n)}")
        compare(sim, path.comb_class, n, path.get_objects(n),
                lambda: f"{[(r.comb_class, r.children, r.strategy) for r in path.rules]}")
    assert child is not None


def compare(sim, start, n, objects, what):
    want = {}
    for w in sorted(start.lang.words(n)):
        want.setdefault(start.value(w), []).append(w)
    got = {k: sorted(v) for k, v in objects.items() if v}
    sim.check(got == want, "objects-wrong",
              lambda: f"{start}: objects of size {n} are {got} instead of {want}\n{what()}")


def history(sim, spec, start):
    top = sim.weighted([(4, 3), (5, 3), (6, 2), (8, 1)])
    while top > 0 and sum(start.truth(top).values()) > 400:
        top -= 1
    made = 0
    open_gens = []
    what = lambda: specs.describe(spec)  # noqa: E731
    try:
        for n in sim.shuffled(range(top + 1)):
            if sim.chance(1, 12):
                specs.sanity(sim, spec)
            if sim.chance(1, 5):
                sim.arm_interrupt(20)
                try:
                    spec.get_objects(n)
                except InjectedFault:
                    sim.probe("interrupted")
                finally:
                    sim.interrupt_at = None
            ways = sim.sample(["all", "params", "gens", "one"], sim.int(1, 3))
            if "all" in ways:
                compare(sim, start, n, spec.get_objects(n), what)
            true = start.truth(n)
            if "params" in ways:
                names = start.extra_parameters
                vals = sim.sample(sorted(true), 6)
                if sim.chance(1, 2):
                    vals.append(tuple(sim.draw(n + 2) for _ in names))
                for v in vals:
                    p = specs.kwargs(sim, names, v)
                    got = list(spec.generate_objects_of_size(n, **p))
                    want = sorted(w for w in start.lang.words(n) if start.value(w) == v)
                    sim.check(sorted(got) == want, "objects-wrong",
                              lambda: f"{start}: size {n} {p}: {got} not {want}\n{what()}")
                    cnt = spec.count_objects_of_size(n, **p)
                    sim.check(cnt == len(got), "objects-not-counted",
                              lambda: f"{start}: size {n} {p}: {len(got)} objects, count {cnt}")
                    sim.probe("by_params" if want else "zero_param")
                    made += len(got)
            if "gens" in ways and true:
                v = sim.pick(sorted(true))
                p = specs.kwargs(sim, start.extra_parameters, v)
                open_gens.append((n, v, [], spec.generate_objects_of_size(n, **p)))
            if "one" in ways and true:
                # a generator left unfinished
                v = sim.pick(sorted(true))
                g = spec.generate_objects_of_size(n, **specs.kwargs(sim, start.extra_parameters, v))
                w = next(g)
                sim.check(start.contains(w) and len(w) == n and start.value(w) == v,
                          "objects-wrong", lambda: f"{start}: {w!r} for size {n}, {v}\n{what()}")
                sim.probe("abandoned")
            turns(sim, open_gens, sim.draw(8))
        turns(sim, open_gens, 100000)
        for n, v, got, _ in open_gens:
            want = sorted(w for w in start.lang.words(n) if start.value(w) == v)
            sim.check(sorted(got) == want, "objects-wrong",
                      lambda: f"{start}: size {n} {v} in turns: {got} not {want}\n{what()}")
            made += len(got)
            sim.probe("in_turns")
        for n in sim.sample(range(top + 1), 2):
            compare(sim, start, n, spec.get_objects(n), what)
            made += sum(start.truth(n).values())
    except NotImplementedError:
        inner = any(isinstance(r.strategy, words.PackV) and not r.strategy.direct for r in spec)
        sim.check(inner or specs.unsupported(spec), "objects-not-implemented", what)
        sim.probe("unsupported")
        return
    sim.probe("generated")
    sim.state(sorted((type(r).__name__, type(r.strategy).__name__, len(r.children))
                     for r in spec))
    if made >= 20 and spec.number_of_rules() >= 4:
        sim.nontrivial = True


def turns(sim, gens, k):
    live = [g for g in gens]
    while k > 0 and live:
        n, v, got, g = sim.pick(live) if k < 1000 else live[0]
        try:
            got.append(next(g))
        except StopIteration:
            live = [x for x in live if x[3] is not g]
        k -= 1
