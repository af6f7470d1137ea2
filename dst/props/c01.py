"""C01: a specification handed back by the searcher enumerates the start class."""

import sys

from .. import deep, specs, trees, words
from ..core import InjectedFault
from ..wordgen import gen_any, make_searcher

RUNS = {"quick": 6000, "thorough": 150000}
RULE = (
    "One run = a generated word class (factors avoided, prefix, required letter, Dyck words;"
    " up to three statistics) and a generated pack (disjoint unions, products, equivalences,"
    " symmetries, factories, inferral, gates, statistics dropped, merged, renamed, reordered,"
    " a non-injective rule, verification with and without a pack) searched under one rule"
    " database by a drawn sequence of levels, time-limited searches, restarts from a pickle"
    " and repeated requests, with drawn clock, hash order and random choices. Terms of every"
    " specification handed back are compared with an automaton for sizes in a drawn order,"
    " with interrupts in user callbacks while counting. One run in 150 instead counts with a"
    " directly built chain of 100 to 900 rules. One universe in four is of trees"
    " instead of words: a generated grammar, repeated and empty children, symbols with the"
    " same numbers of objects."
    " Non-trivial: a specification with at"
    " least four rules was counted to size five."
)
STATES = "distinct (database, set of rule forms and strategies) of specifications"
REAL = ["CombinatorialSpecificationSearcher", "RuleDB", "RuleDBForgetStrategy", "RuleDBForest",
        "ClassDB", "DefaultQueue", "tree searcher", "specification extractors",
        "CombinatorialSpecification", "rules and constructors"]
STUB = ["word classes and strategies (user code)", "clock", "random", "process restart (a fresh"
        " unpickled searcher in the same process)"]
ASSUME = ["languages of small automata (alphabet at most 3, at most 3 factors)",
          "at most 1200 strategy applications per search (500 with the forest)", "sizes at most 9 (70 without statistics)",
          "strategies honour their contracts: two-way implies reversible, exact minimum sizes"
          " where reverse rules are used, no unproductive unary rules"]
MUST_HIT = ["counted", "deep", "trees", "db.ruledb", "db.forget", "db.forest", "db.forest-noreverse",
            "second_spec", "smallest", "auto_spec", "level_spec", "restart",
            "form.Rule", "form.ReverseRule", "form.EquivalencePathRule", "form.VerificationRule",
            "form.BlowRule", "form.path-of-EquivalenceRule", "form.path-of-ReverseRule",
            "form.long-path", "interrupted_count", "iterative", "debug", "expand_verified"]


def body(sim):
    words.reset()
    trees.reset()
    sim.salt = sim.draw(1 << 16)
    sim.plain = sim.chance(1, 6)
    if sim.chance(1, 150):
        deep_chain(sim)
        return
    u = gen_any(sim)
    sim.draw_clock()
    css, which = make_searcher(sim, u)
    sim.probe("db." + which)
    if u.pack.iterative:
        sim.probe("iterative")
    if css.debug:
        sim.probe("debug")
    if css.expand_verified:
        sim.probe("expand_verified")
    found = []
    for spec in specs.search(sim, css, want=sim.weighted([(1, 4), (2, 3), (3, 1)])):
        found.append(spec)
        specs.rule_forms(sim, spec)
        sim.state((which, sorted({(type(r).__name__, type(r.strategy).__name__) for r in spec})))
        if sim.chance(2, 3):
            count(sim, spec, u.start)
    for spec in sim.shuffled(found):
        count(sim, spec, u.start)


def deep_chain(sim):
    """Hundreds of rules in a chain: the first request goes through all of them."""
    spec, start, top = deep.spec(sim)
    limit = sys.getrecursionlimit()
    for n in sim.shuffled(range(top + 1)):
        want = start.truth(n)
        if sim.chance(1, 2):
            got = spec.count_objects_of_size(n)
        else:
            got = spec.get_terms(n)[()]
        sim.check(got == want[()], "count-wrong",
                  lambda: f"chain of {spec.number_of_rules()} rules: {got} objects of size {n}"
                  f" instead of {want[()]}")
        deep.kept(sim, limit)


def count(sim, spec, start):
    top = sim.weighted([(5, 3), (6, 3), (7, 2), (9, 1)])
    sizes = sim.shuffled(range(top + 1)) if sim.chance(1, 2) else list(range(top + 1))
    if not start.extra_parameters and sim.chance(1, 4):
        at = sim.draw(len(sizes) + 1)
        # in steps, for the counting recurses from size to size
        sizes[at:at] = sim.weighted([((13,), 3), ((30,), 1), ((30, 50, 70), 1)])
    if sim.chance(1, 4):
        sim.arm_interrupt(12)
        try:
            for n in sizes:
                spec.get_terms(n)
        except InjectedFault:
            sim.probe("interrupted_count")
        finally:
            sim.interrupt_at = None
    if sim.chance(1, 8):
        specs.sanity(sim, spec)
    specs.check_counts(sim, spec, start, sizes)
    if sim.chance(1, 3):
        specs.all_counts(sim, spec, sim.int(0, 6))
    sim.probe("counted")
    if spec.number_of_rules() >= 4:
        sim.nontrivial = True
