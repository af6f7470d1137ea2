"""C02: specifications are closed, one rule per class, genuine and productive."""

from .. import specs, trees, words
from ..wordgen import gen_any, make_searcher

RUNS = {"quick": 7000, "thorough": 150000}
RULE = (
    "One run = a search of a generated word universe as in C01 (all databases, options, drawn"
    " schedule of levels, time limits, restarts and repeated requests, drawn clock, hash order"
    " and random choices of proof trees). Of every specification handed back: the rules are"
    " read off, every non-empty class on a right-hand side and the start class has exactly one"
    " rule, every rule reached; each rule is re-derived from the strategies of the pack"
    " (through equivalence, path and reverse forms; emptiness and equivalence judged by the"
    " automata), and productivity is decided by a least fixed point over (parent, children,"
    " shifts), with shifts computed from true minimum sizes and as stated by the rules."
    " One universe in four is of trees"
    " instead of words: a generated grammar, repeated and empty children, symbols with the"
    " same numbers of objects."
    " Non-trivial: a specification with at least four rules."
)
STATES = "distinct rule-shape multisets of specifications"
REAL = ["CombinatorialSpecificationSearcher", "RuleDB", "RuleDBForgetStrategy", "RuleDBForest",
        "ClassDB", "DefaultQueue", "tree searcher", "specification extractors",
        "CombinatorialSpecification", "rules"]
STUB = ["word classes and strategies (user code)", "clock", "random", "process restart (a fresh"
        " unpickled searcher in the same process)"]
ASSUME = ["languages of small automata (alphabet at most 3, at most 3 factors)",
          "at most 1200 strategy applications per search (500 with the forest)",
          "strategies honour their contracts: two-way implies reversible, exact minimum sizes"
          " where reverse rules are used, no unproductive unary rules"]
MUST_HIT = ["trees", "db.ruledb", "db.forget", "db.forest", "db.forest-noreverse", "second_spec",
            "smallest", "auto_spec", "level_spec", "restart", "form.Rule", "form.ReverseRule",
            "form.EquivalencePathRule", "form.VerificationRule", "form.BlowRule",
            "form.path-of-EquivalenceRule", "form.path-of-ReverseRule", "form.long-path",
            "iterative", "productive_checked", "empty_child", "lazy_empty"]


def body(sim):
    words.reset()
    trees.reset()
    sim.salt = sim.draw(1 << 16)
    sim.plain = sim.chance(1, 6)
    u = gen_any(sim)
    sim.draw_clock()
    css, which = make_searcher(sim, u, debug=False)
    sim.probe("db." + which)
    if u.pack.iterative:
        sim.probe("iterative")
    for spec in specs.search(sim, css, want=sim.weighted([(1, 4), (2, 3), (4, 1)])):
        specs.rule_forms(sim, spec)
        specs.check_structure(sim, spec, u.start, [u.pack])
        sim.state(sorted((type(r).__name__, type(r.strategy).__name__, len(r.children))
                         for r in spec))
        if any(ch.lang.empty for r in spec for ch in r.children):
            sim.probe("empty_child")
        if sim.chance(1, 4):
            # asking for classes the specification does not list adds rules for empty ones
            before = {r.comb_class for r in spec}
            for r in list(spec):
                for ch in r.children:
                    rule = spec.get_rule(ch)
                    sim.check(rule.comb_class == ch, "wrong-rule", lambda: f"{ch}: {rule}")
            if any(r.comb_class.lang.empty for r in spec):
                sim.probe("lazy_empty")
            new = [r for r in spec if r.comb_class not in before]
            sim.check(all(r.comb_class.lang.empty for r in new), "rule-added",
                      lambda: f"{[r.comb_class for r in new]}")
            specs.check_structure(sim, spec, u.start, [u.pack])
        if spec.number_of_rules() >= 4:
            sim.nontrivial = True
