"""C11: forest extraction returns a minimal, closed, productive rule set."""

from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.rule_db import RuleDBForest
from comb_spec_searcher.rule_db.forest import ForestRuleExtractor
from comb_spec_searcher.strategies.strategy import EmptyStrategy

from ..core import InjectedFault
from ..intgen import derivations, gen_universe
from ..ints import Known
from ..oracles import lfp_terms
from ..spy import restart, spy_on

RUNS = {"quick": 12000, "thorough": 250000}
RULE = (
    "One run = a forest rule database (reverse on or off, with or without a rule cache)"
    " filled either by scheduler-ordered insertions of the rules of a generated universe or"
    " by a real search over it, with restarts and interrupted callbacks; whenever a"
    " specification is reported (and at the end) the extracted keys are judged against the"
    " independently derived inserted keys by a plain least fixed point: subset, closed, one"
    " rule per class, productive, unproductive when any one rule is removed, reverse rules"
    " only when the other rules do not suffice, every key recovered as a rule of the pack"
    " with the same key. Non-trivial: an extraction with at least three rules was judged."
)
STATES = "distinct extracted key sets"
REAL = ["RuleDBForest", "ForestRuleExtractor", "TableMethod", "Rule", "ReverseRule",
        "EquivalenceRule", "VerificationRule", "CombinatorialSpecificationSearcher", "ClassDB"]
STUB = ["integer classes and table strategies", "clock"]
ASSUME = ["universes of at most 9 classes", "shifts between 0 and 2 (negative for reverses)",
          "foreign-parent factory rules mention the expanded class or are found by scanning"]
MUST_HIT = ["extraction", "reverse_needed", "reverse_avoided", "empty_rule_used", "cache_used",
            "restart", "verification_used", "equiv_used", "real_search", "inserted_by_hand",
            "infinite_choice"]


class Keys:
    """The keys a forest holds, derived from the strategy tables."""

    def __init__(self, sim, u, reverse):
        self.sim = sim
        self.reverse = reverse
        self.strats = {s.name: s for s in [*u.steps, *u.knowns]}
        self.keys = {}  # (parent, children, shifts) -> set of "n"/"r"
        self.empties = set()

    def on_add(self, start, ends, rule):
        strat = rule.strategy
        ends = tuple(ends)
        self.sim.log("add", start, ends, repr(strat))
        if isinstance(strat, EmptyStrategy):
            self.keys.setdefault((start, (), ()), set()).add("v")
            return
        real = self.strats[strat.name]
        if isinstance(real, Known):
            self.keys.setdefault((start, (), ()), set()).add("v")
            return
        kids, shifts = real.rows[rule.comb_class.i]
        shifts = tuple(shifts)
        nonempty = [c for c in kids if not c.empty]
        self.keys.setdefault((start, ends, shifts), set()).add(
            "e" if real.eqv and len(nonempty) == 1 else "n"
        )
        if self.reverse and real.reversible:
            for i in range(len(ends)):
                p = -shifts[i]
                key = (ends[i], (start, *ends[:i], *ends[i + 1:]),
                       (p, *(s + p for j, s in enumerate(shifts) if j != i)))
                others = [rule.comb_class, *kids[:i], *kids[i + 1:]]
                ne = [c for c in others if not c.empty]
                self.keys.setdefault(key, set()).add("e" if real.eqv and len(ne) == 1 else "r")
        for c, l in zip(kids, ends):
            if c.empty and real.possibly_empty:
                self.keys.setdefault((l, (), ()), set()).add("v")

    def triples(self, kinds="vner"):
        return [k for k, v in self.keys.items() if v & set(kinds)]


def triple(k):
    return (k.parent, tuple(k.children), tuple(k.shifts))


def pumping(keys, root):
    f = lfp_terms(keys)
    return f.get(root, 0) is None, f


def judge(sim, css, keys, u):
    db = css.ruledb
    root = css.start_label
    allk = keys.triples()
    want, f = pumping(allk, root)
    got = bool(db.has_specification())
    sim.check(got == want, "detection-differs",
              lambda: f"has_specification {got}, fixed point {want} for {allk} root {root}")
    if not want:
        try:
            db.get_specification_rules()
        except SpecificationNotFound:
            pass
        else:
            sim.fail("rules-from-nothing", "get_specification_rules returned")
        return
    sim.probe("extraction")
    ext = ForestRuleExtractor(root, db, css.classdb, css.strategy_pack)
    ext.check()
    needed = list(ext.needed_rules)
    tr = [triple(k) for k in needed]
    sim.log("extracted", sorted(tr))
    sim.state(sorted(tr))
    where = lambda: f"extracted {sorted(tr)} from {sorted(allk)} root {root}"
    for t in tr:
        sim.check(t in keys.keys, "key-never-inserted", lambda: f"{t}: {where()}")
    parents = [t[0] for t in tr]
    sim.check(len(set(parents)) == len(parents), "two-rules-for-a-class", where)
    for t in tr:
        for c in t[1]:
            sim.check(c in parents, "class-without-rule", lambda: f"{c}: {where()}")
    sim.check(root in parents, "root-without-rule", where)
    ok, vals = pumping(tr, root)
    sim.check(ok and all(v is None for v in vals.values()), "not-productive",
              lambda: f"{vals}: {where()}")
    for i in range(len(tr)):
        less, _ = pumping(tr[:i] + tr[i + 1:], root)
        sim.check(not less, "not-minimal", lambda: f"{tr[i]} is not needed: {where()}")
    plain = keys.triples("vne")
    used_reverse = [k for k in needed if k.bucket.name == "REVERSE"]
    truly_reverse = [t for t in tr if keys.keys[t] == {"r"}]
    without, _ = pumping(plain, root)
    if used_reverse or truly_reverse:
        sim.probe("reverse_needed")
        sim.check(not without, "reverse-used-though-avoidable",
                  lambda: f"{used_reverse or truly_reverse}: {where()}")
    elif any(v == {"r"} for k, v in keys.keys.items() if f.get(k[0]) is None):
        sim.probe("reverse_avoided")
    for t in tr:
        kd = keys.keys[t]
        if "e" in kd:
            sim.probe("equiv_used")
        if "v" in kd:
            sim.probe("verification_used")
    if len({t[0] for t in allk if f.get(t[0]) is None}) < len([t for t in allk if f.get(t[0]) is None]):
        sim.probe("infinite_choice")
    if len(tr) >= 3:
        sim.nontrivial = True
    # every key is turned back into a concrete rule with the same key
    lab = css.classdb.get_label
    emp = css.classdb.is_empty
    cache = tuple(getattr(db, "_rule_cache", ()))
    for rules in (list(ext.rules(())), list(db.get_specification_rules())):
        left = list(tr)
        for rule in rules:
            orig = getattr(rule, "original_rule", None)
            base = rule
            if type(rule).__name__ == "EquivalenceRule":
                base = orig
                ne = [c for c in base.children if not c.empty]
                sim.check(tuple(rule.children) == tuple(ne), "equivalence-rule-child",
                          lambda: f"{rule.children} of {base.children}")
            key = triple(base.forest_key(lab, emp))
            sim.check(key in left, "rule-of-other-key", lambda: f"{key}: {where()}")
            left.remove(key)
            mine = (lab(base.comb_class), tuple(map(lab, base.children)), tuple(base.shifts()))
            sim.check(mine == key, "rule-differs-from-key", lambda: f"{mine} for {key}")
            genuine(sim, base, keys)
        for t in left:
            c = css.classdb.get_class(t[0])
            sim.probe("empty_rule_used")
            sim.check(t[1] == () and c.empty, "key-not-recovered", lambda: f"{t}: {where()}")


def genuine(sim, rule, keys):
    """The rule is what a strategy of the pack produces."""
    strat = rule.strategy
    rev = type(rule).__name__ == "ReverseRule"
    fwd = rule.original_rule if rev else rule
    real = keys.strats.get(strat.name)
    sim.check(real is not None, "rule-not-of-pack", lambda: repr(strat))
    if isinstance(real, Known):
        sim.check(fwd.comb_class.i in real.ids, "rule-not-applicable", lambda: str(fwd))
        return
    row = real.rows.get(fwd.comb_class.i)
    sim.check(row is not None and tuple(fwd.children) == row[0], "rule-not-applicable",
              lambda: f"{fwd.comb_class} -> {fwd.children} by {strat}")
    if rev:
        i = rule.idx
        sim.check(rule.comb_class == row[0][i] and real.reversible, "reverse-rule-wrong",
                  lambda: f"{rule.comb_class} {rule.children}")


def by_hand(sim, u, reverse):
    sim.probe("inserted_by_hand")
    kw = {}
    if sim.chance(1, 4):
        cached = []
        for st in sim.subset(u.steps, 1, 2):
            for i in st.rows:
                r = st(u.nodes[i])
                cached.append(r)
                if reverse and r.is_reversible() and sim.chance(1, 2):
                    cached.append(r.to_reverse_rule(sim.draw(len(r.children))))
        if cached:
            sim.probe("cache_used")
            kw["rule_cache"] = cached
    db = RuleDBForest(reverse=reverse, **kw)
    keys = Keys(sim, u, reverse)
    spy_on(db, keys.on_add)
    css = CombinatorialSpecificationSearcher(u.start, u.pack, ruledb=db)
    rules = []
    for st, nd in derivations(u):
        r = st(nd)
        if len(r.children) == 1 and r.children[0] == nd:
            continue
        rules.append(r)
    for nd in sim.shuffled(u.nodes):
        css.classdb.get_label(nd)
    lab = css.classdb.get_label
    rules = sim.shuffled(rules)
    was = False
    for j, r in enumerate(rules):
        sim.arm_interrupt(40) if sim.chance(1, 20) else None
        try:
            css.ruledb.add(lab(r.comb_class), tuple(map(lab, r.children)), r)
            sim.interrupt_at = None
        except InjectedFault:
            # the insertion is repeated after the interrupt
            css.ruledb.add(lab(r.comb_class), tuple(map(lab, r.children)), r)
        if sim.chance(1, 15):
            css = restart(sim, css, keys.on_add)
        now = bool(css.ruledb.has_specification())
        if now != was or sim.chance(1, 6) or j == len(rules) - 1:
            judge(sim, css, keys, u)
        was = now
    judge(sim, css, keys, u)


def searched(sim, u, reverse):
    sim.probe("real_search")
    db = RuleDBForest(reverse=reverse)
    keys = Keys(sim, u, reverse)
    spy_on(db, keys.on_add)
    css = CombinatorialSpecificationSearcher(u.start, u.pack, ruledb=db,
                                             expand_verified=sim.chance(1, 2))
    sim.draw_clock()
    for _ in range(sim.int(1, 5)):
        mode = sim.draw(3)
        try:
            if mode == 0:
                css.do_level()
            elif mode == 1:
                css.auto_search(max_expansion_time=sim.pick([0.0, 0.01, 5.0]))
            else:
                css = restart(sim, css, keys.on_add)
        except NoMoreClassesToExpandError:
            judge(sim, css, keys, u)
            break
        except SpecificationNotFound:
            sim.log("no specification")
        except ExceededMaxtimeError:
            sim.fault("time_limit")
        judge(sim, css, keys, u)


def body(sim):
    sim.salt = sim.draw(1 << 16)
    u = gen_universe(sim, max_nodes=9, max_strats=6)
    reverse = not sim.chance(1, 5)
    if sim.chance(1, 3):
        searched(sim, u, reverse)
    else:
        by_hand(sim, u, reverse)
