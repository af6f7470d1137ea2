"""C04: the rule universe built by the searcher is faithful to the strategies."""

from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy
from comb_spec_searcher.strategies.strategy import EmptyStrategy

from ..core import InjectedFault
from ..intgen import gen_universe
from ..ints import Known, Node, Step, StepFactory
from ..spy import restart, spy_on

RUNS = {"quick": 18000, "thorough": 250000}
RULE = (
    "One run = a real search of a generated integer universe (factories with ready, lazy,"
    " foreign-parent and non-applying rules, one-way and self-loop strategies, empty and"
    " possibly-empty classes, symmetries, inferral, plain or compressed class database) over"
    " one of the three rule databases, in which user callbacks are interrupted, the time"
    " limit strikes, the clock jumps and the searcher is pickled and restored between calls."
    " Every rule handed to the database is compared with the table row the strategy was made"
    " from; labels are compared with an independent class map; the stored rules with the"
    " rules handed over. Non-trivial: at least four distinct rules were recorded and a fault"
    " fired."
)
STATES = "distinct sets of recorded (parent class, strategy) pairs"
REAL = ["CombinatorialSpecificationSearcher", "DefaultQueue", "ClassDB", "RuleDB",
        "RuleDBForgetStrategy", "RuleDBForest", "TableMethod", "Rule", "VerificationRule",
        "EmptyStrategy"]
STUB = ["integer classes and table strategies", "clock", "random"]
ASSUME = ["universes of at most 9 classes and about 12 strategies",
          "strategies are deterministic and declare possibly_empty truthfully"]
MUST_HIT = ["forest", "forget", "ruledb", "compressed", "plain", "restart", "foreign_rule", "empty_rule",
            "symmetry_rule", "verification_rule", "dropped_empty_child", "exhausted",
            "interrupted_search", "lazy_not_applying", "self_loop_offered"]


class Watch:
    def __init__(self, sim, u):
        self.sim = sim
        self.u = u
        self.css = None
        self.strats = {}
        for s in u.steps:
            self.strats[s.name] = s
        for s in u.knowns:
            self.strats[s.name] = s
        self.label_of = {}
        self.class_of = {}
        self.expect = set()  # keys a base database must hold
        self.forest = set()  # (parent, children, shifts) a forest may hold
        self.recorded = set()
        self.syms = {s.name for s in u.pack.symmetries}

    def label(self, node, label):
        sim = self.sim
        key = (node.i, node.empty)
        sim.check(self.label_of.setdefault(key, label) == label, "label-of-equal-class-changed",
                  lambda: f"{node} was {self.label_of[key]}, now {label}")
        sim.check(self.class_of.setdefault(label, key) == key, "label-shared",
                  lambda: f"label {label} is {self.class_of[label]} and {key}")

    def on_add(self, start, ends, rule):
        sim = self.sim
        strat = rule.strategy
        parent = rule.comb_class
        self.label(parent, start)
        kids = tuple(rule.children)
        sim.log("add", start, tuple(ends), repr(strat))
        sim.check(len(ends) == len(kids), "labels-not-children",
                  lambda: f"{start} -> {ends} for the rule {parent} -> {kids}")
        for c, l in zip(kids, ends):
            self.label(c, l)
        if self.css is not None:
            for c, l in ((parent, start), *zip(kids, ends)):
                got = self.css.classdb.get_class(l)
                sim.check(got == c, "label-not-of-class", lambda: f"label {l} holds {got}, rule has {c}")
        if isinstance(strat, EmptyStrategy):
            sim.probe("empty_rule")
            sim.check(parent.empty and not kids, "empty-rule-for-non-empty-class",
                      lambda: f"{parent} -> {kids}")
            self.forest.add((start, (), ()))
            return
        real = self.strats.get(getattr(strat, "name", None))
        sim.check(real is not None, "foreign-strategy", lambda: f"{strat!r} is not of the pack")
        if isinstance(real, Known):
            sim.probe("verification_rule")
            sim.check(parent.i in real.ids, "strategy-does-not-apply",
                      lambda: f"{strat!r} recorded for {parent}")
            want, shifts = (), ()
        else:
            sim.check(parent.i in real.rows, "strategy-does-not-apply",
                      lambda: f"{strat!r} recorded for {parent}")
            want, shifts = real.rows[parent.i]
        sim.check(kids == want, "children-differ",
                  lambda: f"{strat!r} of {parent}: rule children {kids}, strategy gives {want}")
        sim.check(not (len(want) == 1 and want[0] == parent), "self-equivalence-recorded",
                  lambda: f"{strat!r} of {parent}")
        if getattr(strat, "name", None) in self.syms:
            sim.probe("symmetry_rule")
        if "." in getattr(strat, "name", "") :
            sim.probe("factory_rule")
        self.recorded.add((parent.i, strat.name))
        poss = bool(real.possibly_empty)
        left = tuple(sorted(l for c, l in zip(want, ends) if not (poss and c.empty)))
        if len(left) < len(want):
            sim.probe("dropped_empty_child")
        if left != (start,):
            self.expect.add((start, left))
        self.forest.add((start, tuple(ends), tuple(shifts)))
        if isinstance(real, Step) and real.reversible:
            for i in range(len(ends)):
                p = -shifts[i]
                self.forest.add((
                    ends[i],
                    (start, *ends[:i], *ends[i + 1:]),
                    (p, *(s + p for j, s in enumerate(shifts) if j != i)),
                ))

    def stored(self, css, interrupted):
        """What the database kept is what it was handed."""
        sim = self.sim
        db = css.ruledb
        if isinstance(db, RuleDBForest):
            return
        keys = set()
        for s, e in db:
            k = (s, tuple(e))
            keys.add(k)
            sim.check(k in self.expect or (len(e) == 1 and (e[0], (s,)) in self.expect)
                      or k[1] == (s,),
                      "stored-rule-never-recorded", lambda: f"{k} stored, recorded {sorted(self.expect)}")
        for k in self.expect:
            ok = k in keys or (len(k[1]) == 1 and (k[1][0], (k[0],)) in keys)
            # a rule whose insertion was interrupted may be missing
            sim.check(ok or interrupted, "recorded-rule-not-stored",
                      lambda: f"{k} not in {sorted(keys)}")

    def labels(self, css):
        """Dense, bijective, agreeing with what was seen and with the classes' emptiness."""
        sim = self.sim
        db = css.classdb
        seen = {}
        l = 0
        while l in db:
            c = db.get_class(l)
            k = (c.i, c.empty)
            sim.check(k not in seen, "class-has-two-labels", lambda: f"{c}: {seen[k]} and {l}")
            sim.check((c.i in self.u.empties) == c.empty and 0 <= c.i < self.u.n,
                      "class-from-nowhere", lambda: f"{c}")
            seen[k] = l
            sim.check(db.get_label(Node(c.i, c.empty)) == l, "label-unstable",
                      lambda: f"{c} is {l} and {db.get_label(c)}")
            self.label(c, l)
            l += 1
        for k, lab in self.label_of.items():
            sim.check(seen.get(k) == lab, "label-lost", lambda: f"{k} had {lab}, now {seen.get(k)}")


def body(sim):
    sim.salt = sim.draw(1 << 16)
    u = gen_universe(sim, max_nodes=9)
    for st in u.steps:
        for i, (cs, ss) in st.rows.items():
            if len(cs) == 1 and cs[0].i == i:
                sim.probe("self_loop_offered")
    if sim.chance(1, 4) and u.steps:
        # a unary strategy that sometimes gives its argument back
        st = sim.pick(u.steps)
        i = sim.draw(u.n)
        st.rows[i] = ((u.nodes[i],), (0,))
    for st in u.pack:
        if isinstance(st, StepFactory):
            for i, items in st.plan.items():
                for it in items:
                    if it[0] == "f":
                        sim.probe("foreign_rule")
                    if it[0] == "l" and i not in st.strats[it[1]].rows:
                        sim.probe("lazy_not_applying")
    w = Watch(sim, u)
    kind = sim.draw(3)
    db = [RuleDB, RuleDBForgetStrategy, RuleDBForest][kind]
    sim.probe(["ruledb", "forget", "forest"][kind])
    db = db(reverse=sim.chance(1, 2)) if kind == 2 else db()
    spy_on(db, w.on_add)
    sim.probe("plain" if sim.plain else "compressed")
    css = CombinatorialSpecificationSearcher(u.start, u.pack, ruledb=db,
                                             expand_verified=sim.chance(1, 2),
                                             debug=False)
    w.css = css
    sim.draw_clock()
    interrupted = False
    for _ in range(sim.int(1, 8)):
        if sim.chance(1, 5):
            sim.arm_interrupt(12)
        mode = sim.draw(4)
        try:
            if mode == 0:
                css.do_level()
            elif mode == 1:
                css.auto_search(max_expansion_time=sim.pick([0.0, 0.005, 0.5, 10.0]))
            elif mode == 2:
                css.auto_search(max_expansion_time=sim.pick([0.0, 0.5]), perc=sim.pick([1, 50, 100]))
            else:
                css = restart(sim, css, w.on_add)
                w.css = css
        except NoMoreClassesToExpandError:
            sim.probe("exhausted")
        except InjectedFault:
            sim.probe("interrupted_search")
            interrupted = True
        except SpecificationNotFound:
            sim.log("no specification")
        except ExceededMaxtimeError:
            sim.fault("time_limit")
            sim.log("time limit")
        except NotImplementedError:
            # the specification cannot be counted with: integer universes have no terms
            sim.probe("found")
        sim.interrupt_at = None
        w.labels(css)
        w.stored(css, interrupted)
    sim.state(sorted(w.recorded))
    if len(w.recorded) >= 4 and (interrupted or sum(sim.faults.values())):
        sim.nontrivial = True

