"""C14: default and memory-saving rule databases are observationally identical."""

from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForgetStrategy

from ..core import InjectedFault
from ..intgen import derivations, gen_universe
from ..spy import restart, spy_on

RUNS = {"quick": 12000, "thorough": 150000}
RULE = (
    "One run = the same scheduler-ordered sequence of rules (all derivations of a generated"
    " universe, or the insertions of a real search as they happen) fed to a default and to a"
    " memory-saving database, either of which may be pickled and restored or interrupted in a"
    " callback on its own; after insertions the verified labels, the existence of a"
    " specification, the iterated rules and membership of present, absent, permuted and"
    " reversed pairs are compared, and the strategy handed back for stored rules of non-empty"
    " classes is re-applied. Non-trivial: at least six rules stored and a strategy"
    " recomputed."
)
STATES = "distinct sets of stored rules"
REAL = ["RuleDB", "RuleDBForgetStrategy", "RecomputingDict", "EquivalenceDB", "ClassDB",
        "CombinatorialSpecificationSearcher"]
STUB = ["integer classes and table strategies", "clock", "random"]
ASSUME = ["universes of at most 9 classes"]
MUST_HIT = ["compared", "contains_present", "contains_absent", "contains_reversed",
            "strategy_reapplied", "eqv_reapplied", "restart_one_side", "specified", "real_search",
            "inserted_by_hand", "foreign_rule_recomputed", "factory_recomputed",
            "interrupted_lookup"]


def twin(u):
    return CombinatorialSpecificationSearcher(u.start, u.pack, ruledb=RuleDBForgetStrategy())


def stored(db):
    return sorted({(s, tuple(e)) for s, e in db})


def compare(sim, a, b, where):
    da, db = a.ruledb, b.ruledb
    nlab = 0
    while nlab in a.classdb:
        nlab += 1

    def ver(what):
        va = [bool(da.is_verified(l)) for l in range(nlab)]
        vb = [bool(db.is_verified(l)) for l in range(nlab)]
        sim.check(va == vb, "verified-differ", lambda: f"{where} {what}: {va} / {vb}")

    ver("before detection")
    ha, hb = bool(da.has_specification()), bool(db.has_specification())
    sim.check(ha == hb, "specification-differ", lambda: f"{where}: {ha} / {hb}")
    if ha:
        sim.probe("specified")
    ver("after detection")
    ka, kb = stored(da), stored(db)
    sim.check(ka == kb, "rules-differ", lambda: f"{where}: {ka} / {kb}")
    sim.probe("compared")
    sim.state(ka)
    have = set(ka)
    qs = []
    for s, e in sim.sample(ka, min(len(ka), 4)):
        qs.append((s, e))
        qs.append((s, tuple(sim.shuffled(e))))
        if len(e) == 1:
            qs.append((e[0], (s,)))
        qs.append((s, e + (s,)))
        if e:
            qs.append((s, e[1:]))
    for _ in range(3):
        qs.append((sim.draw(nlab), tuple(sim.draw(nlab) for _ in range(sim.draw(3)))))
    for s, e in qs:
        ca, cb = bool(da.contains(s, e)), bool(db.contains(s, e))
        want = (s, tuple(sorted(e))) in have
        sim.check(ca == cb == want, "membership-differ",
                  lambda: f"{where}: contains({s}, {e}) {ca} / {cb}, stored {want}: {ka}")
        sim.probe("contains_present" if want else "contains_absent")
        if len(e) == 1 and (e[0], (s,)) in have and not want:
            sim.probe("contains_reversed")


def reapply(sim, css, which, u, most):
    """Strategies handed back reproduce the stored rules."""
    db = css.ruledb
    done = 0
    for name in ("rule_to_strategy", "eqv_rule_to_strategy"):
        store = getattr(db, name)
        keys = sorted((s, tuple(e)) for s, e in store)
        for key in sim.sample(keys, min(len(keys), most)):
            parent = css.classdb.get_class(key[0])
            if parent.empty:
                continue
            if which == "forget" and sim.chance(1, 12):
                sim.arm_interrupt(6)
                try:
                    store[key]
                except InjectedFault:
                    sim.probe("interrupted_lookup")
                sim.interrupt_at = None
            sim.check(key in store, "key-lost", lambda: f"{key} of {which} {name}")
            strat = store[key]
            rule = strat(parent)
            kids = tuple(sorted(
                css.classdb.get_label(c) for c in rule.children
                if not (rule.possibly_empty and c.empty)
            ))
            sim.check(kids == key[1], "strategy-does-not-reproduce",
                      lambda: f"{which} {name}[{key}] = {strat} gives {kids}")
            if name.startswith("eqv"):
                sim.probe("eqv_reapplied")
                sim.check(rule.is_two_way(), "equivalence-not-two-way",
                          lambda: f"{which} {name}[{key}] = {strat}")
            sim.probe("strategy_reapplied")
            if "." in strat.name and which == "forget":
                sim.probe("factory_recomputed")
                top = next(t for t in u.factories if t.name == strat.name.split(".")[0])
                if not any(it[0] in "srl" and top.strats[it[1]].name == strat.name
                           for it in top.plan.get(parent.i, ())):
                    sim.probe("foreign_rule_recomputed")
            done += 1
    return done


def absent_lookup(sim, css):
    for name in ("rule_to_strategy", "eqv_rule_to_strategy"):
        store = getattr(css.ruledb, name)
        keys = {(s, tuple(e)) for s, e in store}
        key = (0, (0, 0, 0, 0))
        if key in keys:
            continue
        try:
            store[key]
        except KeyError:
            continue
        sim.fail("absent-key-answered", f"{name}[{key}]")


def body(sim):
    sim.salt = sim.draw(1 << 16)
    u = gen_universe(sim, max_nodes=9)
    u.factories = [s for s in u.pack if hasattr(s, "plan")]
    sim.draw_clock()
    feed = []

    def mirror(start, ends, rule):
        feed.append((start, tuple(ends), rule))

    a = None
    recomputed = 0
    if sim.chance(1, 2):
        sim.probe("inserted_by_hand")
        a = CombinatorialSpecificationSearcher(u.start, u.pack, ruledb=RuleDB())
        b = twin(u)
        for nd in sim.shuffled(u.nodes):
            a.classdb.get_label(nd)
            b.classdb.get_label(nd)
        rules = []
        for st, nd in derivations(u):
            r = st(nd)
            if len(r.children) == 1 and r.children[0] == nd:
                continue
            rules.append((st, nd))
        for j, (st, nd) in enumerate(sim.shuffled(rules)):
            for css in (a, b):
                r = st(nd)
                lab = css.classdb.get_label
                css.ruledb.add(lab(nd), tuple(map(lab, r.children)), r)
            sim.log("add", nd.i, st.name)
            a, b = chaos(sim, a, b)
            if sim.chance(1, 3):
                compare(sim, a, b, f"after {j + 1} insertions")
                recomputed += reapply(sim, b, "forget", u, 2)
    else:
        sim.probe("real_search")
        db = RuleDB()
        spy_on(db, mirror)
        a = CombinatorialSpecificationSearcher(u.start, u.pack, ruledb=db,
                                               expand_verified=sim.chance(1, 2))
        b = twin(u)
        feed.clear()  # the searcher of the twin did the same when it was made

        def pour(b):
            l = 0
            while l in a.classdb:
                b.classdb.get_label(a.classdb.get_class(l))
                l += 1
            for start, ends, rule in feed:
                b.ruledb.add(start, ends, rule)
                sim.log("add", start, ends)
            feed.clear()
            return b

        for _ in range(sim.int(1, 5)):
            mode = sim.draw(3)
            end = False
            try:
                if mode == 0:
                    a.do_level()
                else:
                    a.auto_search(max_expansion_time=sim.pick([0.0, 0.01, 5.0]))
            except NoMoreClassesToExpandError:
                end = True
            except SpecificationNotFound:
                end = True
            except ExceededMaxtimeError:
                sim.fault("time_limit")
            pour(b)
            # the search has asked its own database before
            a.ruledb.has_specification(), b.ruledb.has_specification()
            compare(sim, a, b, "in a search")
            recomputed += reapply(sim, b, "forget", u, 3)
            if sim.chance(1, 4):
                b = restart(sim, b)
                sim.probe("restart_one_side")
            if end:
                break
        pour(b)
        a.ruledb.has_specification(), b.ruledb.has_specification()
    compare(sim, a, b, "at the end")
    absent_lookup(sim, a)
    absent_lookup(sim, b)
    recomputed += reapply(sim, b, "forget", u, 99)
    reapply(sim, a, "default", u, 99)
    compare(sim, a, b, "after the lookups")
    if sim.chance(1, 3):
        for css in (a, b):
            try:
                css.get_specification()
            except SpecificationNotFound:
                pass
        compare(sim, a, b, "after extraction")
    if len(stored(a.ruledb)) >= 6 and recomputed:
        sim.nontrivial = True


def chaos(sim, a, b):
    if sim.chance(1, 12):
        sim.probe("restart_one_side")
        if sim.chance(1, 2):
            a = restart(sim, a)
        else:
            b = restart(sim, b)
    return a, b
