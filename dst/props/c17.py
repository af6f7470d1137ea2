"""C17: a search pickled or interrupted at any point resumes faithfully."""

import pickle
import random as _random

from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy

from ..core import InjectedFault
from ..intgen import gen_universe
from ..seams import TapeRandom
from ..spy import spy_on, unspy

RUNS = {"quick": 10000, "thorough": 150000}
RULE = (
    "One run = a search of a generated universe driven call by call (levels, auto_search"
    " with time limits that strike after any packet, interrupted callbacks, extraction) with"
    " a snapshot pickled between calls and also in the state an interrupt left behind. Each"
    " snapshot must equal the searcher; afterwards the process 'crashes' and every chosen"
    " snapshot is restored under a new hash order and given the same further calls, clock and"
    " random answers: recorded rules, strategy calls, outcomes and the final universe"
    " (labels, classes, emptiness, rules, verified labels, equivalences, answers) are"
    " compared step by step. Separately, a search cut by time limits and restarts is driven"
    " to exhaustion and compared with one that was never interrupted. Non-trivial: a"
    " snapshot taken before the last three rules were found was continued."
)
STATES = "distinct universe states at snapshots"
REAL = ["CombinatorialSpecificationSearcher (pickling, time limits)", "DefaultQueue", "ClassDB",
        "RuleDB", "RuleDBForgetStrategy", "RuleDBForest", "EquivalenceDB", "TableMethod"]
STUB = ["integer classes and table strategies", "clock", "random", "process restart (a fresh"
        " unpickled searcher under another hash order in the same process)"]
ASSUME = ["universes of at most 9 classes", "strategies and packs are deterministic",
          "random choices among proof trees are not part of the work"]
MUST_HIT = ["snapshot", "restored_equal", "continued", "torn_snapshot", "forest", "forget",
            "ruledb", "after_interrupt", "time_limit", "exhaustion_compared",
            "found_in_continuation"]


def observe(sim, css):
    """The universe as a user can see it."""
    db, cdb = css.ruledb, css.classdb
    out = []
    labels = list(range(sum(1 for _ in iter(lambda c=iter(cdb): next(c, None), None))))
    n = len(labels)
    out.append([repr(cdb.get_class(l)) for l in labels])
    out.append([bool(cdb.is_empty(cdb.get_class(l), l)) for l in labels])
    out.append(bool(db.has_specification()))
    out.append([bool(db.is_verified(l)) for l in labels])
    if isinstance(db, RuleDBForest):
        tm = db.table_method
        out.append(sorted((k.parent, k.children, k.shifts, k.bucket.name)
                          for k in tm.pumping_subuniverse()))
        out.append(sorted((l, v) for l, v in tm.function.items()))
    else:
        rules = sorted((s, tuple(e)) for s, e in db)
        out.append(rules)
        if isinstance(db, RuleDB):
            out.append(sorted(
                (s, tuple(e), repr(store[s, e]))
                for store in (db.rule_to_strategy, db.eqv_rule_to_strategy)
                for s, e in store))
        out.append([[bool(db.are_equivalent(a, b)) for b in range(a)] for a in range(n)])
    return out


class Journal:
    """The calls made on a searcher and what came of them."""

    def __init__(self):
        self.ops = []
        self.results = []
        self.snaps = {}


def run_op(sim, css, op, work):
    """One call, in its own reproducible environment."""
    kind, arg, cseed, rseed, intr, tick, stall = op
    sim.set_clock(script_seed=cseed, tick=tick, stall=stall)
    r = _random.Random(rseed)
    sim.rng_hook = TapeRandom(lambda n: int(r.random() * n))
    sim.interrupt_at = sim.callbacks + 1 + intr if intr is not None else None
    sim.work = work
    res = None
    try:
        if kind == "level":
            css.do_level()
            res = "level done"
        elif kind == "auto":
            css.auto_search(max_expansion_time=arg[0], perc=arg[1])
            res = "found"
        elif kind == "get":
            css.get_specification(minimization_time_limit=arg)
            res = "found"
        elif kind == "has":
            res = bool(css.has_specification())
        elif kind == "status":
            css.status(elaborate=False)
            res = "status"
        elif kind == "observe":
            res = observe(sim, css)
    except NoMoreClassesToExpandError:
        res = "exhausted"
    except SpecificationNotFound:
        res = "no specification"
    except ExceededMaxtimeError:
        sim.fault("time_limit")
        sim.probe("time_limit")
        res = "time limit"
    except InjectedFault:
        res = "interrupted"
    finally:
        sim.work = None
        sim.interrupt_at = None
        sim.rng_hook = None
    return res


def draw_op(sim):
    kind = sim.weighted([("auto", 6), ("level", 3), ("get", 1), ("has", 1), ("status", 1),
                         ("observe", 1)])
    arg = None
    if kind == "auto":
        arg = (sim.pick([0.0, 0.0, 0.02, 0.5, 20.0]), sim.pick([100, 1, 50]))
    elif kind == "get":
        arg = sim.pick([0.0, 0.01])
    intr = sim.draw(15) if kind in ("auto", "level") and sim.chance(1, 6) else None
    return (kind, arg, sim.draw(1 << 12), sim.draw(1 << 12), intr,
            sim.pick([0.001, 0.05, 1.0]), sim.pick([0.0, 0.0, 0.1]))


def adder(work):
    def on_add(start, ends, rule):
        work.append(("add", start, tuple(ends), repr(rule.strategy)))

    return on_add


def quiet(sim):
    """From extraction on: the choice of the proof tree is not part of the work."""

    def on_extract():
        sim.work = None
        sim.interrupt_at = None

    return on_extract


def dump(sim, css, work):
    unspy(css.ruledb)
    data = pickle.dumps(css, protocol=sim.pick([pickle.HIGHEST_PROTOCOL, 2, 3, 4]))
    spy_on(css.ruledb, adder(work), quiet(sim))
    return data


def snapshot(sim, css, work):
    """Pickle; the restored searcher equals the original, and nothing moved."""
    data = dump(sim, css, work)
    sim.probe("snapshot")
    if sim.chance(1, 8):
        # a torn write of the snapshot: it must not load as something else
        sim.fault("torn_snapshot")
        sim.probe("torn_snapshot")
        cut = data[: sim.draw(len(data))]
        try:
            pickle.loads(cut)
        except Exception:  # noqa: BLE001
            pass
        else:
            sim.fail("torn-snapshot-loads", f"{len(cut)} of {len(data)} bytes")
    new = pickle.loads(data)
    unspy(css.ruledb)
    same = css == new
    back = new == css
    spy_on(css.ruledb, adder(work), quiet(sim))
    sim.check(same and back, "restored-differs",
              lambda: "the restored searcher does not equal the original: " + diff(css, new))
    sim.probe("restored_equal")
    return data


def diff(a, b):
    bad = []
    for k in a.__dict__:
        if k == "ruledb":
            bad.append(k + "?")
        elif a.__dict__[k] != b.__dict__.get(k):
            bad.append(k)
    return repr(bad)


def make(sim, u, which, expand_verified, reverse):
    db = [RuleDB, RuleDBForgetStrategy, RuleDBForest][which]
    db = db(reverse=reverse) if which == 2 else db()
    return CombinatorialSpecificationSearcher(u.start, u.pack, ruledb=db,
                                              expand_verified=expand_verified)


def continued(sim):
    u = gen_universe(sim, max_nodes=9)
    which = sim.draw(3)
    sim.probe(["ruledb", "forget", "forest"][which])
    work = []
    css = make(sim, u, which, sim.chance(1, 2), sim.chance(1, 2))
    spy_on(css.ruledb, adder(work), quiet(sim))
    ops, results, marks, snaps = [], [], [], {}
    for j in range(sim.int(2, 9)):
        if sim.chance(2, 3):
            snaps[j] = snapshot(sim, css, work)
        op = draw_op(sim)
        marks.append(len(work))
        res = run_op(sim, css, op, work)
        ops.append(op)
        results.append(res)
        sim.log("op", op[0], res if isinstance(res, (str, bool)) else "observed", len(work))
        if res == "interrupted":
            sim.probe("after_interrupt")
    if sim.chance(1, 2):
        snaps[len(ops)] = snapshot(sim, css, work)
    marks.append(len(work))
    final = observe(sim, css)
    sim.state(final)
    salt = sim.salt
    chosen = sim.sample(sorted(snaps), min(len(snaps), 3))
    for j in chosen:
        sim.fault("crash_restart")
        sim.salt = salt if sim.chance(1, 2) else salt + 1 + sim.draw(1000)
        new = pickle.loads(snaps[j])
        work2 = []
        spy_on(new.ruledb, adder(work2), quiet(sim))
        sim.probe("continued")
        for k in range(j, len(ops)):
            at = len(work2)
            res = run_op(sim, new, ops[k], work2)
            sim.check(res == results[k], "continuation-outcome-differs",
                      lambda: f"call {k} {ops[k]}: original {results[k]}, restored at {j} {res}")
            a, b = work[marks[k]:marks[k + 1]], work2[at:]
            sim.check(a == b, "continuation-work-differs",
                      lambda: f"call {k} {ops[k]}: original {a}, restored at {j} {b}")
            if res == "found":
                sim.probe("found_in_continuation")
        fin2 = observe(sim, new)
        sim.check(fin2 == final, "continuation-universe-differs",
                  lambda: f"restored at {j}: {fin2}; original {final}")
        if len([w for w in work[marks[j]:] if w[0] == "add"]) >= 3:
            sim.nontrivial = True
    sim.salt = salt


def exhausted(sim):
    """Cut by time limits and restarts, against never interrupted.  Without verification
    the work does not depend on when the search looks for specifications."""
    # iterative: a class verified by a recursion that later collapses stays verified
    u = gen_universe(sim, max_nodes=9, verify=False, iterative=False)
    which = sim.draw(3)
    reverse = sim.chance(1, 2)
    ref_work, work = [], []
    ref = make(sim, u, which, True, reverse)
    spy_on(ref.ruledb, adder(ref_work), quiet(sim))
    for _ in range(300):
        try:
            ref.do_level()
        except NoMoreClassesToExpandError:
            break
    else:
        return
    if ref.has_specification():
        return  # auto_search would stop to extract
    css = make(sim, u, which, True, reverse)
    spy_on(css.ruledb, adder(work), quiet(sim))
    for _ in range(60):
        sim.draw_clock()
        mode = sim.draw(4)
        try:
            if mode == 3:
                data = dump(sim, css, work)
                css = pickle.loads(data)
                spy_on(css.ruledb, adder(work), quiet(sim))
                sim.fault("crash_restart")
                continue
            css.auto_search(max_expansion_time=sim.pick([0.0, 0.0, 0.1, 30.0]))
            # extracting a specification may label classes the search never met
            sim.log("found early", len(work))
            return
        except ExceededMaxtimeError:
            sim.fault("time_limit")
        except SpecificationNotFound:
            break
    # whatever is left is finished at once
    for _ in range(300):
        try:
            css.do_level()
        except NoMoreClassesToExpandError:
            break
    sim.probe("exhaustion_compared")
    sim.check(work == ref_work, "interrupted-work-differs",
              lambda: f"with time limits {work}, without {ref_work}")
    a, b = observe(sim, css), observe(sim, ref)
    sim.check(a == b, "interrupted-universe-differs", lambda: f"with time limits {a}, without {b}")
    sim.state(a)


def body(sim):
    sim.salt = sim.draw(1 << 16)
    if sim.chance(1, 4):
        exhausted(sim)
    else:
        continued(sim)
