"""C19: expanding the verified classes keeps the enumeration and finishes the job."""

import json
from collections import Counter

from comb_spec_searcher import AtomStrategy, CombinatorialSpecification, StrategyPack
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    InvalidOperationError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    ReverseRule,
    VerificationRule,
)

from .. import specs, words
from ..core import Discard, InjectedFault
from ..wordgen import Universe, complete, draw_gate, gen_class, gen_universe, make_searcher, \
    plain_pack
from .c18 import fingerprint, use

RUNS = {"quick": 6000, "thorough": 150000}
RULE = (
    "One run = a generated word class and pack in which one to three verification strategies"
    " supply packs (complete ones, ones with closed gates that may need reverse rules or may"
    " not suffice, ones that verify again with a further pack), searched under one database."
    " The specification found (or read back from JSON, or itself expanded, or used) is expanded"
    " whole or one class at a time (by class or by label, with and without reverse rules, with a"
    " time limit), sometimes cut short by an interrupt in a user callback and repeated. The"
    " result: same start class, counts and objects against an automaton, structure and"
    " productivity as in C02 against the packs involved, no class left whose verification"
    " offers a pack, no rule object of the original in it (inner rules included); the original"
    " keeps its rules, and counts and expands as before. A complete pack must succeed."
    " Non-trivial: at least one class was expanded and the result has at least four rules."
)
STATES = "distinct (kinds of packs, database, rule forms of the result)"
REAL = ["CombinatorialSpecification.expand_verified / expand_comb_class",
        "CombinatorialSpecificationSearcher, RuleDBForest with a rule cache, forest extractor",
        "rules and constructors"]
STUB = ["word classes and strategies (user code)", "clock", "random"]
ASSUME = ["the packs verification strategies offer terminate and their chains are finite",
          "languages of small automata", "exact minimum sizes"]
MUST_HIT = ["expanded", "several", "root", "in_path", "reverse_used", "nested", "class_by_label",
            "class_by_class", "interrupted", "reloaded", "twice", "objects", "used_before",
            "db.ruledb", "db.forget", "db.forest", "db.forest-noreverse", "failed", "time_limit",
            "original_counted", "verify", "reverse_in_original", "after_interrupt", "not_direct",
            "backward"]


def body(sim):
    words.reset()
    sim.salt = sim.draw(1 << 16)
    sim.plain = sim.chance(1, 6)
    sim.allow_lazy = False
    u, kinds, packs = universe(sim)
    sim.draw_clock()
    css, which = make_searcher(sim, u, debug=False)
    sim.probe("db." + which)
    spec = None
    for spec in specs.search(sim, css, want=sim.int(1, 2), restarts=sim.chance(1, 4)):
        if any(pack_of(r) for r in spec):
            break
    if spec is None or not any(pack_of(r) for r in spec):
        raise Discard("nothing to expand")
    if sum(map(offers, spec)) > 6:
        raise Discard("too many")
    if sim.chance(1, 5):
        spec = CombinatorialSpecification.from_dict(json.loads(json.dumps(spec.to_jsonable())))
        sim.probe("reloaded")
    sim.max_applied = getattr(sim, "applied", 0) + 1000
    if sim.chance(1, 3):
        use(sim, spec, u.start)
    look(sim, spec, u.start)
    complete_ = all(k in ("plain", "verify", "backward") for k in kinds)
    packs += [rule.pack() for rule in spec if offers(rule)]
    results = []
    for _ in range(sim.weighted([(1, 3), (2, 1)])):
        orig = spec if not results or sim.chance(2, 3) else results[-1]
        snap = snapshot(orig)
        if sim.chance(2, 3):
            new = whole(sim, orig, complete_)
            full = True
        else:
            new, full = one_class(sim, orig, complete_), False
        unchanged(sim, orig, snap)
        if new is None or new is orig:
            if new is None and sim.chance(1, 2):
                new = whole(sim, orig, complete_)
                full = True
            if new is None or new is orig:
                continue
        if orig is not spec:
            sim.probe("twice")
        results.append(new)
        judge(sim, new, orig, u.start, packs, full)
        unchanged(sim, orig, snap)
        sim.state((sorted(kinds), which, sorted({(type(r).__name__, type(r.strategy).__name__)
                                                 for r in new})))
        if new.number_of_rules() >= 4:
            sim.nontrivial = True
    # the original remains usable
    for s in sim.shuffled([spec] + results):
        specs.check_counts(sim, s, u.start, sim.sample(range(8), 3))
        if s is spec:
            sim.probe("original_counted")
        if sim.chance(1, 3):
            specs.all_counts(sim, s, sim.draw(6))


# ---------------------------------------------------------------------------
# universes
# ---------------------------------------------------------------------------
def universe(sim):
    c = gen_class(sim)
    u = gen_universe(sim, start=c, packv=False)
    vers, kinds, packs = [], [], [u.pack]
    for _ in range(sim.weighted([(1, 4), (2, 2), (3, 1)])):
        kind = sim.weighted([("plain", 4), ("gated", 3), ("nested", 2), ("verify", 1),
                             ("backward", 2)])
        desc = inner(sim, c, kind)
        mod = sim.weighted([(1, 1), (2, 5), (3, 4), (5, 1)])
        direct = kind in ("gated", "backward") or sim.chance(4, 5)
        if not direct:
            sim.probe("not_direct")
        v = words.PackV(gate=(sim.draw(1 << 16), mod, 1), direct=direct, spec=desc,
                        ignore_parent=sim.chance(1, 2))
        if kind == "backward" and words.only_backward(c) and sim.chance(1, 2):
            v.gate = (sim.draw(1 << 16), 1, 1)
        elif mod > 1 and sim.chance(5, 6):
            # the start class itself is to be decomposed first
            while v.open(c):
                v.gate = (v.gate[0] + 1, mod, 1)
        vers.append(v)
        kinds.append(kind)
        while desc is not None:
            packs.append(words.make_pack(desc))
            desc = next((s["spec"] for s in desc["ver"] if "spec" in s), None)
    if "verify" in kinds:
        sim.probe("verify")
    p = u.pack
    ver = sim.shuffled(list(p.ver_strats) + vers)
    if c.lang.empty:
        raise Discard("empty")
    pack = StrategyPack(initial_strats=p.initial_strats, inferral_strats=p.inferral_strats,
                        expansion_strats=p.expansion_strats, ver_strats=ver,
                        symmetries=p.symmetries, name=p.name, iterative=p.iterative)
    packs.append(pack)
    if kinds == ["nested"] or "nested" in kinds:
        sim.note_nested = True
    return Universe(c, pack), kinds, packs


def inner(sim, c, kind):
    """The description of a pack to enumerate any class met from c."""
    if kind == "plain":
        return plain_pack(sim, c, "plain")
    if kind == "backward":
        # all is known except for the class, which takes part in the rules of others
        strats = [words.WFactory(name, [words.Expand(order=sim.draw(3), pol=0)], mode)
                  for name, mode in (("one", "p"), ("two", "q"))]
        return words.describe("backward", initial=sim.shuffled(strats),
                              ver=[words.AtomV(), words.ElseV(but=None)])
    if kind == "verify":
        # no strategies at all: the pack knows the class by another verification
        ver = [words.BruteV(), words.PackV(gate=(1, 1, 1), direct=sim.chance(1, 2),
                                           spec=plain_pack(sim, c, "innermost"))]
        return words.describe("verify", ver=[words.AtomV(), sim.pick(ver)])
    if kind == "nested":
        d = plain_pack(sim, c, "outer")
        d["ver"].insert(sim.draw(2), words.PackV(
            gate=(sim.draw(1 << 16), sim.int(1, 3), 1), direct=sim.chance(3, 4),
            spec=plain_pack(sim, c, "innermost")).to_jsonable())
        return d
    if sim.chance(1, 2) and c.kind == "F":
        # the rules of other classes lead back here
        g = gate = (sim.draw(1 << 16), sim.int(2, 3), 1)
        strats = complete(sim, c, gates=False, reversible=False)
        for s in strats:
            s._workable = True
            if isinstance(s, words.Expand):
                s.gate = g
        strats = sim.shuffled(strats + [
            words.WFactory("back", [words.Expand(order=0)], sim.pick("ppt")),
            words.SplitLetter(letter=sim.pick(c.al), gate=draw_gate(sim, 1, 4))])
        del gate
        return words.describe("gated", initial=strats, ver=[words.AtomV()])
    v = gen_universe(sim, start=c, packv=False, symmetries=sim.chance(1, 3), iterative=False)
    p = v.pack
    # there may be statistics that the start class does not have
    ver = [words.AtomV() if isinstance(s, AtomStrategy) else s for s in p.ver_strats]
    return words.describe("gated", initial=p.initial_strats, inferral=p.inferral_strats,
                          expansion=p.expansion_strats, ver=ver, sym=p.symmetries)


# ---------------------------------------------------------------------------
# expanding
# ---------------------------------------------------------------------------
def pack_of(rule):
    """The pack the verification of the class offers (judged by the strategy)."""
    if not isinstance(rule, VerificationRule):
        return None
    try:
        return rule.strategy.pack(rule.comb_class)
    except InvalidOperationError:
        return None


def offers(rule):
    return isinstance(rule.strategy, words.PackV)


def look(sim, spec, start):
    todo = [r.comb_class for r in spec if offers(r)]
    if len(todo) > 1:
        sim.probe("several")
    if start in todo:
        sim.probe("root")
    if any(isinstance(r, EquivalencePathRule) and r.children[0] in todo for r in spec):
        sim.probe("in_path")
    if any(isinstance(r, ReverseRule) for r in specs.flat_rules(spec)):
        sim.probe("reverse_in_original")
    if getattr(sim, "note_nested", False):
        sim.probe("nested")
    got = Counter(c.key() for c in spec.unexpanded_verified_classes())
    want = Counter(c.key() for c in todo)
    sim.check(got == want, "verified-classes", lambda: f"{got} instead of {want}\n"
              + specs.describe(spec))


def attempt(sim, spec, what, must):
    """Call `what`, perhaps after it was cut short; None if it did not succeed."""
    snap = snapshot(spec)
    cut = False
    if sim.chance(1, 4):
        sim.arm_interrupt(sim.pick([5, 60, 600]))
        try:
            return what()
        except InjectedFault:
            sim.probe("interrupted")
            cut = True
        except (SpecificationNotFound, NoMoreClassesToExpandError, ExceededMaxtimeError):
            pass
        finally:
            sim.interrupt_at = None
        unchanged(sim, spec, snap)
    try:
        res = what()
    except (SpecificationNotFound, NoMoreClassesToExpandError) as e:
        sim.check(not must, "not-expanded",
                  lambda: f"{type(e).__name__} {e} although the packs are complete\n"
                  f"{specs.describe(spec)}")
        sim.probe("failed")
        return None
    except ExceededMaxtimeError:
        sim.probe("time_limit")
        return None
    if cut:
        sim.probe("after_interrupt")
    return res


def whole(sim, spec, must):
    sim.log("expand_verified", len([r for r in spec if offers(r)]))
    new = attempt(sim, spec, spec.expand_verified, must)
    todo = [r for r in spec if offers(r)]
    if new is None and len(todo) == 1 and not any("spec" in s for s in todo[0].strategy.spec["ver"]):
        # it is left to reverse rules then
        try:
            ref = spec.expand_comb_class(todo[0].comb_class, todo[0].pack(), True, True)
        except (SpecificationNotFound, NoMoreClassesToExpandError, ExceededMaxtimeError):
            return None
        sim.check(False, "gave-up", lambda: "expand_verified does not succeed, but\n"
                  f"{specs.describe(ref)}")
    return new


def one_class(sim, spec, must):
    todo = [r for r in spec if offers(r)]
    if not todo:
        return None
    rule = sim.pick(todo)
    c, pack = rule.comb_class, rule.pack()
    by = c
    if sim.chance(1, 2):
        by = spec.get_label(c)
        sim.probe("class_by_label")
        sim.check(spec.get_comb_class(by) == c, "label", lambda: f"{by} {c}")
    else:
        sim.probe("class_by_class")
    reverse, cont = sim.chance(1, 2), sim.chance(1, 2)
    kw = {}
    if sim.chance(1, 4):
        kw["max_expansion_time"] = sim.pick([0.0, 0.02, 1.0])
    sim.log("expand", repr(c), reverse, cont, kw)
    # other verified classes need not be expanded; the class itself must not stay
    must = must and (reverse or pack.name != "backward")
    new = attempt(sim, spec, lambda: spec.expand_comb_class(by, pack, reverse, cont, **kw), must)
    if new is not None:
        old = fingerprint(rule)
        for r in new:
            sim.check(r.comb_class != c or fingerprint(r) != old, "not-expanded",
                      lambda: f"{c}\n{specs.describe(new)}")
        others = {r.comb_class.key() for r in new if offers(r)}
        before = {r.comb_class.key() for r in spec if offers(r)}
        if not any("spec" in s for s in rule.strategy.spec["ver"]):
            sim.check(others < before, "not-expanded",
                      lambda: f"{others} of {before}\n{specs.describe(new)}")
    return new


# ---------------------------------------------------------------------------
# judging
# ---------------------------------------------------------------------------
def snapshot(spec):
    return {r.comb_class.key(): (r, fingerprint(r)) for r in spec}, spec.root


def unchanged(sim, spec, snap):
    rules, root = snap
    sim.check(spec.root == root, "original-changed", lambda: f"root {root}: {spec.root}")
    now = {r.comb_class.key(): r for r in spec}
    for k, (r, f) in rules.items():
        sim.check(k in now and now[k] is r and fingerprint(r) == f, "original-changed",
                  lambda: f"{f}\nnow {now.get(k) and fingerprint(now[k])}")
    for k, r in now.items():
        sim.check(k in rules or r.comb_class.lang.empty, "original-changed",
                  lambda: f"{fingerprint(r)} added")


def judge(sim, new, orig, start, packs, full):
    sim.probe("expanded")
    what = lambda: f"{specs.describe(orig)}\nexpanded\n{specs.describe(new)}"  # noqa: E731
    specs.check_structure(sim, new, start, packs)
    if full:
        left = [r.comb_class for r in new if offers(r)]
        sim.check(not left and not list(new.unexpanded_verified_classes()), "verified-left",
                  lambda: f"{left}\n{what()}")
    old = {id(r): r for r in specs.flat_rules(orig)}
    for r in specs.flat_rules(new):
        sim.check(id(r) not in old, "shared-rule",
                  lambda: f"{type(r).__name__} {r.comb_class} -> {r.children}\n{what()}")
    if any(offers(r) and r.strategy.spec["name"] == "backward" for r in orig):
        sim.probe("backward")
    had = sum(isinstance(r, ReverseRule) for r in specs.flat_rules(orig))
    if any(isinstance(r, ReverseRule) for r in specs.flat_rules(new)) and not had:
        sim.probe("reverse_used")
    specs.rule_forms(sim, new)
    order = sim.shuffled([new, orig])
    for s in order:
        specs.check_counts(sim, s, start, sim.shuffled(range(sim.int(4, 7))))
    if sim.chance(1, 2):
        specs.all_counts(sim, new, sim.draw(7))
    if not specs.unsupported(new):
        n = sim.draw(5)
        try:
            got = new.get_objects(n)
        except NotImplementedError:
            return
        true = Counter((start.value(w), w) for w in start.lang.words(n))
        got = Counter((k, w) for k, ws in got.items() for w in ws)
        sim.check(got == true, "objects-differ", lambda: f"size {n}\n{what()}")
        sim.probe("objects")
