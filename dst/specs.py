"""Shared by the word properties: how a search is driven, and what a specification
handed back must satisfy, judged without the library's own checks."""

from collections import Counter
from itertools import product

from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    Rule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import EmptyStrategy, StrategyFactory

from . import words as W_
from .core import InjectedFault
from .oracles import lfp_terms
from .spy import restart
from .words import PermuteFactory, WFactory, _Product, _Union


# ---------------------------------------------------------------------------
# searching
# ---------------------------------------------------------------------------
def drain(css, levels=12):
    """Expand until nothing is left."""
    try:
        for _ in range(levels):
            css.do_level()
    except NoMoreClassesToExpandError:
        pass


def search(sim, css, *, want=1, restarts=True, smallest=True, maxlevels=7):
    """
    Drive a search: whole searches cut by time limits, level by level with queries in
    between, restarts from a pickle.  Yields every specification handed back (at most
    `want`); the searcher may go on expanding between two of them.
    """
    got = 0
    iterative = css.strategy_pack.iterative
    for _ in range(maxlevels * 2):
        if got >= want:
            return
        k = sim.weighted([("level", 6), ("auto", 5), ("limit", 3), ("restart", 1)])
        try:
            if k == "restart":
                if restarts:
                    css = restart(sim, css)
                continue
            if k == "level":
                css.do_level()
                if not sim.chance(5, 6):
                    continue
                if not css.has_specification():
                    continue
                small = smallest and not iterative and _small(css) and sim.chance(1, 4)
                spec = css.get_specification(
                    smallest=small, minimization_time_limit=sim.pick([0.0, 0.01, 1.0]))
                sim.probe("smallest" if small else "level_spec")
            else:
                sim.draw_clock()
                kw = {"perc": sim.pick([1, 100, 50, 7])}
                if sim.chance(1, 4):
                    kw["status_update"] = sim.pick([1, 30, 1000])
                if (smallest and not iterative and _small(css) and sim.chance(1, 3)
                        and css.has_specification()):
                    kw["smallest"] = True
                    sim.probe("smallest")
                if k == "limit":
                    kw["max_expansion_time"] = sim.pick([0.0, 0.0, 0.02, 0.5, 20.0])
                spec = css.auto_search(**kw)
                sim.probe("auto_spec")
        except ExceededMaxtimeError:
            sim.fault("time_limit")
            continue
        except NoMoreClassesToExpandError:
            sim.log("exhausted")
            if not css.has_specification():
                return
            spec = css.get_specification()
        except SpecificationNotFound:
            sim.log("no specification")
            return
        got += 1
        if got > 1:
            sim.probe("second_spec")
        sim.log("specification", spec.number_of_rules())
        yield spec


def _small(css):
    """The search for the smallest tree enumerates all of them."""
    from comb_spec_searcher.rule_db import RuleDBForest

    return not isinstance(css.ruledb, RuleDBForest) and sum(1 for _ in css.classdb) <= 12


# ---------------------------------------------------------------------------
# counts
# ---------------------------------------------------------------------------
def clean(terms):
    return Counter({k: v for k, v in terms.items() if v})


def kwargs(sim, names, values):
    """The statistics as keyword arguments: their order means nothing, so any order."""
    return dict(sim.shuffled(list(zip(names, values))))


def check_counts(sim, spec, start, sizes, kind="count"):
    """The terms of the specification against the truth, in the given order of sizes."""
    names = start.extra_parameters
    for n in sizes:
        true = start.truth(n)
        if sim.chance(1, 3):
            # single queries first, for values that occur and values that do not
            vals = sorted(true)
            ask = sim.sample(vals, min(3, len(vals)))
            ask.append(tuple(sim.draw(n + 2) for _ in names))
            for v in ask:
                got = spec.count_objects_of_size(n, **kwargs(sim, names, v))
                sim.check(got == true.get(v, 0), kind + "-wrong",
                          lambda: f"{start}: {got} objects of size {n} with {dict(zip(names, v))}"
                          f" instead of {true.get(v, 0)}\n{describe(spec)}")
        got = clean(spec.get_terms(n))
        sim.check(got == true, kind + "-wrong",
                  lambda: f"{start}: terms of size {n} are {dict(got)} instead of {dict(true)}\n"
                  + describe(spec))


def sanity(sim, spec):
    """The library's own check computes with other sources: it must leave no trace."""
    sim.probe("sanity_check")
    sim.hide = sim.draw(1 << 16) if sim.chance(1, 2) else None
    if sim.chance(1, 3):
        sim.arm_interrupt(40)
    try:
        spec.sanity_check(sim.int(1, 4))
    except InjectedFault:
        pass
    except Exception:  # pylint: disable=broad-except
        pass  # what follows is judged
    finally:
        sim.interrupt_at = None


def all_counts(sim, spec, n, kind="inner-count"):
    """Every rule of the specification counts its own class."""
    for rule in list(spec):
        got, true = clean(rule.get_terms(n)), rule.comb_class.truth(n)
        sim.check(got == true, kind + "-wrong",
                  lambda: f"{rule.comb_class}: terms of size {n} are {dict(got)} instead of"
                  f" {dict(true)}\n{describe(spec)}")


def describe(spec):
    res = [f"root {spec.root}"]
    for rule in spec:
        res.append(f"  {type(rule).__name__} {rule.comb_class} -> {tuple(rule.children)}"
                   f" by {rule.strategy!r}")
        if isinstance(rule, EquivalencePathRule):
            res.extend(f"      {type(r).__name__} {r.comb_class} -> {tuple(r.children)}"
                       f" by {r.strategy!r}" for r in rule.rules)
    return "\n".join(res)


def rule_forms(sim, spec):
    """Probe the forms of rules that occur."""
    for rule in spec:
        sim.probe("form." + type(rule).__name__)
        if isinstance(rule, EquivalencePathRule):
            for r in rule.rules:
                o = getattr(r, "original_rule", None)
                sim.probe("form.path-of-" + type(r).__name__
                          + ("-of-reverse" if isinstance(o, ReverseRule) else ""))
            if len(rule.rules) > 1:
                sim.probe("form.long-path")


# ---------------------------------------------------------------------------
# structure
# ---------------------------------------------------------------------------
def strategies_of(pack):
    """Every strategy the pack can produce rules with, by representation."""
    res = {}
    todo = [*pack.initial_strats, *pack.inferral_strats, *pack.ver_strats, *pack.symmetries]
    for s in pack.expansion_strats:
        todo.extend(s)
    for s in todo:
        if isinstance(s, WFactory):
            for x in s.strats:
                res[ident(x)] = x
        elif isinstance(s, PermuteFactory):
            for x in s(None):
                res[ident(x)] = x
        else:
            assert not isinstance(s, StrategyFactory)
            res[ident(s)] = s
    return res


def ident(strategy):
    return (type(strategy).__module__, type(strategy).__qualname__, repr(strategy))


def check_structure(sim, spec, start, packs, reach=True):
    """Closed, one rule per class, genuine, productive."""
    allowed = {}
    for p in packs:
        allowed.update(strategies_of(p))
    sim.check(spec.root == start, "root-differs", lambda: f"root {spec.root}, searched {start}")
    rules = list(spec)
    byclass = {}
    for rule in rules:
        sim.check(rule.comb_class not in byclass, "two-rules",
                  lambda: f"{rule.comb_class} has two rules\n{describe(spec)}")
        byclass[rule.comb_class] = rule
    for c, rule in spec.rules_dict.items():
        sim.check(c == rule.comb_class, "rule-under-other-class", lambda: f"{c}: {rule}")
    sim.check(start in byclass, "root-without-rule", lambda: describe(spec))
    for rule in rules:
        for ch in rule.children:
            sim.check(ch in byclass or ch.lang.empty, "not-closed",
                      lambda: f"{ch} has no rule\n{describe(spec)}")
    for rule in rules:
        why = not_genuine(rule, allowed)
        sim.check(why is None, "not-genuine",
                  lambda: f"{rule.comb_class} -> {rule.children}: {why}\n{describe(spec)}")
    if reach:
        seen, todo = {start}, [start]
        while todo:
            c = todo.pop()
            for ch in byclass[c].children if c in byclass else ():
                if ch not in seen:
                    seen.add(ch)
                    todo.append(ch)
        for c in byclass:
            sim.check(c in seen, "unreachable-rule",
                      lambda: f"{c} is not reached from the start class\n{describe(spec)}")
    check_productive(sim, spec, rules)


def not_genuine(rule, allowed):
    """Why the rule is not what a strategy of the pack produces (None if it is)."""
    c = rule.comb_class
    if isinstance(rule, VerificationRule):
        s = rule.strategy
        if rule.children:
            return "a verification rule with children"
        if isinstance(s, EmptyStrategy):
            return None if c.lang.empty else "called empty but is not"
        if c.lang.empty:
            return "an empty class verified by another strategy"
        if ident(s) not in allowed:
            return f"{s!r} is no strategy of the pack"
        return None if s.verified(c) else f"{s!r} does not verify it"
    if not isinstance(rule, Rule):
        return f"unknown form {type(rule)}"
    if isinstance(rule, EquivalencePathRule):
        if not rule.rules:
            return "an empty path"
        at = c
        for r in rule.rules:
            if r.comb_class != at:
                return f"the path is broken at {at}"
            if len(r.children) != 1:
                return f"step from {at} has children {r.children}"
            if not one_nonempty(r):
                return f"step from {at} to {r.children} is no equivalence"
            why = not_genuine(r, allowed)
            if why is not None:
                return f"step from {at}: {why}"
            at = r.children[0]
        return None if tuple(rule.children) == (at,) else "the path ends elsewhere"
    if isinstance(rule, EquivalenceRule):
        o = rule.original_rule
        if o.comb_class != c:
            return f"made from a rule of {o.comb_class}"
        rest = [x for x in o.children if not x.lang.empty]
        if len(rest) != 1 or tuple(rule.children) != (rest[0],):
            return f"the original rule has the children {o.children}"
        return not_genuine(o, allowed)
    if isinstance(rule, ReverseRule):
        o, i = rule.original_rule, rule.idx
        if type(o) in (ReverseRule, EquivalenceRule, EquivalencePathRule):
            return f"the reverse of a {type(o)}"
        why = not_genuine(o, allowed)
        if why is not None:
            return "original: " + why
        want = (o.comb_class, *o.children[:i], *o.children[i + 1:])
        if o.children[i] != c or tuple(rule.children) != want:
            return f"no reverse of {o.comb_class} -> {o.children} at {i}"
        return None if o.strategy.is_reversible(o.comb_class) else "not reversible"
    s = rule.strategy
    if ident(s) not in allowed:
        return f"{s!r} is no strategy of the pack"
    twin = allowed[ident(s)]
    parts = twin._children(c)
    if parts is None:
        return f"{s!r} does not apply"
    if tuple(x for x, _ in parts) != tuple(rule.children):
        return f"{s!r} gives {[x for x, _ in parts]}"
    return None


def one_nonempty(r):
    """An equivalence by its classes: the original rule has a single child, or a single
    child that is not empty."""
    o = r
    while hasattr(o, "original_rule"):
        o = o.original_rule
    return len(o.children) == 1 or len([x for x in o.children if not x.lang.empty]) == 1


def true_shifts(rule):
    """How far the children must be known to know the parent, from true minimum sizes."""
    if isinstance(rule, (EquivalencePathRule, EquivalenceRule)):
        return (0,)
    if isinstance(rule, ReverseRule):
        s = true_shifts(rule.original_rule)
        i = rule.idx
        return (-s[i],) + tuple(x - s[i] for j, x in enumerate(s) if j != i)
    if isinstance(rule.strategy, _Product):
        mins = [x.lang.min for x in rule.children]
        return tuple(sum(mins) - m for m in mins)
    return tuple(0 for _ in rule.children)


def check_productive(sim, spec, rules):
    """No rule claims terms it cannot give, and the rules together are productive."""
    for rule in rules:
        stated, true = tuple(rule.shifts()), true_shifts(rule)
        sim.check(len(stated) == len(true) and all(x <= y for x, y in zip(stated, true)),
                  "shifts-too-large",
                  lambda: f"{type(rule).__name__} {rule.comb_class} -> {rule.children} by"
                  f" {rule.strategy!r}: shifts {stated}, at most {true} possible")
    for name, shifts in (("true", true_shifts), ("stated", lambda r: tuple(r.shifts()))):
        keys = []
        for rule in rules:
            keys.append((rule.comb_class, tuple(rule.children), tuple(shifts(rule))))
        have = {rule.comb_class for rule in rules}
        for rule in rules:
            keys.extend((x, (), ()) for x in rule.children if x not in have and x.lang.empty)
        num = {}
        keys = [(num.setdefault(p, len(num)), tuple(num.setdefault(c, len(num)) for c in cs), ss)
                for p, cs, ss in keys]
        g = lfp_terms(keys)
        f = {c: g[i] for c, i in num.items()}
        for rule in rules:
            sim.check(f[rule.comb_class] is None, "unproductive",
                      lambda: f"{rule.comb_class} yields only {f[rule.comb_class]} terms"
                      f" ({name} shifts)\n{describe(spec)}")
    sim.probe("productive_checked")


def unsupported(spec):
    """The specification has rules whose objects maps are not implemented."""
    return any(isinstance(r, ReverseRule) for r in spec)


def equivalence_step(strategy, c):
    """The rule of one child that the strategy gives as an equivalence (None if not)."""
    from comb_spec_searcher.exception import StrategyDoesNotApply

    try:
        r = strategy(c)
        _ = r.children
    except StrategyDoesNotApply:
        return None
    if not isinstance(r, Rule) or not r.is_equivalence():
        return None
    if c.lang.empty:
        return None
    return r if len(r.children) == 1 else r.to_equivalence_rule()


def walk(sim, start, pack, length):
    """A chain of equivalence rules, some reversed, for an EquivalencePathRule."""
    pool = [start]
    steps = {}
    strats = [s for _, s in sorted(strategies_of(pack).items(), key=lambda x: x[0])]
    i = 0
    while i < len(pool) and len(pool) < 25:
        for s in strats:
            r = equivalence_step(s, pool[i])
            if r is None:
                # follow the other rules too: there may be equivalences below
                if hasattr(s, "_children") and len(pool) < 12:
                    for x, _ in s._children(pool[i]) or ():
                        if x not in pool:
                            pool.append(x)
                continue
            steps.setdefault(pool[i], []).append(r)
            if r.children[0] not in pool:
                pool.append(r.children[0])
            if r.is_reversible():
                v = r.to_reverse_rule(0)
                sim.check(v.comb_class == r.children[0] and r.comb_class in v.children,
                          "reverse-wrong", lambda: f"the reverse of {r.comb_class} ->"
                          f" {r.children} is {v.comb_class} -> {v.children}")
                if v.is_equivalence() and len(v.children) == 1:
                    steps.setdefault(v.comb_class, []).append(v)
        i += 1
    if not steps:
        return None
    at = sim.pick(sorted(steps, key=lambda c: c.key()))
    chain = []
    while len(chain) < length and at in steps:
        r = sim.pick(steps[at])
        chain.append(r)
        at = r.children[0]
    return chain


def roundtrip(sim, rule, n, cap=40):
    """Objects to parts and back, for the words of size n; NotImplementedError is left
    to the caller."""
    c = rule.comb_class
    children = tuple(rule.children)
    one_to_one = not isinstance(getattr(rule, "strategy", None), W_.Blow) \
        and type(rule).__name__ != "MulRule"
    product_like = not isinstance(rule, (EquivalencePathRule, EquivalenceRule, ReverseRule)) \
        and isinstance(rule.strategy, _Product)
    name = f"{type(rule).__name__} {c} -> {children} by {rule.strategy!r}"
    seen = set()
    for k, w in enumerate(c.lang.words(n)):
        if k >= cap:
            break
        parts = tuple(rule.forward_map(w))
        sim.check(len(parts) == len(children), "parts-wrong", lambda: f"{name}: {w!r} -> {parts}")
        for x, ch in zip(parts, children):
            sim.check(x is None or ch.contains(x), "parts-wrong",
                      lambda: f"{name}: {w!r} -> {parts}")
        have = sum(x is not None for x in parts)
        sim.check(have == (len(children) if product_like else 1), "parts-wrong",
                  lambda: f"{name}: {w!r} -> {parts}")
        back = list(rule.backward_map(parts))
        if one_to_one:
            sim.check(back == [w], "round-trip", lambda: f"{name}: {w!r} -> {parts} -> {back}")
        else:
            sim.check(w in back and len(set(back)) == len(back) and all(map(c.contains, back)),
                      "round-trip", lambda: f"{name}: {w!r} -> {parts} -> {back}")
        img, idx = rule.indexed_forward_map(w)
        sim.check(tuple(img) == parts, "indexed-parts", lambda: f"{name}: {w!r} {img} {parts}")
        sim.check((parts, idx) not in seen, "not-injective", lambda: f"{name}: {parts} {idx}")
        seen.add((parts, idx))
        again = rule.indexed_backward_map(parts, idx)
        sim.check(again == w, "indexed-round-trip",
                  lambda: f"{name}: {w!r} -> {parts}, {idx} -> {again!r}")
    if isinstance(rule, (EquivalencePathRule, EquivalenceRule, ReverseRule)):
        for k, w in enumerate(children[0].lang.words(n)):
            if k >= cap:
                break
            rest = (w,) + (None,) * (len(children) - 1)
            obj = list(rule.backward_map(rest))
            sim.check(len(obj) == 1 and c.contains(obj[0]), "backward",
                      lambda: f"{name}: {rest} -> {obj}")
            parts = tuple(rule.forward_map(obj[0]))
            sim.check(parts == rest, "backward", lambda: f"{name}: {rest} -> {obj} -> {parts}")


def flat_rules(spec):
    """The rules of a specification, and the rules those are made of."""
    for rule in spec:
        yield rule
        for r in getattr(rule, "rules", ()):
            yield r
            while hasattr(r, "original_rule"):
                r = r.original_rule
                yield r
        r = rule
        while hasattr(r, "original_rule"):
            r = r.original_rule
            yield r
