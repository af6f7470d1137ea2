"""C08: sampling is exactly uniform."""

import sys
from collections import Counter
from fractions import Fraction

from comb_spec_searcher.exception import InvalidOperationError
from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    ReverseRule,
    VerificationRule,
)

from .. import deep, specs, trees, words
from ..core import Discard, InjectedFault
from ..lazyrand import Explorer, Inexact, TooMany
from ..wordgen import gen_any, make_searcher

RUNS = {"quick": 5000, "thorough": 120000}
RULE = (
    "One run = a specification found for a generated word class, then a drawn history of"
    " requests on it (sizes and statistics in a drawn order, between them counts, generation"
    " and sampling requests cut short by an interrupt in a user callback). For a request with"
    " few objects every outcome of the random number generator is explored: numbers drawn are"
    " symbolic ranges that comparisons split, so each course of events has an exact rational"
    " probability; each object must get exactly one over their number. Without objects the"
    " documented error must be raised. The same at single rules with larger sizes, their"
    " children replaced by recording samplers: the probability of a composition is the share"
    " of the words the forward map sends there. One run in 150 instead samples from a directly"
    " built chain of 100 to 900 rules. One universe in four is of trees"
    " instead of words: a generated grammar, repeated and empty children, symbols with the"
    " same numbers of objects."
    " Non-trivial: a distribution over at least"
    " five objects, through a specification of at least four rules, was computed."
)
STATES = "distinct (rule shapes of the specification, number of objects)"
REAL = ["CombinatorialSpecification.random_sample_object_of_size",
        "rules and constructors (sampling, counting)",
        "CombinatorialSpecificationSearcher and rule databases"]
STUB = ["random module (explored exactly)", "word classes and strategies (user code)", "clock"]
ASSUME = ["languages of small automata", "whole specifications: at most 30 objects and 3000"
          " courses of events per request; single rules: at most 300 objects",
          "complement and quotient rules do not sample (documented NotImplementedError)"]
MUST_HIT = ["uniform", "deep", "trees", "refused", "unsupported", "local", "local.union", "local.product",
            "local.path", "local.blow", "interrupted", "inner", "with_params", "merged_params", "large", "huge"]


def body(sim):
    words.reset()
    trees.reset()
    sim.salt = sim.draw(1 << 16)
    if sim.chance(1, 150):
        deep_chain(sim)
        return
    u = gen_any(sim, packv=False)
    sim.draw_clock()
    which = sim.weighted([("ruledb", 3), ("forget", 2), ("forest", 2), ("forest-noreverse", 3)])
    css, which = make_searcher(sim, u, which, debug=False)
    spec = None
    for spec in specs.search(sim, css, want=1, restarts=False):
        break
    if spec is None:
        raise Discard("no specification")
    specs.rule_forms(sim, spec)
    hook = sim.rng_hook
    try:
        whole(sim, spec, u.start)
        local(sim, spec)
    finally:
        sim.rng_hook = hook


def deep_chain(sim):
    """Hundreds of rules in a chain: the first request goes through all of them."""
    spec, start, top = deep.spec(sim)
    limit = sys.getrecursionlimit()
    hook = sim.rng_hook
    try:
        for n in sim.shuffled(range(top + 1)):
            want = deep.objects(start, n)
            if not want:
                try:
                    spec.random_sample_object_of_size(n)
                except InvalidOperationError:
                    continue
                sim.check(False, "sampled-nothing", lambda: f"a chain has no object of size {n}")
            # the objects are told apart by their text: it is long
            got = distribution(sim, 3000, lambda: spec.random_sample_object_of_size(n))
            deep.kept(sim, limit)
            res = Counter()
            for o, p in got.items():
                res[deep.shown([o])[0]] += p
            judge(sim, res, Counter(want), lambda: f"chain of {spec.number_of_rules()} rules")
    finally:
        sim.rng_hook = hook


def distribution(sim, limit, ask, exact=False):
    """Object -> probability."""
    ex = Explorer(limit, exact)
    sim.rng_hook = ex
    res = Counter()
    try:
        for obj, p in ex.explore(ask):
            res[obj] += p
    finally:
        sim.rng_hook = None
    sim.probe("executions", ex.runs)
    return res


def judge(sim, got, want, what):
    """got: probabilities; want: number of objects."""
    tot = sum(want.values())
    exp = {k: Fraction(v, tot) for k, v in want.items()}
    sim.check(dict(got) == exp, "not-uniform",
              lambda: f"{what()}: "
              f"{ {k: str(v) for k, v in got.items()} } instead of"
              f" { {k: str(v) for k, v in exp.items()} }")


def whole(sim, spec, start):
    asks = [(spec, start)]
    rules = [r for r in spec if not isinstance(r, ReverseRule)]
    for r in sim.sample(rules, min(2, len(rules))):
        asks.append((r, r.comb_class))
    for _ in range(sim.int(2, 6)):
        src, c = sim.pick(asks)
        n = sim.int(0, 6)
        names = c.extra_parameters
        true = c.truth(n)
        vals = sorted(true)
        v = sim.pick(vals) if vals and sim.chance(4, 5) else tuple(sim.draw(n + 2) for _ in names)
        params = specs.kwargs(sim, names, v)
        k = sim.draw(8)
        if k == 7:
            specs.sanity(sim, spec)
        elif k == 0:
            spec.count_objects_of_size(n, **dict.fromkeys(start.extra_parameters, 0))
        elif k == 1:
            try:
                spec.get_objects(min(n, 4))
            except NotImplementedError:
                pass
        elif k == 2 and src is spec:
            sim.arm_interrupt(10)
            try:
                spec.random_sample_object_of_size(n, **params)
            except InjectedFault:
                sim.probe("interrupted")
            except (InvalidOperationError, NotImplementedError):
                pass
            finally:
                sim.interrupt_at = None
        what = lambda: f"{c} size {n} {params}\n{specs.describe(spec)}"  # noqa: E731
        if not true.get(v):
            if src is spec:
                try:
                    obj = spec.random_sample_object_of_size(n, **params)
                except InvalidOperationError:
                    sim.probe("refused")
                else:
                    sim.fail("sampled-nothing", f"{obj!r} from {what()}")
            continue
        if true[v] > 30:
            continue
        want = Counter(w for w in c.lang.words(n) if c.value(w) == v)
        try:
            got = distribution(sim, 3000,
                               lambda: src.random_sample_object_of_size(n, **params))
        except TooMany:
            sim.probe("too_many")
            continue
        except NotImplementedError:
            sim.check(specs.unsupported(spec), "sampling-not-implemented", what)
            sim.probe("unsupported")
            continue
        judge(sim, got, want, what)
        sim.probe("uniform" if src is spec else "inner")
        if names:
            sim.probe("with_params")
        sim.state((sorted((type(r).__name__, type(r.strategy).__name__) for r in spec), true[v]))
        if true[v] >= 5 and spec.number_of_rules() >= 4:
            sim.nontrivial = True


class Recorder:
    """Stands for the rule of a child."""

    def __init__(self, c, log):
        self.c, self.log = c, log

    def get_terms(self, n):
        return self.c.truth(n)

    def count_objects_of_size(self, n, **params):
        return self.c.truth(n)[tuple(params[k] for k in self.c.extra_parameters)]

    def get_objects(self, n):
        raise NotImplementedError

    def random_sample_object_of_size(self, n, **params):
        v = tuple(params[k] for k in self.c.extra_parameters)
        self.log.append((self.c.key(), n, v))
        for w in self.c.lang.words(n):
            if self.c.value(w) == v:
                return w
        raise AssertionError(f"asked for an object of {self.c} that does not exist: {n} {v}")


def local(sim, spec):
    """The compositions at single rules."""
    rules = [r for r in spec if not isinstance(r, (ReverseRule, VerificationRule))]
    for rule in sim.sample(rules, min(3, len(rules))):
        if isinstance(rule, EquivalencePathRule):
            rule = EquivalencePathRule(rule.rules)
            form = "path"
        else:
            rule = rule.strategy(rule.comb_class)
            form = {"Blow": "blow", "GM": "blow", "GRank": "rank"}.get(type(rule.strategy).__name__) or (
                "product" if isinstance(rule.strategy, words._Product) else "union")
        c = rule.comb_class
        log = []
        rule.set_subrecs(lambda ch: Recorder(ch, log))  # pylint: disable=cell-var-from-loop
        if any(len(set(m.values())) < len(m)
               for m in getattr(rule.constructor, "extra_parameters", ())):
            sim.probe("merged_params")
        for n in sim.sample(range(9), 3):
            true = c.truth(n)
            if not true or sum(true.values()) > 300:
                continue
            v = sim.pick(sorted(true))
            params = specs.kwargs(sim, c.extra_parameters, v)
            want = Counter()
            for w in c.lang.words(n):
                if c.value(w) == v:
                    want[tuple(sorted(
                        (ch.key(), len(x), ch.value(x))
                        for ch, x in zip(rule.children, rule.forward_map(w)) if x is not None
                    ))] += 1

            def ask():
                log.clear()
                rule.random_sample_object_of_size(n, **params)
                return tuple(sorted(log))

            try:
                got = distribution(sim, 3000, ask)
            except TooMany:
                sim.probe("too_many")
                continue
            judge(sim, got, want,
                  lambda: f"{c} -> {rule.children} by {rule.strategy!r}, size {n} {params}")
            sim.probe("local")
            sim.probe("local." + form)
        if form in ("product", "union") and not c.extra_parameters and sim.chance(1, 2):
            large(sim, rule, form, ask_at=sim.pick([12, 25, 60]), log=log)


def large(sim, rule, form, ask_at, log):
    """The compositions at a rule where there are very many objects."""
    c, n = rule.comb_class, ask_at
    kids = rule.children
    tot = c.truth(n)[()]
    size = lambda ch, k: ch.truth(k)[()]  # noqa: E731
    if not tot or any(ch.extra_parameters for ch in kids):
        return
    want = Counter()
    if form == "union":
        for ch in kids:
            if size(ch, n):
                want[((ch.key(), n, ()),)] += size(ch, n)
    else:
        def rec(i, left, parts, k):
            if i == len(kids):
                if not left:
                    want[tuple(sorted(parts))] += k
                return
            for m in range(left + 1) if i < len(kids) - 1 else (left,):
                if size(kids[i], m):
                    rec(i + 1, left - m, [*parts, (kids[i].key(), m, ())], k * size(kids[i], m))

        if len(kids) > 3 or n ** (len(kids) - 1) > 1000:
            return
        rec(0, n, [], 1)
    assert sum(want.values()) == tot, (c, kids, n)

    def ask():
        log.clear()
        rule.random_sample_object_of_size(n)
        return tuple(sorted(log))

    what = lambda: f"{c} -> {kids} by {rule.strategy!r}, size {n}"  # noqa: E731
    try:
        got = distribution(sim, 3000, ask, exact=tot > 1 << 53)
    except TooMany:
        sim.probe("too_many")
        return
    except Inexact:
        sim.fail("not-uniform", f"a floating point number chooses among {tot} objects: {what()}")
    judge(sim, got, want, what)
    sim.probe("large")
    if tot > 1 << 53:
        sim.probe("huge")
