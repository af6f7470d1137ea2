"""C18: what is written as JSON and read back is equal and behaves the same."""

import copy
import json
import pickle
from collections import Counter
from typing import Generic

from comb_spec_searcher import AtomStrategy, CombinatorialSpecification, StrategyPack
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.isomorphism import Bijection
from comb_spec_searcher.specification import AlreadyVerified
from comb_spec_searcher.strategies.rule import (
    AbstractRule,
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    Rule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import (
    AbstractStrategy,
    EmptyStrategy,
    StrategyFactory,
)
from comb_spec_searcher.typing import CombinatorialClassType, CombinatorialObjectType

from .. import specs, trees, words
from ..core import Discard, InjectedFault
from ..wordgen import gen_class, gen_universe, make_searcher
from . import c12

RUNS = {"quick": 9000, "thorough": 150000}
RULE = (
    "One run stores things as JSON text and reads them back as a restarted process would: the"
    " hash order of classes differs while reading (redrawn), reading may be interrupted and"
    " repeated, the original may have been used any way before and between. Scenarios: whole"
    " specifications found by searches over words or trees under every database, or expanded"
    " (equality both ways, same rules by a fingerprint of every form, writing again gives the"
    " same text, counts and objects against brute force, same equations); every rule form that"
    " occurs in them or is derived from them (reverses, equivalence forms, paths); packs;"
    " strategies however created (by keyword, through a generic alias, copied, pickled, used)"
    " whose equality must coincide with equality of kind and settings; bijections, whose maps"
    " are compared object by object. Non-trivial: a specification of at least four rules, or a"
    " bijection with at least ten objects, survived; or at least ten derived rules."
)
STATES = "distinct fingerprints of what was stored (kinds of rules or strategies)"
REAL = ["to_jsonable/from_dict of specifications, rules, strategies, packs and bijections",
        "equality of strategies, rules, packs and specifications", "searcher and databases"]
STUB = ["word and tree classes and strategies (user code)", "the file (a JSON string)",
        "process restart (new hash order)", "clock", "random"]
ASSUME = ["user classes and strategies store themselves faithfully",
          "dictionaries are read once (from_dict consumes its argument)",
          "no empty start class with strategies that promise children that are not empty"]
MUST_HIT = ["spec", "rules", "pack", "strategies", "bijection", "lazy_empty", "form.Rule",
            "form.VerificationRule", "form.EquivalenceRule", "form.EquivalencePathRule",
            "form.ReverseRule", "form.BlowRule", "form.MulRule", "equations", "objects",
            "used_before", "restarted", "reload_interrupted", "generic_alias", "strategy_unequal",
            "strategy_equal", "other_kind", "factory", "path-of-reverse", "expanded", "index-data",
            "empty_child", "ungrouped"]


def body(sim):
    words.reset()
    trees.reset()
    sim.salt = sim.draw(1 << 16)
    sim.plain = sim.chance(1, 6)
    k = sim.weighted([("spec", 5), ("rules", 3), ("strategies", 2), ("pack", 1), ("bij", 3)])
    {"spec": a_spec, "rules": some_rules, "strategies": strategies, "pack": a_pack,
     "bij": a_bijection}[k](sim)


# ---------------------------------------------------------------------------
# storing
# ---------------------------------------------------------------------------
def store(x):
    return json.dumps(x.to_jsonable())


def load(sim, cls, text):
    """Read, perhaps cut short and done again."""
    if sim.chance(1, 6):
        sim.arm_interrupt(8)
        try:
            return cls.from_dict(json.loads(text))
        except InjectedFault:
            sim.probe("reload_interrupted")
        finally:
            sim.interrupt_at = None
    return cls.from_dict(json.loads(text))


def canon(text):
    """The content of a stored specification, up to the order of the rules."""
    return order(json.loads(text))


def order(x):
    if isinstance(x, dict):
        return {k: (sorted((order(y) for y in v), key=lambda z: json.dumps(z, sort_keys=True))
                    if k in ("rules", "comb_classes") and "root" in x or k == "comb_classes"
                    else order(v)) for k, v in x.items()}
    if isinstance(x, list):
        return [order(y) for y in x]
    return x


class elsewhere:
    """Inside, classes hash as they would in another process."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.old = self.sim.salt
        self.sim.salt = self.sim.draw(1 << 16)

    def __exit__(self, *args):
        self.sim.salt = self.old


def same(sim, a, b, what):
    try:
        ok = a == b and b == a and not a != b and not b != a
    except InjectedFault:
        raise
    except Exception as e:  # pylint: disable=broad-except
        ok = sim.fail("comparison-raised", f"{type(e).__name__}: {e}\n{what()}")
    sim.check(ok, "not-equal", lambda: f"a == b: {a == b}, b == a: {b == a}, a != b: {a != b},"
              f" b != a: {b != a}\n{what()}")


def strat_print(s):
    d = s.to_jsonable()
    return json.dumps(order(d), sort_keys=True)


def fingerprint(rule):
    """Everything a rule is made of."""
    res = [type(rule).__module__, type(rule).__name__, rule.comb_class.key(),
           tuple(c.key() for c in rule.children), strat_print(rule.strategy)]
    if isinstance(rule, EquivalencePathRule):
        res.append(tuple(map(fingerprint, rule.rules)))
    elif isinstance(rule, (EquivalenceRule, ReverseRule)):
        res.append(fingerprint(rule.original_rule))
        if isinstance(rule, ReverseRule):
            res.append(rule.idx)
    return tuple(res)


# ---------------------------------------------------------------------------
# specifications
# ---------------------------------------------------------------------------
def get_spec(sim):
    spec, start = a_specification(sim)
    if any(isinstance(r, EquivalencePathRule) for r in spec) and sim.chance(1, 4):
        # every rule on its own
        rules = {}
        for r in spec:
            for r2 in getattr(r, "rules", (r,)):
                rules[r2.comb_class] = r2
        if sim.chance(1, 2):
            # the rules of empty classes are found when needed
            rules = {c: r for c, r in rules.items() if not c.is_empty()}
        spec = CombinatorialSpecification(spec.root, rules.values(), group_equiv=False)
        sim.probe("ungrouped")
    return spec, start


def a_specification(sim):
    """A specification and its start class."""
    if sim.chance(1, 3):
        start = trees.G(trees.gen_grammar(sim), 0)
        if sim.chance(1, 3):
            return CombinatorialSpecification(
                start, trees.direct_rules(sim, start, sim.draw(4))), start
        u = U(start, trees.gen_pack(sim, brute=sim.chance(1, 6), share=sim.chance(1, 6)))
    else:
        u = gen_universe(sim)
    css, _ = make_searcher(sim, u, debug=False)
    sim.draw_clock()
    for spec in specs.search(sim, css, want=1, restarts=False):
        if sim.chance(1, 8) and any(isinstance(r.strategy, words.PackV) for r in spec):
            sim.draw_clock()
            try:
                spec = spec.expand_verified()
                sim.probe("expanded")
            except InjectedFault:
                raise
            except Exception:  # pylint: disable=broad-except
                pass  # judged by C19
        return spec, u.start
    raise Discard("no specification")


class U:
    def __init__(self, start, pack):
        self.start, self.pack = start, pack


def use(sim, spec, start, most=3):
    """Queries of any kind, in any order."""
    for _ in range(sim.draw(most + 1)):
        n = sim.draw(6)
        k = sim.draw(8)
        try:
            if k == 0:
                spec.get_terms(n)
            elif k == 1:
                list(spec.generate_objects_of_size(min(n, 4), **params(sim, start, n)))
            elif k == 2:
                spec.random_sample_object_of_size(n, **params(sim, start, n))
            elif k == 3:
                r = sim.pick(list(spec))
                for c in r.children:
                    spec.get_rule(c)
            elif k == 4:
                str(spec)
            elif k == 7:
                specs.sanity(sim, spec)
            elif k == 5:
                sim.arm_interrupt(20)
                spec.count_objects_of_size(n, **params(sim, start, n))
            else:
                r = sim.pick(list(spec))
                r.get_terms(n)
        except InjectedFault:
            pass
        except Exception:  # pylint: disable=broad-except
            pass  # judged elsewhere
        finally:
            sim.interrupt_at = None
        sim.probe("used_before")


def params(sim, start, n):
    true = sorted(start.truth(n))
    v = sim.pick(true) if true else tuple(0 for _ in start.extra_parameters)
    return specs.kwargs(sim, start.extra_parameters, v)


def rules_of(spec):
    return {r.comb_class.key(): fingerprint(r) for r in spec}


def a_spec(sim):
    sim.probe("spec")
    spec, start = get_spec(sim)
    if sim.chance(1, 2):
        use(sim, spec, start)
    specs.rule_forms(sim, spec)
    if any(isinstance(r.strategy, EmptyStrategy) for r in spec):
        sim.probe("lazy_empty")
    if any(c.lang.empty for r in spec for c in r.children):
        sim.probe("empty_child")
    what = lambda: specs.describe(spec)  # noqa: E731
    before = rules_of(spec)
    text = store(spec)
    sim.check(rules_of(spec) == before, "storing-changed-it", what)
    sim.log("stored", len(text), sorted(type(r).__name__ for r in spec))
    if sim.chance(1, 4):
        use(sim, spec, start)
        spec = load(sim, CombinatorialSpecification, store(spec)) if sim.chance(1, 4) else spec
        before = rules_of(spec)
        text = store(spec)
    # read in this process: comparable with the original
    again = load(sim, CombinatorialSpecification, text)
    if sim.chance(1, 6):
        use(sim, again, start, 1)
        before2 = rules_of(again)
        sim.check(all(before2.get(k) == v for k, v in before.items()), "rules-differ", what)
    else:
        same(sim, spec, again, what)
        sim.check(rules_of(again) == before, "rules-differ",
                  lambda: f"{what()}\nread:\n{specs.describe(again)}")
        sim.check(canon(store(again)) == canon(text), "stored-differs", what)
    for r in spec:
        same(sim, r, again.rules_dict[r.comb_class], lambda: f"rule of {r.comb_class}\n{what()}")
    # read in another process
    with elsewhere(sim):
        sim.probe("restarted")
        other = load(sim, CombinatorialSpecification, text)
        specs_behave(sim, other, start, spec)
        if sim.chance(1, 3):
            sim.check(canon(store(other)).items() >= {"root": canon(text)["root"]}.items()
                      and {json.dumps(r, sort_keys=True) for r in canon(store(other))["rules"]}
                      >= {json.dumps(r, sort_keys=True) for r in canon(text)["rules"]},
                      "stored-differs", what)
    if sim.chance(1, 6) and spec.number_of_rules() <= 12:
        equations(sim, spec, again)
    sim.state(sorted((type(r).__name__, type(r.strategy).__name__) for r in spec))
    if spec.number_of_rules() >= 4:
        sim.nontrivial = True


def specs_behave(sim, spec, start, orig):
    specs.check_counts(sim, spec, start, sim.sample(range(7), 3))
    if specs.unsupported(orig):
        return
    n = sim.draw(5)
    try:
        got = spec.get_objects(n)
    except NotImplementedError:
        return
    true = Counter((start.value(w), w) for w in start.lang.words(n))
    got = Counter((k, w) for k, ws in got.items() for w in ws)
    sim.check(got == true, "objects-differ", lambda: f"{start} size {n}\n{specs.describe(spec)}")
    sim.probe("objects")


def equations(sim, a, b):
    """The rules of both imply the same equations, given the same names."""
    names = {}
    label = lambda c: names.setdefault(c.key(), len(names))  # noqa: E731
    func = lambda c: c.get_function(label)  # noqa: E731

    def eqs(spec):
        funcs = {r.comb_class: func(r.comb_class) for r in spec
                 if not isinstance(r, VerificationRule)}
        res = {}
        for r in sorted(spec, key=lambda r: r.comb_class.key()):
            try:
                e = (r.get_equation(func, funcs) if isinstance(r, VerificationRule)
                     else r.get_equation(func))
            except (NotImplementedError, StrategyDoesNotApply):
                e = None
            res[r.comb_class.key()] = str(e)
        return res

    x, y = eqs(a), eqs(b)
    sim.check(all(y[k] == v for k, v in x.items()), "equations-differ",
              lambda: f"{x}\n{y}\n{specs.describe(a)}")
    sim.probe("equations")


# ---------------------------------------------------------------------------
# rules
# ---------------------------------------------------------------------------
def some_rules(sim):
    sim.probe("rules")
    sim.allow_lazy = False  # quotients need exact minima
    spec, start = get_spec(sim)
    pool = list(specs.flat_rules(spec))
    strats = {}
    for r in pool:
        strats[strat_print(r.strategy)] = r.strategy
    # strategies applied anew, and everything derived from a rule
    for s in sim.sample(sorted(strats), min(3, len(strats))):
        for r in sim.sample(pool, min(4, len(pool))):
            try:
                new = strats[s](r.comb_class)
                _ = new.children
            except StrategyDoesNotApply:
                continue
            pool.append(new)
    derived = []
    for r in pool:
        if not isinstance(r, Rule) or isinstance(r, (EquivalencePathRule, ReverseRule)):
            continue
        if isinstance(r, EquivalenceRule):
            if r.is_reversible() and not isinstance(r.original_rule, ReverseRule):
                derived.append(r.to_reverse_rule(0))
            continue
        if all(c.lang.empty for c in r.children) or r.comb_class.lang.empty:
            continue
        if r.is_equivalence() and len(r.children) > 1:
            e = r.to_equivalence_rule()
            derived.append(e)
            if e.is_reversible():
                derived.append(e.to_reverse_rule(0))
        if r.is_reversible():
            for i, c in enumerate(r.children):
                if not c.lang.empty:
                    derived.append(r.to_reverse_rule(i))
    for r in list(derived):
        if isinstance(r, ReverseRule) and r.is_equivalence() and len(r.children) > 1:
            derived.append(r.to_equivalence_rule())
    eq = {}
    for r in pool + derived:
        if isinstance(r, Rule) and not isinstance(r, EquivalencePathRule) \
                and len(r.children) == 1 and r.is_equivalence():
            eq.setdefault(r.comb_class, []).append(r)
    for _ in range(sim.draw(4)):
        if not eq:
            break
        at = sim.pick(sorted(eq, key=lambda c: c.key()))
        chain = []
        while at in eq and len(chain) < 4 and (not chain or sim.chance(3, 4)):
            chain.append(sim.pick(eq[at]))
            at = chain[-1].children[0]
        derived.append(EquivalencePathRule(chain))
        if any(isinstance(getattr(x, "original_rule", x), ReverseRule) for x in chain):
            sim.probe("path-of-reverse")
    pool += derived
    kinds = set()
    for r in sim.sample(pool, min(len(pool), 25)):
        one_rule(sim, r)
        kinds.add((type(r).__name__, type(r.strategy).__name__))
    # different rules of the same class stay apart
    sim.state(sorted(kinds))
    sim.log("rules", sorted(kinds))
    if len(pool) >= 10:
        sim.nontrivial = True


def one_rule(sim, r):
    sim.probe("form." + type(r).__name__)
    what = lambda: f"{type(r).__name__} {r.comb_class} -> {r.children}: {fingerprint(r)}"  # noqa
    if sim.chance(1, 5):
        try:
            str(r)
            r.shifts()
            _ = r.constructor
        except (NotImplementedError, AttributeError):
            pass
    text = store(r)
    before = fingerprint(r)
    again = load(sim, AbstractRule, text)
    sim.check(fingerprint(r) == before, "storing-changed-it", what)
    same(sim, r, again, what)
    sim.check(fingerprint(again) == before, "rule-differs",
              lambda: f"{what()}\n{fingerprint(again)}")
    sim.check(order(json.loads(store(again))) == order(json.loads(text)), "stored-differs", what)
    if isinstance(r, VerificationRule):
        n = sim.draw(5)
        sim.check(specs.clean(again.get_terms(n)) == r.comb_class.truth(n), "terms-differ", what)
        return
    # the rule counts the same given its children
    sim.check(again.is_equivalence() == r.is_equivalence() and
              again.is_two_way() == r.is_two_way() and
              again.is_reversible() == r.is_reversible() and
              tuple(again.shifts()) == tuple(r.shifts()), "rule-differs", what)
    for c in again.children:
        sim.check(not c.lang.empty or c in r.children, "rule-differs", what)
    sizes = range(sim.draw(5) + 1)
    res = []
    for x in (r, again) if not isinstance(r, ReverseRule) else (again,):
        if x is r:
            # not to disturb the original
            x = load(sim, AbstractRule, store(r))
        x.set_subrecs(Sub)
        res.append([specs.clean(x.get_terms(n)) for n in sizes])
    want = [r.comb_class.truth(n) for n in sizes]
    for got in res:
        sim.check(got == want, "terms-differ", lambda: f"{what()}: {got} instead of {want}")
    if isinstance(r, ReverseRule) and type(r.original_rule).__name__ == "MulRule":
        return  # objects have several counterparts
    try:
        specs.roundtrip(sim, again, sim.draw(5))
    except NotImplementedError:
        pass


class Sub:
    """Stands for the rule of a child."""

    def __init__(self, c):
        self.c = c

    def get_terms(self, n):
        return self.c.truth(n)

    def count_objects_of_size(self, n, **params_):
        return self.c.truth(n)[tuple(params_[k] for k in self.c.extra_parameters)]

    def get_objects(self, n):
        res = {}
        for w in self.c.lang.words(n):
            res.setdefault(self.c.value(w), []).append(w)
        return res

    def generate_objects_of_size(self, n, **params_):
        return iter(self.get_objects(n).get(tuple(params_[k] for k in self.c.extra_parameters), []))

    def random_sample_object_of_size(self, n, **params_):
        return next(self.generate_objects_of_size(n, **params_))


# ---------------------------------------------------------------------------
# strategies and packs
# ---------------------------------------------------------------------------
class Generous(words._Union, Generic[CombinatorialClassType, CombinatorialObjectType]):
    """A strategy written as a generic class, as those of the library are."""

    ARGS = ("n",)

    def parts(self, c):
        return None


class Liberal(Generous):
    """Another kind with the same settings."""


class GenericFactory(words.WFactory, Generic[CombinatorialClassType]):
    """A generic factory."""


def gen_strategy(sim):
    """A way to make it and the settings."""
    k = sim.weighted([("atom", 1), ("empty", 2), ("already", 1), ("gen", 3), ("fac", 2),
                      ("user", 4)])
    if k == "atom":
        return (lambda f: f(AtomStrategy)()), ("atom",)
    if k == "empty":
        return (lambda f: f(EmptyStrategy)()), ("empty",)
    if k == "already":
        cs = [gen_class(sim, letters=1, nstats=0, dyck=False) for _ in range(sim.draw(3))]
        sh = sim.shuffled(cs)
        return (lambda f: f(AlreadyVerified)(sh)), (
            "already", tuple(sorted({repr(c.key()) for c in cs})))
    if k == "gen":
        from ..wordgen import draw_flags, draw_gate

        n, g, fl = sim.draw(2), draw_gate(sim, 1, 4), draw_flags(sim)
        tw, rev = sim.chance(3, 4), sim.chance(3, 4)
        d = Generous(n=n, gate=g, two_way=tw, reversible=rev, **fl).to_jsonable()
        return (lambda f: f(Generous)(n=n, gate=g, two_way=tw, reversible=rev, **fl)), (
            "gen", json.dumps(d, sort_keys=True))
    if k == "fac":
        name, modes = f"f{sim.draw(2)}", "".join(sim.pick("srl") for _ in range(2))
        inner = [Generous(n=sim.draw(2)) for _ in range(2)]
        d = [name, modes, [s.n for s in inner]]
        cls = GenericFactory if sim.chance(2, 3) else words.WFactory
        return (lambda f: f(cls)(name, inner, modes)), (cls.__name__, json.dumps(d))
    u = gen_universe(sim)
    s = sim.pick(list(u.pack))
    if isinstance(s, AtomStrategy):
        return (lambda f: f(AtomStrategy)()), ("atom",)
    d = s.to_jsonable()
    return (lambda f: type(s).from_dict(_rest(json.loads(json.dumps(d))))), (
        "user", json.dumps(order(d), sort_keys=True))


def _rest(d):
    d.pop("class_module")
    d.pop("strategy_class")
    return d


def alias(sim, cls):
    """The class, or the class with type arguments."""
    par = getattr(cls, "__parameters__", ())
    if par and sim.chance(2, 3):
        sim.probe("generic_alias")
        args = [words.W, words.Word][:len(par)] if sim.chance(1, 2) else [trees.G, trees.T][
            :len(par)]
        return cls[tuple(args)]
    return cls


def instance(sim, make):
    s = make(lambda cls: alias(sim, cls))
    k = sim.draw(6)
    if k == 0:
        s = copy.copy(s)
    elif k == 1:
        s = copy.deepcopy(s)
    elif k == 2:
        s = pickle.loads(pickle.dumps(s))
    elif k == 3:
        s = load(sim, StrategyFactory if isinstance(s, StrategyFactory) else AbstractStrategy,
                 store(s)) if not isinstance(s, StrategyFactory) else StrategyPack.from_dict(
                     json.loads(json.dumps(StrategyPack([s], [], [], [], "x").to_jsonable()))
                 ).initial_strats[0]
    if sim.chance(1, 3):
        # use it
        c = gen_class(sim)
        try:
            if isinstance(s, StrategyFactory):
                list(s(c))
            else:
                r = s(c)
                _ = r.children
                r.get_terms(sim.draw(3))
        except InjectedFault:
            raise
        except Exception:  # pylint: disable=broad-except
            pass
        repr(s)
        str(s)
    return s


def strategies(sim):
    sim.probe("strategies")
    made = []
    for _ in range(sim.int(2, 4)):
        make, key = gen_strategy(sim)
        if key[0] in ("fac", "GenericFactory", "WFactory"):
            sim.probe("factory")
        for _ in range(sim.int(1, 3)):
            made.append((instance(sim, make), key))
    # a copy that differs in one setting
    for s, key in list(made):
        if key[0] == "gen" and sim.chance(1, 2):
            t = type(s).from_dict(_rest(s.to_jsonable()))
            name = sim.pick(["n", "pol", "two_way", "_ignore_parent", "_workable", "_inferrable",
                             "_possibly_empty"])
            setattr(t, name, 1 - getattr(t, name) if name in ("n", "pol")
                    else not getattr(t, name))
            made.append((t, ("gen", json.dumps(t.to_jsonable(), sort_keys=True))))
        # the same settings in another kind
        if key[0] == "gen" and sim.chance(1, 3):
            sim.probe("other_kind")
            t = (Liberal if type(s) is Generous else Generous).from_dict(_rest(s.to_jsonable()))
            made.append((t, ("gen", json.dumps(t.to_jsonable(), sort_keys=True))))
        if key[0] in ("GenericFactory", "WFactory") and sim.chance(1, 3):
            sim.probe("other_kind")
            cls = words.WFactory if key[0] == "GenericFactory" else GenericFactory
            made.append((cls(s.name, s.strats, s.modes), (cls.__name__, *key[1:])))
    keys = set()
    for i, (a, ka) in enumerate(made):
        keys.add(ka[0])
        for b, kb in made[i:]:
            want = ka == kb
            what = lambda: f"{a!r} {ka}\n{b!r} {kb}\n{vars(a)}\n{vars(b)}"  # noqa: E731
            sim.check((a == b) == want and (b == a) == want and (a != b) == (not want),
                      "strategy-equality", lambda: f"a == b: {a == b}, should be {want}\n{what()}")
            sim.probe("strategy_equal" if want else "strategy_unequal")
        again = reread(sim, a)
        same(sim, a, again, lambda: f"{a!r}\n{vars(a)}\n{vars(again)}")
        sim.check(type(again) is type(a) and repr(again) == repr(a)
                  and json.dumps(order(again.to_jsonable())) == json.dumps(order(a.to_jsonable())),
                  "strategy-differs", lambda: f"{a!r}: {again!r}")
        sim.check(a != 5 and not a == "x" and not a == None,  # noqa: E711
                  "strategy-equality", lambda: repr(a))
    sim.state(sorted(keys))
    sim.log("strategies", len(made), sorted(keys))


def reread(sim, s):
    from comb_spec_searcher.strategies.strategy import strategy_from_dict

    if sim.chance(1, 2):
        return strategy_from_dict(json.loads(store(s)))
    p = StrategyPack([], [], [[s]], [], "p")
    return load(sim, StrategyPack, store(p)).expansion_strats[0][0]


def a_pack(sim):
    sim.probe("pack")
    packs = []
    for _ in range(2):
        pack = gen_universe(sim).pack if sim.chance(2, 3) else trees.gen_pack(sim)
        if sim.chance(1, 3):
            make, _ = gen_strategy(sim)
            try:
                pack = pack.add_initial(instance(sim, make))
            except ValueError:
                pass  # it is there already
        if sim.chance(1, 2):
            sets = [list(x) for x in pack.expansion_strats]
            if sim.chance(1, 2):
                sets.insert(sim.int(0, len(sets)), [])
                sim.probe("empty-set")
            if len(sets) > 1 and sim.chance(1, 2):
                # the same strategies, cut into sets elsewhere
                k = sim.int(0, len(sets) - 2)
                sets[k:k + 2] = [sets[k] + sets[k + 1]]
            pack = StrategyPack(pack.initial_strats, pack.inferral_strats, sets, pack.ver_strats,
                                sim.pick([pack.name, "", "p", "\u00e9 \"q\""]), pack.symmetries,
                                pack.iterative if sim.chance(1, 2) else not pack.iterative)
        packs.append(pack)
    p = packs[0]
    if sim.chance(1, 4):
        for m in ("make_iterative",):
            if hasattr(p, m):
                packs.append(p.make_iterative() if p.iterative is False else p)
    for pack in packs:
        text = store(pack)
        again = load(sim, StrategyPack, text)
        same(sim, pack, again, lambda: repr(pack))
        sim.check(repr(again) == repr(pack) and again.name == pack.name
                  and again.iterative == pack.iterative
                  and list(map(strat_print, again)) == list(map(strat_print, pack))
                  and [len(x) for x in again.expansion_strats]
                  == [len(x) for x in pack.expansion_strats], "pack-differs",
                  lambda: f"{pack!r}\n{again!r}")
        sim.check(canon(store(again)) == canon(text), "stored-differs", lambda: repr(pack))
        # a setting that differs is seen
        d = json.loads(text)
        d["iterative"] = not d["iterative"]
        sim.check(StrategyPack.from_dict(d) != pack, "pack-equality", lambda: repr(pack))
    for slot in ("initial_strats", "ver_strats", "expansion_strats", "symmetries"):
        d = json.loads(store(p))
        if len(d[slot]) > 1 and d[slot][0] != d[slot][-1]:
            d[slot] = d[slot][::-1]
            sim.check(d == json.loads(store(p)) or StrategyPack.from_dict(d) != p,
                      "pack-equality", lambda: f"{slot} reversed\n{p!r}")
    sim.state(sorted(type(s).__name__ for s in p))


# ---------------------------------------------------------------------------
# bijections
# ---------------------------------------------------------------------------
def a_bijection(sim):
    sim.probe("bijection")
    ss = c12.word_specs(sim) if sim.chance(1, 4) else c12.tree_specs(sim)
    ss.append(c12.reload(ss[0]) if ss and sim.chance(1, 3) else ss[0] if ss else None)
    b = None
    for i, j in sim.shuffled([(i, j) for i in range(len(ss)) for j in range(len(ss)) if i != j]):
        if ss[i] is None or ss[j] is None:
            continue
        b = Bijection.construct(ss[i], ss[j])
        if b is not None:
            break
    if b is None:
        raise Discard("no bijection")
    s1, s2 = b.domain, b.codomain
    what = lambda: f"{specs.describe(s1)}\n{specs.describe(s2)}"  # noqa: E731
    if sim.chance(1, 3):
        use(sim, s1, s1.root, 2)
    text = store(b)
    if json.loads(text)["index_data"]:
        sim.probe("index-data")
    again = load(sim, Bijection, text)
    if sim.chance(1, 3):
        again = load(sim, Bijection, store(again))
    same(sim, s1, again.domain, what)
    same(sim, s2, again.codomain, what)
    tot = 0
    for n in sim.shuffled(range(8)):
        if sum(s1.root.truth(n).values()) + tot > 60:
            continue
        for o in list(s1.root.lang.words(n)):
            x, y = b.map(o), again.map(o)
            sim.check(x == y, "maps-differ", lambda: f"{o}: {x}, read: {y}\n{what()}")
            tot += 1
        for o in list(s2.root.lang.words(n)):
            x, y = b.inverse_map(o), again.inverse_map(o)
            sim.check(x == y, "maps-differ", lambda: f"inverse, {o}: {x}, read: {y}\n{what()}")
    with elsewhere(sim):
        other = load(sim, Bijection, text)
        images = {}
        for n in range(6):
            if sum(s1.root.truth(n).values()) > 20:
                break
            for o in s1.root.lang.words(n):
                images[o] = other.map(o)
        images = list(images.items())
    for o, y in images:
        sim.check(b.map(o) == y, "maps-differ", lambda: f"{o}: {b.map(o)}, elsewhere {y}\n{what()}")
    sim.log("mapped", tot)
    if tot >= 10:
        sim.nontrivial = True
