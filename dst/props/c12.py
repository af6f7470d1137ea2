"""C12: bijections between isomorphic specifications; the isomorphism test."""

import json

from comb_spec_searcher import CombinatorialSpecification, StrategyPack
from comb_spec_searcher.isomorphism import Bijection, Isomorphism
from comb_spec_searcher.strategies.rule import ReverseRule, VerificationRule

from .. import specs, trees, words
from ..core import Discard, InjectedFault
from ..wordgen import draw_pol, gen_class, gen_universe, make_searcher

RUNS = {"quick": 3000, "thorough": 150000}
RULE = (
    "One run = two to seven specifications of related classes: derivation trees of a small"
    " generated grammar and of a variant of it (children permuted, symbols copied, renamed,"
    " aliased, empty children added, sometimes one definition changed; or of near copies that"
    " differ in which of two twin symbols they refer to), or languages of words"
    " that are renamings of each other; written down from the definitions or found by searches"
    " with independently drawn packs, databases and schedules, some reloaded from JSON. The"
    " isomorphism test is asked of all ordered pairs (symmetry), of each with itself and its"
    " reloaded copy (reflexivity, when all verified classes are atoms), after interruptions as"
    " well. Each bijection constructed maps all objects of the sizes up to a bound in a drawn"
    " order, interrupted or not: sizes kept, images exactly the objects of the other class,"
    " inverse both ways. Non-trivial: a bijection between two different specifications whose"
    " map was checked on at least twenty objects."
)
STATES = "distinct pairs of rule-shape multisets that were compared"
REAL = ["Isomorphism", "ParseTreeMap", "Bijection", "CombinatorialSpecification", "rules and"
        " constructors (object maps, equiv)", "CombinatorialSpecificationSearcher and rule"
        " databases"]
STUB = ["tree and word classes and strategies (user code)", "clock", "random"]
ASSUME = ["grammars of at most 12 symbols, languages of small automata; at most 150 objects per"
          " bijection", "user constructors honour the contract of equiv"]
MUST_HIT = ["iso", "not-iso", "iso-different", "mapped", "mapped-path-one-side", "reloaded",
            "interrupted", "empty_child", "atom-equivalent", "permuted-order", "words", "trees",
            "index-data", "reflexive", "direct", "searched", "copy-chain", "reverse-rule",
            "statistics", "iso-statistics"]


def body(sim):
    words.reset()
    trees.reset()
    sim.salt = sim.draw(1 << 16)
    sim.plain = sim.chance(1, 4)
    if sim.chance(1, 4):
        sim.probe("words")
        ss = word_specs(sim)
    else:
        sim.probe("trees")
        ss = tree_specs(sim)
    if not ss:
        raise Discard("no specification")
    if sim.chance(1, 3):
        i = sim.draw(len(ss))
        ss.append(reload(ss[i]))
        sim.probe("reloaded")
    for s in ss:
        note(sim, s)
        sim.log("spec", getattr(s.root, "defs", s.root), [str(r.children) for r in s])
    res = {}
    pairs = [(i, j) for i in range(len(ss)) for j in range(len(ss))]
    for i, j in sim.shuffled(pairs):
        res[i, j] = ask(sim, ss[i], ss[j])
        sim.log("test", i, j, res[i, j])
    for i, j in pairs:
        sim.check(res[i, j] == res[j, i], "not-symmetric",
                  lambda: f"{res[i, j]} but {res[j, i]} in the other order\n"
                  f"{specs.describe(ss[i])}\n{specs.describe(ss[j])}")
        if i == j and atoms_only(ss[i]):
            sim.probe("reflexive")
            sim.check(res[i, i], "not-reflexive", lambda: specs.describe(ss[i]))
        sim.probe("iso" if res[i, j] else "not-iso")
        if res[i, j] and i != j and shape(ss[i]) != shape(ss[j]):
            sim.probe("iso-different")
        if res[i, j] and i != j and getattr(ss[i].root, "stats", ()) and set(
                ss[i].rules_dict) != set(ss[j].rules_dict):
            sim.probe("iso-statistics")
        if i < j:
            sim.state((shape(ss[i]), shape(ss[j])))
    good = [p for p in pairs if res[p] and (p[0] != p[1] or sim.chance(1, 4))]
    full = 0
    for i, j in sim.shuffled(good):
        check_bijection(sim, ss[i], ss[j], full < 3)
        full += 1


# ---------------------------------------------------------------------------
# specifications
# ---------------------------------------------------------------------------
def tree_specs(sim):
    twin = sim.chance(2, 5)
    grams = trees.twins(sim, sim.int(2, 6)) if twin else [trees.gen_grammar(sim)]
    for _ in range(0 if twin else sim.weighted([(1, 5), (2, 2), (0, 1)])):
        new, _ = trees.variant(sim, sim.pick(grams))
        grams.append(new)
    res = []
    for defs in grams:
        start = trees.G(defs, 0)
        k = sim.weighted([("direct", 30 if twin else 5), ("search", 1 if twin else 4)])
        spec = None
        if k == "direct":
            spec = CombinatorialSpecification(
                start, trees.direct_rules(sim, start, sim.draw(4) if sim.chance(1, 2) else 0))
            sim.probe("direct")
        else:
            spec = found(sim, start, trees.gen_pack(sim, brute=sim.chance(1, 8)))
        if spec is not None:
            res.append(spec)
    return res


def found(sim, start, pack):
    class U:
        pass

    u = U()
    u.start, u.pack = start, pack
    css, _ = make_searcher(sim, u, debug=False)
    sim.draw_clock()
    for spec in specs.search(sim, css, want=1, restarts=False):
        sim.probe("searched")
        return spec
    return None


def word_specs(sim):
    c = gen_class(sim, nstats=sim.weighted([(0, 4), (1, 2), (2, 2)]))
    sim.allow_lazy = False
    if c.stats and sim.chance(2, 3):
        return stat_specs(sim, c)
    res = []
    for k in range(2):
        if k and c.kind == "F" and len(c.al) > 1 and sim.chance(1, 2):
            x, y = sim.sample(c.al, 2)
            c = words.Permute(perm=x + y + y + x)._children(c)[0][0]
        elif k and sim.chance(1, 5):
            c = gen_class(sim, nstats=0)
        u = gen_universe(sim, start=c, packv=sim.chance(1, 6), brute=sim.chance(1, 6),
                         gates=sim.chance(1, 2))
        spec = found(sim, c, u.pack)
        if spec is not None:
            res.append(spec)
    return res


def stat_specs(sim, c):
    """The same pack with other orders of children and other ways with statistics."""
    c = words.W(*c.lkey(), stats=tuple(("k%d" % i, "".join(sim.sample(c.al, sim.int(1, len(c.al)))))
                                       for i in range(sim.int(1, 3))))
    pack = gen_universe(sim, start=c, packv=False, brute=False, gates=False,
                        extra=sim.chance(1, 3), symmetries=sim.chance(1, 4)).pack
    res = []
    for _ in range(sim.int(2, 4)):
        d = pack.to_jsonable()
        mixed(sim, d)
        spec = found(sim, c, StrategyPack.from_dict(d))
        if spec is not None:
            res.append(spec)
    if len(res) > 1:
        sim.probe("statistics")
    return res


def mixed(sim, d):
    if isinstance(d, dict):
        if "pol" in d and sim.chance(2, 3):
            d["pol"] = draw_pol(sim) if "Norm" not in str(d["strategy_class"]) else d["pol"]
        if "order" in d:
            d["order"] = sim.draw(4)
        if isinstance(d.get("style"), int) and sim.chance(1, 2):
            d["style"] ^= 4 if "letter" not in d else 0
        for x in d.values():
            mixed(sim, x)
    elif isinstance(d, list):
        for x in d:
            mixed(sim, x)


def reload(spec):
    return CombinatorialSpecification.from_dict(json.loads(json.dumps(spec.to_jsonable())))


def atoms_only(spec):
    return all(r.comb_class.lang.atom for r in spec if isinstance(r, VerificationRule))


def shape(spec):
    return tuple(sorted((type(r).__name__, type(r.strategy).__name__, len(r.children))
                        for r in spec))


def note(sim, spec):
    for r in spec:
        if any(x.lang.empty for x in r.children):
            sim.probe("empty_child")
        if r.children and r.comb_class.lang.atom:
            sim.probe("atom-equivalent")
        if isinstance(r, ReverseRule):
            sim.probe("reverse-rule")
        if len(getattr(r, "rules", ())) > 1:
            sim.probe("copy-chain")


# ---------------------------------------------------------------------------
# the test and the map
# ---------------------------------------------------------------------------
def ask(sim, s1, s2):
    if sim.chance(1, 8):
        sim.arm_interrupt(30)
        try:
            Isomorphism.check(s1, s2)
        except InjectedFault:
            sim.probe("interrupted")
        finally:
            sim.interrupt_at = None
    try:
        return bool(s1.are_isomorphic(s2) if sim.chance(1, 2) else Isomorphism.check(s1, s2))
    except InjectedFault:
        raise
    except Exception as e:  # pylint: disable=broad-except
        sim.fail("test-raised", f"{type(e).__name__}: {e}\n{specs.describe(s1)}\n"
                 f"{specs.describe(s2)}")


def check_bijection(sim, s1, s2, full):
    b = Bijection.construct(s1, s2) if sim.chance(1, 2) else s1.get_bijection_to(s2)
    if b is None:
        return
    if sim.chance(1, 4):
        b = Bijection.from_dict(json.loads(json.dumps(b.to_jsonable())))
    what = lambda: f"{specs.describe(s1)}\n{specs.describe(s2)}"  # noqa: E731
    one_sided = sum(any(r.is_equivalence() for r in s) for s in (s1, s2)) == 1
    for n in range(13):
        a, b_ = (sum(s.root.truth(n).values()) for s in (s1, s2))
        sim.check(a == b_, "not-a-bijection", lambda: f"{a} and {b_} objects of size {n}\n"
                  f"{what()}")
    if not full:
        return
    seen = 0
    sizes, tot = [], 0
    for n in range(13):
        tot += sum(s1.root.truth(n).values())
        if tot > 150:
            break
        sizes.append(n)
    if sim.chance(1, 2):
        sizes = sim.sample(sizes, min(5, len(sizes)))
    for n in sim.shuffled(sizes):
        left = objects(s1.root, n)
        right = objects(s2.root, n)
        if left is None or right is None:
            continue
        images = {}
        for o in sim.shuffled(left) if len(left) < 12 else left:
            images[o] = call(sim, b.map, o, what)
        sim.check(sorted(images.values(), key=repr) == sorted(right, key=repr), "not-a-bijection",
                  lambda: f"size {n}: {images}\nshould have the values {right}\n{what()}")
        for o, img in images.items():
            back = call(sim, b.inverse_map, img, what)
            sim.check(back == o, "inverse-wrong", lambda: f"{o} -> {img} -> {back}\n{what()}")
        for o in right[:25]:
            back = call(sim, b.inverse_map, o, what)
            there = call(sim, b.map, back, what)
            sim.check(there == o, "inverse-wrong", lambda: f"{o} -> {back} -> {there}\n{what()}")
        seen += len(left)
        sim.log("mapped", n, len(left))
    if seen:
        sim.probe("mapped")
        if one_sided:
            sim.probe("mapped-path-one-side")
    if b.to_jsonable()["index_data"]:
        sim.probe("index-data")
    if any(x != list(range(len(x))) for d in b.to_jsonable()["order"].values()
           for x in d.values()):
        sim.probe("permuted-order")
    if seen >= 20 and s1 is not s2:
        sim.nontrivial = True


def objects(c, n):
    if sum(c.truth(n).values()) > 150:
        return None
    return list(c.lang.words(n))


def call(sim, f, o, what):
    try:
        if sim.chance(1, 60):
            sim.arm_interrupt(6)
            try:
                return f(o)
            except InjectedFault:
                sim.probe("interrupted")
            finally:
                sim.interrupt_at = None
        return f(o)
    except InjectedFault:
        raise
    except Exception as e:  # pylint: disable=broad-except
        return sim.fail("map-raised", f"{f.__name__}({o}): {type(e).__name__}: {e}\n{what()}")

