"""C13: the parallel specification finder."""

from comb_spec_searcher.bijection import EqPathParallelSpecFinder, ParallelSpecFinder
from comb_spec_searcher.isomorphism import Bijection, Isomorphism
from comb_spec_searcher.strategies.rule import VerificationRule

from .. import specs, trees, words
from ..core import Discard, InjectedFault
from ..wordgen import gen_class, gen_universe, make_searcher

RUNS = {"quick": 14000, "thorough": 300000}
RULE = (
    "One run = two searches of related classes (derivation trees of a generated grammar and of a"
    " variant of it; languages of words and renamings of them) with independently drawn packs"
    " (inferral and symmetries among them), each left alone or driven some way first, given to a"
    " parallel finder (either variant), interrupted in some runs and asked again. It must find"
    " nothing or two specifications, each of which is judged as in C01 and C02 for its own start"
    " class, and which are isomorphic. Non-trivial: a pair was found, and one start class is"
    " equivalent to another class of its universe or not the representative."
)
STATES = "distinct pairs of rule-shape multisets found"
REAL = ["ParallelSpecFinder", "EqPathParallelSpecFinder", "ParallelInfo", "specification"
        " extractors", "Isomorphism", "CombinatorialSpecification",
        "CombinatorialSpecificationSearcher", "RuleDB", "tree searcher"]
STUB = ["tree and word classes and strategies (user code)", "clock", "random"]
ASSUME = ["both searchers have a specification (else the finder says so with a ValueError), only"
          " atoms are verified (documented), the rule database is RuleDB (documented)",
          "the plain finder is given classes without statistics only: it assumes that classes"
          " with the same representative are equivalent (documented)"]
MUST_HIT = ["found", "nothing", "plain", "eqpath", "start-moved", "start-equivalent", "words",
            "trees", "interrupted", "ahead", "different-shape", "bijection", "share", "nonequivalent-step", "rank", "twin", "variant", "drained", "ambiguous", "single", "twice"]


def body(sim):
    words.reset()
    trees.reset()
    sim.salt = sim.draw(1 << 16)
    sim.plain = sim.chance(1, 4)
    if sim.chance(1, 4):
        sim.probe("words")
        us = word_universes(sim)
    else:
        sim.probe("trees")
        us = tree_universes(sim)
    sim.allow_lazy = False
    css = [make_searcher(sim, u, "ruledb", debug=False)[0] for u in us]
    for i, c in enumerate(css):
        if getattr(us[i], "drain", False) and sim.chance(3, 4):
            sim.probe("drained")
            specs.drain(c)
        elif sim.chance(1, 3):
            sim.draw_clock()
            sim.probe("ahead")
            for _ in specs.search(sim, c, want=1, restarts=False, maxlevels=2):
                pass
    plain = not any(u.start.extra_parameters or u.share for u in us) and sim.chance(1, 2)
    sim.probe("plain" if plain else "eqpath")
    if any(u.share for u in us):
        sim.probe("share")
    found = ask(sim, css, ParallelSpecFinder if plain else EqPathParallelSpecFinder)
    moved = False
    for c in css:
        label = c.classdb.get_label(c.start_class)
        if c.ruledb.equivdb[label] != label:
            sim.probe("start-moved")
            moved = True
        if any(c.ruledb.are_equivalent(label, x) for x in getattr(c.ruledb.equivdb, "parents", ())
               if x != label):
            sim.probe("start-equivalent")
            moved = True
    if found is None:
        sim.probe("nothing")
        sim.log("nothing")
        return
    sim.probe("found")
    sim.check(isinstance(found, tuple) and len(found) == 2, "no-pair", lambda: repr(found))
    for u, s in zip(us, found):
        sim.log("spec", [str(r.children) for r in s])
        if any(len(r.children) == 1 and not r.is_equivalence() for r in s):
            sim.probe("nonequivalent-step")
        specs.check_structure(sim, s, u.start, [u.pack])
        sizes = sim.shuffled(range(sim.int(3, 7)))
        specs.check_counts(sim, s, u.start, sizes)
        sim.check(all(r.comb_class.lang.atom for r in s if isinstance(r, VerificationRule)
                      and not r.comb_class.lang.empty), "not-atom", lambda: specs.describe(s))
    a, b = found
    what = lambda: specs.describe(a) + "\n" + specs.describe(b)  # noqa: E731
    sim.check(Isomorphism.check(a, b) and Isomorphism.check(b, a), "not-isomorphic", what)
    sim.state(tuple(sorted(map(shape, found))))
    if shape(a) != shape(b):
        sim.probe("different-shape")
    if Bijection.construct(a, b) is not None:
        sim.probe("bijection")
    if moved:
        sim.nontrivial = True


def shape(spec):
    return tuple(sorted((type(r).__name__, type(r.strategy).__name__, len(r.children))
                        for r in spec))


def ask(sim, css, cls):
    for attempt in range(3):
        if attempt < 2 and sim.chance(1, 6):
            sim.arm_interrupt(sim.pick([5, 60, 600]))
        try:
            finder = cls(*css)
            if sim.chance(1, 10):
                finder.find()
                sim.probe("twice")
                if sim.chance(1, 2):
                    finder = cls(*css)
            return finder.find()
        except InjectedFault:
            sim.probe("interrupted")
        except ValueError as e:
            if "No specifications were found" in str(e):
                has = [c.ruledb.has_specification() for c in css]
                sim.log("none", has)
                sim.check(not all(has), "not-total", lambda: f"{e}, but both have one")
                raise Discard("no specification") from e
            raise
        finally:
            sim.interrupt_at = None
    return cls(*css).find()


class U:
    def __init__(self, start, pack, share=False):
        self.start, self.pack, self.share = start, pack, share


def tree_universes(sim):
    kind = sim.weighted([("twin", 2), ("variant", 3), ("rank", 2), ("ambiguous", 3)])
    share = sim.chance(1, 3)
    rank = kind == "rank" or kind == "ambiguous" and sim.chance(1, 2)
    sim.probe(kind)
    if kind == "twin":
        grams = trees.twins(sim, 2)
    elif kind == "ambiguous":
        # many ways to match: every symbol several times, with other rules for each
        a = trees.nested(sim)
        shy = sim.shuffled([sim.int(1, 2), 2])
        grams = [trees.double(sim, a, x + sim.draw(2)) for x in shy]
    else:
        a = trees.gen_grammar(sim, 4 if rank else 7, copies=4 if share else 1)
        if rank:
            a = trees.double(sim, a, sim.int(2, 3))
        grams = [a, trees.variant(sim, a)[0]]
    if share and kind == "ambiguous" and sim.chance(2, 3):
        sim.probe("single")
        grams = [trees.with_copies(sim, g, True) for g in grams]
    elif share:
        both = sim.chance(1, 2)
        if both:
            grams[1] = grams[0]
        grams[0] = trees.with_copies(sim, grams[0])
        grams[1] = trees.other_copies(sim, grams[0]) if both else trees.with_copies(sim, grams[1])
    res = []
    for i, defs in enumerate(grams):
        if sim.chance(1, 4):
            # the start is a renaming
            defs = tuple(("Q", len(defs)) if i == 0 else trees._map(
                d, lambda c: len(defs) if c == 0 and sim.chance(1, 2) else c)
                for i, d in enumerate((*defs, defs[0])))
            defs = trees.repair(sim, defs)
        res.append(U(trees.G(defs, 0), trees.gen_pack(
            sim, share=share, rank=rank, shy=shy[i] if kind == "ambiguous" else 0), share))
        res[-1].drain = rank or kind == "ambiguous"
    if sim.chance(1, 8):
        res[1] = res[0]
    return res


def word_universes(sim):
    c = gen_class(sim, nstats=sim.weighted([(0, 5), (1, 2), (2, 1)]))
    res = []
    for k in range(2):
        if k and c.kind == "F" and len(c.al) > 1 and sim.chance(2, 3):
            x, y = sim.sample(c.al, 2)
            c = words.Permute(perm=x + y + y + x)._children(c)[0][0]
        u = gen_universe(sim, start=c, packv=False, brute=False, gates=sim.chance(1, 2))
        u.share = False
        res.append(u)
    return res
