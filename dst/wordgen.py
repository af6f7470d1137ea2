"""Generated word universes: a start class and a pack, both drawn from the tape."""

from comb_spec_searcher import (
    AtomStrategy,
    CombinatorialSpecificationSearcher,
    StrategyPack,
)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy

from . import words as W_
from .words import (
    ADD,
    ALT,
    DROP,
    MERGE,
    RENAME,
    REORDER,
    AtomV,
    Blow,
    BruteV,
    DyckCut,
    DyckSplit,
    Expand,
    FirstLetter,
    Front,
    Mirror,
    PackV,
    Permute,
    PermuteFactory,
    Reduce,
    SplitLetter,
    StatNorm,
    W,
    WFactory,
)


class Universe:
    def __init__(self, start, pack):
        self.start = start
        self.pack = pack
        self.note = {}


def gen_class(sim, letters=None, nstats=None, dyck=True):
    """A start class."""
    if dyck and sim.chance(1, 5):
        h = sim.pick([-1, 1, 2, 3])
        c = W(sim.pick("DDP"), "ab", h=h)
        al = "ab"
    else:
        al = "abc"[: letters or sim.weighted([(2, 6), (3, 4), (1, 1)])]
        top = {1: 4, 2: 4, 3: 3}[len(al)]
        av = []
        for _ in range(sim.weighted([(0, 1), (1, 5), (2, 4), (3, 2)])):
            av.append("".join(sim.pick(al) for _ in range(
                sim.weighted([(2, 5), (3, 4), (1, 1), (4, 1)]) if top > 3
                else sim.weighted([(2, 5), (1, 1), (3, 2)]))))
        if av and sim.chance(1, 4):
            av.append(av[0] + sim.pick(al))
        p = "" if sim.chance(2, 3) else "".join(
            sim.pick(al) for _ in range(sim.int(1, 2)))
        must = sim.pick(al) if sim.chance(1, 6) else ""
        c = W("F", al, p, av, must)
    k = nstats if nstats is not None else sim.weighted([(0, 5), (1, 4), (2, 4), (3, 1)])
    names = sim.shuffled(["k0", "k1", "k2"])[:k]
    stats = []
    for name in names:
        s = "".join(x for x in "abc" if x in al and sim.chance(1, 2)) or sim.pick(al)
        stats.append((name, s))
    return W(*c.lkey(), tuple(stats))


def draw_pol(sim, stats=True):
    if not stats:
        return 0
    return sim.weighted([(0, 6), (DROP, 3), (MERGE, 2), (DROP | MERGE, 3), (RENAME, 1),
                         (REORDER, 1), (DROP | MERGE | RENAME, 1), (MERGE | ALT, 1),
                         (DROP | ALT, 1), (RENAME | ALT, 1), (ADD, 1), (ADD | DROP, 1)])


def draw_gate(sim, num=1, den=5):
    if not sim.chance(num, den):
        return None
    mod = sim.pick([2, 3, 4])
    return (sim.draw(1 << 16), mod, mod - 1 if sim.chance(2, 3) else 1)


def draw_flags(sim, product=False, may_be_empty=True):
    fl = {}
    if sim.chance(1, 6):
        fl["ignore_parent"] = sim.chance(1, 2)
    if sim.chance(1, 6):
        fl["inferrable"] = sim.chance(1, 2)
    if sim.chance(1, 12):
        fl["workable"] = False
    if not may_be_empty and sim.chance(1, 4):
        fl["possibly_empty"] = False
    elif product and sim.chance(1, 8):
        fl["possibly_empty"] = True
    return fl


def complete(sim, c, gates=True, stats=True, reversible=True):
    """The strategies that suffice for a specification when no gate closes them."""
    st = bool(c.stats) and stats
    kw = lambda num=1, den=6: dict(  # noqa: E731
        pol=draw_pol(sim, st), gate=draw_gate(sim, num, den) if gates else None,
        reversible=not (reversible and sim.chance(1, 8)))
    if c.kind == "F":
        exp = Expand(order=sim.draw(4), **kw(), **draw_flags(sim))
        front = Front(style=sim.draw(8), **kw(1, 10),
                      **draw_flags(sim, product=True, may_be_empty=False))
        return [front, exp]
    return [DyckSplit(**kw(1, 10), **draw_flags(sim)),
            DyckCut(style=sim.draw(2), **kw(1, 10),
                    **draw_flags(sim, product=True, may_be_empty=False))]


def unary(sim, c, one_way=True):
    """An equivalence strategy."""
    way = dict(two_way=not (one_way and sim.chance(1, 5)),
               reversible=not (one_way and sim.chance(1, 8)))
    st = bool(c.stats)
    k = sim.weighted([(0, 4), (1, 3 if st else 0), (2, 2), (3, 2)])
    if c.kind != "F" and k != 1:
        k = 1
    fl = {"workable": True} if sim.chance(2, 3) else {}
    if sim.chance(1, 3):
        fl["possibly_empty"] = sim.chance(1, 2) and k < 2
    if k == 0:
        fl.pop("possibly_empty", None)
        return Reduce(pol=draw_pol(sim, st), **way, **fl)
    if k == 1:
        pol = sim.pick([DROP, MERGE, DROP | MERGE, RENAME, REORDER, RENAME | MERGE, RENAME | DROP, ADD])
        fl.pop("possibly_empty", None)
        return StatNorm(pol=pol, gate=draw_gate(sim, 1, 4), **way, **fl)
    if k == 2 and len(c.al) > 1:
        x, y = sim.sample(c.al, 2)
        return Permute(perm=x + y + y + x, pol=draw_pol(sim, st), gate=draw_gate(sim, 1, 4),
                       **way, **fl)
    return Mirror(pol=draw_pol(sim, st), gate=draw_gate(sim, 1, 4), **way, **fl)


def extras(sim, c):
    """More ways to decompose."""
    st = bool(c.stats)
    res = []
    for _ in range(sim.weighted([(0, 2), (1, 3), (2, 3), (3, 2), (4, 1)])):
        k = sim.draw(7)
        pol, gate = draw_pol(sim, st), draw_gate(sim, 1, 3)
        x = sim.pick(c.al)
        if k == 0:
            res.append(SplitLetter(letter=x, pol=pol, gate=gate, **draw_flags(sim)))
            res.append(FirstLetter(style=sim.draw(2), pol=draw_pol(sim, st), gate=draw_gate(sim, 1, 4),
                                   **draw_flags(sim, product=True, may_be_empty=False)))
        elif k == 1:
            res.append(SplitLetter(letter=x, pol=pol, gate=gate, **draw_flags(sim)))
        elif k == 2:
            res.append(FirstLetter(style=sim.draw(2), pol=pol, gate=gate,
                                   **draw_flags(sim, product=True, may_be_empty=False)))
        elif k == 3:
            if len(c.al) > 1:
                x, y = sim.sample(c.al, 2)
                res.append(Blow(pair=min(x, y) + max(x, y), gate=gate))
        elif k == 4:
            res.extend(complete(sim, c))
        elif k == 5:
            u = unary(sim, c)
            res.append(u)
        else:
            strats = complete(sim, c) + [SplitLetter(letter=x, pol=pol)]
            if sim.chance(1, 3) and len(c.al) > 1:
                strats.append(Blow(pair=c.al[:2]))
            strats = sim.shuffled(strats)
            modes = "".join(sim.pick("ssrlpt") for _ in strats)
            res.append(WFactory(f"f{sim.draw(100)}", strats, modes))
    return res


def plain_pack(sim, c, name):
    """A description of a pack that enumerates any class of the family."""
    strats = complete(sim, c, gates=False, reversible=False)
    strats = [s for s in strats]
    for s in strats:
        s._workable = True
        s._ignore_parent = False if isinstance(s, (Expand, DyckSplit)) else s._ignore_parent
    infer = [Reduce()] if sim.chance(1, 2) and c.kind == "F" else []
    if sim.chance(1, 2):
        return W_.describe(name, initial=strats, inferral=infer, ver=[AtomV()])
    return W_.describe(name, initial=strats[:1], inferral=infer, expansion=[strats[1:]],
                       ver=[AtomV()])


def gen_universe(sim, *, start=None, packv=True, brute=True, symmetries=True, inferral=True,
                 factories=True, iterative=None, gates=True, extra=True):
    c = start if start is not None else gen_class(sim)
    st = bool(c.stats)
    base = complete(sim, c, gates=gates)
    more = extras(sim, c) if extra else []
    if not factories:
        more = [s for s in more if not isinstance(s, WFactory)]
    slots = {"initial": [], "e1": [], "e2": []}
    for s in base + more:
        slots[sim.weighted([("initial", 3), ("e1", 3), ("e2", 1)])].append(s)
    for k in slots:
        slots[k] = sim.shuffled(slots[k])
    infer = []
    if inferral and sim.chance(1, 2):
        infer = [unary(sim, c) for _ in range(sim.int(1, 2))]
    sym = []
    if symmetries and sim.chance(1, 3):
        k = sim.draw(3)
        if k == 0 and len(c.al) > 1:
            x, y = sim.sample(c.al, 2)
            sym = [Permute(perm=x + y + y + x, pol=sim.pick([0, 0, RENAME, DROP]) if st else 0)]
        elif k == 1:
            sym = [Mirror()]
        elif factories:
            sym = [PermuteFactory(c.al)]
    ver = []
    blow = any(isinstance(s, Blow) for f in base + more
               for s in (f.strats if isinstance(f, WFactory) else [f]))
    if not c.stats and not blow and sim.chance(1, 2):
        ver.append(AtomStrategy())
    else:
        ver.append(AtomV(ignore_parent=sim.chance(1, 2)))
    if brute and sim.chance(1, 3):
        mod = sim.pick([3, 5, 9])
        ver.append(BruteV(gate=(sim.draw(1 << 16), mod, 1), ignore_parent=sim.chance(1, 2)))
    if packv and sim.chance(1, 4):
        mod = sim.pick([2, 3, 5])
        ver.append(PackV(gate=(sim.draw(1 << 16), mod, 1), direct=sim.chance(3, 4),
                         spec=plain_pack(sim, c, "inner")))
    ver = sim.shuffled(ver)
    if c.lang.empty:
        # only strategies that promise no child that is not empty
        for s in base + more + infer:
            for x in s.strats if isinstance(s, WFactory) else [s]:
                x._possibly_empty = True
        sym = []
    it = sim.chance(1, 8) if iterative is None else iterative
    pack = StrategyPack(
        initial_strats=slots["initial"],
        inferral_strats=infer,
        expansion_strats=[x for x in (slots["e1"], slots["e2"]) if x],
        ver_strats=ver,
        symmetries=sym,
        name="generated",
        iterative=it,
    )
    return Universe(c, pack)


DBS = ["ruledb", "forget", "forest", "forest-noreverse"]


def make_db(which):
    if which == "ruledb":
        return RuleDB()
    if which == "forget":
        return RuleDBForgetStrategy()
    return RuleDBForest(reverse=which == "forest")


def gen_any(sim, **args):
    """A universe of words, or of trees (any shape of rules, no statistics)."""
    if not sim.chance(1, 4):
        return gen_universe(sim, **args)
    from . import trees

    rank = sim.chance(1, 4)
    start = trees.G(trees.gen_grammar(sim), 0)
    sim.probe("trees")
    return Universe(start, trees.gen_pack(sim, brute=sim.chance(1, 6), share=sim.chance(1, 6),
                                          rank=rank, one_way=not rank))


def make_searcher(sim, u, which=None, debug=None):
    which = which or sim.weighted([("ruledb", 3), ("forget", 2), ("forest", 4),
                                   ("forest-noreverse", 2)])
    # minimising a forest takes quadratic time
    sim.max_applied = getattr(sim, "applied", 0) + (500 if which.startswith("forest") else 1200)
    sim.lazy_min = which != "forest" and getattr(sim, "allow_lazy", True) and sim.chance(1, 4)
    debug = sim.chance(1, 16) if debug is None else debug
    css = CombinatorialSpecificationSearcher(
        u.start, u.pack, ruledb=make_db(which), expand_verified=sim.chance(1, 3), debug=debug)
    sim.log("searcher", repr(u.start), which, "debug" if debug else "", repr(u.pack.name),
            u.pack.iterative)
    sim.log("pack", repr(u.pack))
    return css, which
