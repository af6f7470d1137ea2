"""Generated integer universes: nodes, strategies over them, packs, searchers."""

from comb_spec_searcher import StrategyPack

from .ints import Known, Node, Step, StepFactory


class Universe:
    def __init__(self, n, empties):
        self.n = n
        self.empties = set(empties)
        self.nodes = [Node(i, i in self.empties) for i in range(n)]
        self.steps = []  # every Step, also those inside factories
        self.knowns = []
        self.pack = None
        self.start = self.nodes[0]


def _children(sim, u, p, arity, all_nonempty):
    full = [i for i in range(u.n) if i not in u.empties]
    cs = []
    for _ in range(arity):
        if all_nonempty:
            cs.append(sim.pick(full))
        else:
            cs.append(sim.draw(u.n))
    if cs and all(c in u.empties for c in cs):
        cs[sim.draw(len(cs))] = sim.pick(full)
    return cs


def gen_step(sim, u, name, *, kind=None, dens=None, unary_bias=False, ignore_ok=True):
    """A strategy over the universe.  Kinds: 'union' (zero shifts, an equivalence when one
    child is not empty), 'oneway' (unary, not reversible), 'gen' (any shifts, no empties)."""
    if kind is None:
        kind = sim.weighted([("union", 5), ("oneway", 2), ("gen", 4)])
    dens = dens or sim.pick([2, 1, 2, 3, 5])
    rows = {}
    smax = sim.pick([0, 1, 1, 2])
    if kind == "union":
        two = not sim.chance(1, 5)
        rev = two or sim.chance(1, 3)
        eqv = True
        poss = True
    elif kind == "oneway":
        two, rev, eqv, poss = False, False, sim.chance(1, 2), sim.chance(1, 2)
    else:
        two = sim.chance(1, 2)
        rev = two or sim.chance(1, 2)
        eqv = sim.chance(1, 3)
        poss = sim.chance(1, 3)
    for i in range(u.n):
        if i in u.empties and not sim.chance(1, 6):
            continue
        if sim.draw(dens) != 0 and not (i == 0 and sim.chance(1, 2)):
            continue
        if kind == "oneway":
            ar = 1
        elif kind == "union":
            ar = sim.pick([1, 2, 1, 2, 3] if not unary_bias else [1, 1, 2])
        else:
            ar = sim.pick([2, 1, 2, 3])
        if ar == 3 and not unary_bias and sim.chance(1, 12):
            ar = sim.int(4, 6)
        if i in u.empties:
            # an empty class splits into empty classes
            es = sorted(u.empties)
            cs = [sim.pick(es) for _ in range(ar)]
            poss = True
        else:
            cs = _children(sim, u, i, ar, all_nonempty=(kind == "gen" or not poss))
        if ar == 1 or kind == "union":
            ss = [0] * ar
        else:
            ss = [sim.int(0, smax) for _ in range(ar)]
        rows[i] = ([(c, c in u.empties) for c in cs], ss)
    st = Step(
        name,
        rows,
        two_way=two,
        reversible=rev,
        eqv=eqv,
        possibly_empty=poss,
        inferrable=not sim.chance(1, 4),
        workable=not sim.chance(1, 6),
        ignore_parent=ignore_ok and sim.chance(1, 8),
    )
    u.steps.append(st)
    return st


def gen_symmetry(sim, u, name):
    """A bijection of the classes onto themselves, emptiness preserved."""
    full = [i for i in range(u.n) if i not in u.empties]
    es = sorted(u.empties)
    rows = {}
    for grp in (full, es):
        img = list(grp)
        # a product of a few transpositions
        for _ in range(sim.draw(3)):
            if len(img) > 1:
                a, b = sim.draw(len(img)), sim.draw(len(img))
                img[a], img[b] = img[b], img[a]
        for a, b in zip(grp, img):
            rows[a] = ([(b, b in u.empties)], [0])
    st = Step(name, rows, inferrable=False, possibly_empty=False, workable=False)
    u.steps.append(st)
    return st


def gen_factory(sim, u, name, *, foreign=True, lazy=True, foreign_in_key=False, verify=True):
    """A factory over fresh steps, with ready, foreign-parent and lazy rules."""
    steps = [gen_step(sim, u, f"{name}.{j}", ignore_ok=False) for j in range(sim.int(1, 3))]
    plan = {}
    for i in range(u.n):
        items = []
        for k, st in enumerate(steps):
            if sim.chance(2, 3):
                r = sim.draw(5)
                if r < 2:
                    items.append(("s", k))
                elif r < 4:
                    items.append(("r", k))
                elif lazy:
                    items.append(("l", k))
        if foreign and sim.chance(1, 2) and not (foreign_in_key and i in u.empties):
            k = sim.draw(len(steps))
            cands = []
            for p in range(u.n):
                if p in u.empties or p not in steps[k].rows:
                    continue
                kids = [c.i for c in steps[k].rows[p][0]]
                if i in kids or not foreign_in_key:
                    cands.append(p)
            if cands:
                p = sim.pick(cands)
                items.append(("f", k, (p, p in u.empties)))
        if items:
            plan[i] = items
    strats = list(steps)
    if verify and sim.chance(1, 3):
        # the factory also hands out verification rules, some for other classes
        ids = [i for i in range(1, u.n) if i not in u.empties and sim.chance(1, 3)]
        if ids:
            u.knowns.append(Known(f"{name}.v", ids, ignore_parent=sim.chance(1, 2)))
            strats.append(u.knowns[-1])
            for i in range(u.n):
                mode = sim.draw(5)
                if mode < 2:
                    item = ("sr"[mode], len(steps))
                elif mode == 2 and foreign and (not foreign_in_key or i in ids):
                    p = i if foreign_in_key else sim.pick(ids)
                    item = ("f", len(steps), (p, False))
                else:
                    continue
                items = plan.setdefault(i, [])
                items.insert(sim.draw(len(items) + 1), item)
    return StepFactory(name, strats, plan)


def gen_universe(sim, *, iterative=None, max_nodes=9, foreign=True, lazy=True,
                 foreign_in_key=False, symmetries=None, factories=True, verify=True,
                 max_strats=5, min_nodes=2):
    sim.plain = sim.chance(1, 3)
    if sim.chance(1, 50):
        max_nodes, max_strats = 3 * max_nodes, 2 * max_strats
        sim.probe("large_universe")
    n = sim.int(min_nodes, max_nodes)
    empties = [i for i in range(1, n) if sim.chance(1, 6)]
    u = Universe(n, empties)
    inf, ini, exp, ver, sym = [], [], [], [], []
    k = sim.int(1, max_strats)
    for j in range(k):
        if factories and sim.chance(1, 4):
            st = gen_factory(sim, u, f"f{j}", foreign=foreign, lazy=lazy,
                             foreign_in_key=foreign_in_key, verify=verify)
        else:
            st = gen_step(sim, u, f"s{j}")
        where = sim.draw(4)
        if where == 0:
            ini.append(st)
        elif where == 1 and exp:
            exp[-1].append(st)
        else:
            exp.append([st])
    for j in range(sim.draw(3)):
        # inferral strategies are equivalences
        inf.append(gen_step(sim, u, f"i{j}", kind=sim.pick(["union", "oneway"]), unary_bias=True,
                            dens=3, ignore_ok=False))
    for st in inf:
        for i, (cs, ss) in list(st.rows.items()):
            st.rows[i] = (cs[:1], ss[:1])
            if len(cs) > 1 and cs[0].i in u.empties and i not in u.empties:
                c = next(c for c in cs if c.i not in u.empties)
                st.rows[i] = ((c,), ss[:1])
    if symmetries if symmetries is not None else sim.chance(1, 3):
        for j in range(sim.int(1, 2)):
            sym.append(gen_symmetry(sim, u, f"y{j}"))
    if verify:
        full = [i for i in range(n) if i not in u.empties]
        for j in range(sim.int(1, 2)):
            ids = [i for i in full if i != 0 and sim.chance(1, 4)]
            if sim.chance(1, 20):
                ids.append(0)
            ver.append(Known(f"v{j}", ids, ignore_parent=sim.chance(1, 2)))
            u.knowns.append(ver[-1])
    u.iterative = sim.chance(1, 4) if iterative is None else iterative
    u.pack = StrategyPack(
        initial_strats=ini, inferral_strats=inf, expansion_strats=exp, ver_strats=ver,
        name="int", symmetries=sym, iterative=u.iterative,
    )
    return u


def derivations(u):
    """Every (strategy, parent node) whose rule the pack of the universe can produce, read
    from the tables and not from the library."""
    res = []
    p = u.pack
    tops = [*p.initial_strats, *p.inferral_strats, *(s for g in p.expansion_strats for s in g),
            *p.ver_strats, *p.symmetries]
    for top in tops:
        for nd in u.nodes:
            if isinstance(top, Known):
                if nd.i in top.ids and not nd.empty:
                    res.append((top, nd))
            elif isinstance(top, Step):
                if nd.i in top.rows:
                    res.append((top, nd))
            else:
                for item in top.plan.get(nd.i, ()):
                    st = top.strats[item[1]]
                    par = Node(*item[2]) if item[0] == "f" else nd
                    if par.i in (st.ids if isinstance(st, Known) else st.rows):
                        res.append((st, par))
    seen, out = set(), []
    for st, nd in res:
        if (st.name, nd.i) not in seen:
            seen.add((st.name, nd.i))
            out.append((st, nd))
    return out
