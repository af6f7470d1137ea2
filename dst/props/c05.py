"""C05: pruning-based detection and proof-tree search are exact."""

import pickle
from itertools import islice

from comb_spec_searcher import CombinatorialSpecificationSearcher, StrategyPack
from comb_spec_searcher import tree_searcher as ts
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForgetStrategy
from comb_spec_searcher.strategies import VerificationRule

from ..intgen import gen_universe
from ..ints import Known, Node, Step
from ..oracles import derivable, min_tree_nodes, prune_gfp, sccs

RUNS = {"quick": 16000, "thorough": 100000}
RULE = (
    "One run = (a) integer rule dictionaries handed to prune, iterative_prune and every"
    " tree finder with all random choices and the clock decided by the scheduler; (b) a"
    " history of rule insertions into RuleDB/RuleDBForgetStrategy linked to a searcher, or a"
    " real search over a generated integer universe, with the detection compared with a"
    " greatest fixed point (iterative: bottom-up derivation) over independently recorded and"
    " cleaned rules after insertions, proof trees of every option checked, 'smallest'"
    " compared with an exact branch and bound, and pickle restarts. Non-trivial: the start"
    " class changed from not specified to specified in the course of a history."
)
STATES = "distinct (rules up to equivalence, start class, iterative) states"
REAL = ["prune", "iterative_prune", "tree finders", "RuleDB", "RuleDBForgetStrategy",
        "EquivalenceDB", "CombinatorialSpecificationSearcher", "DefaultQueue", "ClassDB"]
STUB = ["integer classes and table strategies", "clock", "random"]
ASSUME = ["dictionaries of at most 9 labels; universes of at most 9 classes",
          "the size of a proof tree is its number of nodes (len), as the option computes it",
          "iterative_proof_tree_bfs, which nothing calls, need not return: judged if it does"]
MUST_HIT = ["became_specified", "iterative_specified", "root_merged_iterative", "smallest_improves",
            "bfs_tree", "dfs_tree", "restart", "real_search", "equivalence_used", "forget",
            "not_specified"]


def check_tree(sim, node, rules, root, where, name=lambda l: l, iterative=False):
    """Every expanded label has one rule, recorded; every leaf has a rule."""
    sim.check(name(node.label) == root, "tree-root", lambda: f"{where}: {node} not for {root}")
    expanded, leaves = {}, set()
    stack = [node]
    seen = set()
    while stack:
        v = stack.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        lab = name(v.label)
        if v.children:
            key = tuple(sorted(name(c.label) for c in v.children))
            if lab in expanded:
                sim.check(expanded[lab] == key, "tree-two-rules",
                          lambda: f"{where}: {lab} has rules {expanded[lab]} and {key} in {node}; {rules}")
            expanded[lab] = key
            sim.check(key in rules.get(lab, ()), "tree-foreign-rule",
                      lambda: f"{where}: {lab} -> {key} in {node} is not recorded: {rules}")
            stack.extend(v.children)
        else:
            leaves.add(lab)
    for l in leaves:
        if l in expanded:
            if iterative:
                sim.check(l == root, "iterative-recursion",
                          lambda: f"{where}: recursion to {l} in {node}")
            continue
        sim.check(() in rules.get(l, ()), "tree-open-leaf",
                  lambda: f"{where}: leaf {l} in {node} has no rule; {rules}")
    return expanded


def gen_dict(sim):
    n = sim.int(1, sim.pick([3, 5, 7, 9]))
    rules = {}
    labels = sim.shuffled(range(n))
    dens = sim.pick([1, 2, 3])
    many = sim.draw(n) if sim.chance(1, 4) else None
    for l in labels:
        k = sim.draw(dens + 1)
        if l == many:
            k = sim.int(5, 14)
        s = set()
        for _ in range(k):
            ar = sim.pick([1, 2, 2, 3, 0])
            s.add(tuple(sorted(sim.draw(n) for _ in range(ar))))
        if sim.chance(1, 6):
            s.add(())
        if s:
            rules[l] = s
    return n, rules


def copyd(r):
    return {k: set(v) for k, v in r.items()}


class Spent(Exception):
    pass


class Budget(dict):
    """Rules that can be looked up so often only."""

    left = 400

    def __getitem__(self, k):
        self.left -= 1
        if self.left < 0:
            raise Spent
        return super().__getitem__(k)


def dict_history(sim):
    n, rules = gen_dict(sim)
    sim.log("dict", sorted((k, sorted(v)) for k, v in rules.items()))
    mine = prune_gfp(rules)
    lib = copyd(rules)
    ts.prune(lib)
    sim.check({k: set(v) for k, v in lib.items()} == mine, "prune-differs",
              lambda: f"{rules}: prune {lib}, fixed point {mine}")
    root = sim.draw(n)
    known, ok = derivable(rules, root)
    it = ts.iterative_prune(copyd(rules), root=root)
    sim.check({k for k, v in it.items() if v} == known, "iterative-prune-differs",
              lambda: f"{rules} root {root}: {dict(it)}, derivable {known}")
    for k, v in it.items():
        for e in v:
            sim.check(e in rules[k] and all(c in known or c == root for c in e),
                      "iterative-prune-rule", lambda: f"{k} -> {e} of {rules}")
    kn0, _ = derivable(rules, None)
    it0 = ts.iterative_prune(copyd(rules), root=None)
    sim.check({k for k, v in it0.items() if v} == kn0, "iterative-prune-differs",
              lambda: f"{rules} no root: {dict(it0)}, derivable {kn0}")
    sim.state(("d", sorted((k, sorted(v)) for k, v in rules.items()), root))
    if ok:
        sim.probe("iterative_specified")
        tree = ts.iterative_proof_tree_finder({k: set(v) for k, v in it.items()}, root=root)
        exp = check_tree(sim, tree, rules, root, "iterative finder", iterative=True)
        well_founded(sim, tree, root)
        try:
            tree = ts.iterative_proof_tree_bfs(Budget(it), root)
        except Spent:
            sim.probe("iterative_bfs_endless")
        else:
            sim.probe("iterative_bfs_tree")
            check_tree(sim, tree, rules, root, "iterative bfs", iterative=True)
            well_founded(sim, tree, root)
    if root not in mine:
        sim.probe("not_specified")
        return
    for _ in range(3):
        check_tree(sim, ts.random_proof_tree(copyd(mine), root), mine, root, "random")
    _, tree = ts.proof_tree_dfs(copyd(mine), root)
    check_tree(sim, tree, mine, root, "dfs")
    sim.draw_clock()
    tree = ts.smallish_random_proof_tree(copyd(mine), root, sim.pick([0, 0.01, 1, 10]))
    check_tree(sim, tree, mine, root, "smallish")
    small, exact = min_tree_nodes(mine, root)
    sizes = []
    for tree in islice(ts.proof_tree_generator_dfs(copyd(mine), root), 40):
        check_tree(sim, tree, mine, root, "dfs generator")
        sim.probe("dfs_tree")
        sizes.append(len(tree))
    # breadth-first trees repeat subtrees: their size is exponential in the depth
    for tree in islice(ts.proof_tree_generator_bfs(copyd(mine), root), 40 if len(mine) <= 5 else 0):
        check_tree(sim, tree, mine, root, "bfs generator")
        sim.probe("bfs_tree")
        sizes.append(len(tree))
    if exact:
        for s in sizes:
            sim.check(s >= small, "tree-too-small", lambda: f"{s} < {small}")
        if len(mine) <= 6:
            for mx in sorted({small - 1, small, small + 2}):
                got = next(ts.proof_tree_generator_dfs(copyd(mine), root, maximum=mx), None)
                if mx < small:
                    sim.check(got is None, "bounded-generator",
                              lambda: f"size {len(got)} tree {got} for bound {mx}, minimum {small}")
                else:
                    sim.check(got is not None and len(got) <= mx, "bounded-generator",
                              lambda: f"bound {mx}, minimum {small}: {got}; {mine} root {root}")
                    check_tree(sim, got, mine, root, "bounded dfs generator")


def well_founded(sim, tree, root):
    """An iterative tree: following children from any node comes to leaves."""
    onpath = set()

    def go(v, depth):
        sim.check(depth < 400, "iterative-not-well-founded", "too deep")
        for c in v.children:
            if c.children:
                sim.check(c.label != root, "iterative-root-expanded-inside", lambda: str(tree))
                go(c, depth + 1)

    go(tree, 0)
    return onpath


class Ledger:
    """An independent record of what was inserted."""

    def __init__(self, sim, start):
        self.sim = sim
        self.start = start
        self.rules = set()  # (start, cleaned ends)
        self.edges = set()
        self.labels = {start}

    def add(self, start, ends, rule):
        kids = []
        for c, l in zip(rule.children, ends):
            self.labels.add(l)
            if rule.possibly_empty and c.empty:
                continue
            kids.append(l)
        kids = tuple(sorted(kids))
        self.labels.add(start)
        if len(kids) == 1:
            self.edges.add((start, kids[0]))
            if rule.is_two_way():
                self.edges.add((kids[0], start))
        self.rules.add((start, kids))

    def view(self):
        """(component map, rules up to equivalence, start component)"""
        comp = sccs(sorted(self.labels), self.edges)
        name = {l: min(c) for l, c in comp.items()}
        rules = {}
        for s, e in self.rules:
            if len(e) == 1 and name[s] == name[e[0]]:
                continue
            rules.setdefault(name[s], set()).add(tuple(sorted(name[x] for x in e)))
        return name, rules, name[self.start]


class Spied:
    """Wraps ruledb.add of one searcher."""

    def __init__(self, css, ledger):
        self.ledger = ledger
        self.attach(css)

    def attach(self, css):
        db = css.ruledb
        orig = type(db).add
        ledger = self.ledger

        class Spy(type(db)):
            def add(self, start, ends, rule):
                ledger.add(start, ends, rule)
                return orig(self, start, ends, rule)

        Spy.__name__ = type(db).__name__
        Spy.__qualname__ = type(db).__qualname__
        self.plain = type(db)
        db.__class__ = Spy

    def restart(self, sim, css):
        """Pickle the searcher and take the restored one."""
        css.ruledb.__class__ = self.plain
        new = pickle.loads(pickle.dumps(css))
        sim.fault("restart")
        sim.probe("restart")
        self.attach(new)
        return new


def expected(sim, ledger, iterative):
    name, rules, root = ledger.view()
    if iterative:
        known, ok = derivable(rules, root)
        alive = known
    else:
        alive = set(prune_gfp(rules))
        ok = root in alive
    return name, rules, root, alive, ok


def check_db(sim, css, ledger, iterative, deep):
    db = css.ruledb
    name, rules, root, alive, ok = expected(sim, ledger, iterative)
    got = bool(db.has_specification())
    sim.check(got == ok, "detection-differs",
              lambda: f"has_specification {got}, expected {ok}; start {root} iterative={iterative}"
                      f" rules up to equivalence {rules}; inserted {sorted(ledger.rules)} edges {sorted(ledger.edges)}")
    sim.state((sorted((k, sorted(v)) for k, v in rules.items()), root, iterative))
    for l in sorted(ledger.labels):
        want = name[l] in alive
        v = bool(db.is_verified(l))
        # in iterative mode a class derived from the start class stays verified
        # when both turn out to be equivalent, so only one direction is exact
        sim.check(v == want or (iterative and v), "verified-differs",
                  lambda: f"label {l} verified {v}, expected {want}; rules {rules} start {root} iterative={iterative}")
    if not ok:
        sim.probe("not_specified")
        try:
            css.get_specification()
        except SpecificationNotFound:
            pass
        else:
            sim.fail("specification-from-nothing", "get_specification returned")
        return ok
    if iterative:
        sim.probe("iterative_specified")
        if len([l for l in name if name[l] == root]) > 1:
            sim.probe("root_merged_iterative")
    if len(set(name.values())) < len(name):
        sim.probe("equivalence_used")
    if not deep:
        return ok
    nm = lambda l: name.get(l, l)
    getter = getattr(db, "_get_specification_node", None)
    if getter is not None:
        lim = sim.pick([0.0, 0.01, 1.0])
        node = getter(lim, False)
        check_tree(sim, node, rules, root, "specification node", nm, iterative)
        if not iterative:
            small, exact = min_tree_nodes(rules, root, 8000)
            if exact and small <= 16:
                best = getter(lim, True)
                check_tree(sim, best, rules, root, "smallest node", nm)
                sim.check(len(best) == small, "smallest-not-minimum",
                          lambda: f"size {len(best)}, minimum {small}: {best}; rules {rules} root {root}")
                if len(node) > small:
                    sim.probe("smallest_improves")
    alln = getattr(db, "_all_nodes", None)
    if alln is not None and not iterative and sim.chance(1, 3):
        for node in islice(alln(), 10):
            check_tree(sim, node, rules, root, "all nodes", nm)
    return ok


def mk_db(sim):
    if sim.chance(1, 3):
        sim.probe("forget")
        return RuleDBForgetStrategy()
    return RuleDB()


def insert_history(sim):
    n, rules = gen_dict(sim)
    iterative = sim.chance(1, 2)
    nodes = [Node(i, i > 0 and sim.chance(1, 6)) for i in range(n)]
    ops = []
    strats = []
    for p, es in rules.items():
        for e in es:
            ops.append((p, e))
    # two-way and one-way edges
    for _ in range(sim.draw(2 * n + 1)):
        ops.append((sim.draw(n), (sim.draw(n),)))
    ops = sim.shuffled(ops)
    built = []
    for j, (p, e) in enumerate(ops):
        if nodes[p].empty:
            continue
        if e and all(nodes[c].empty for c in e):
            continue
        if not e:
            if sim.chance(1, 2):
                st = Known(f"k{j}", [p])
            else:
                st = Step(f"s{j}", {p: ([], [])}, two_way=False, reversible=False)
        else:
            two = sim.chance(1, 2)
            st = Step(f"s{j}", {p: ([(c, nodes[c].empty) for c in e], [0] * len(e))},
                      two_way=two, reversible=two,
                      possibly_empty=any(nodes[c].empty for c in e) or sim.chance(1, 2))
        built.append((p, st))
        strats.append(st)
    pack = StrategyPack([s for s in strats if not isinstance(s, Known)], [], [],
                        [s for s in strats if isinstance(s, Known)] or [Known("none", [])],
                        name="x", iterative=iterative)
    # the strategies never apply on their own: the searcher is never asked to expand
    startpack_ver = [s for s in strats if isinstance(s, Known)]
    css = CombinatorialSpecificationSearcher(
        nodes[0],
        StrategyPack([], [], [], [Known("none", [])], name="x", iterative=iterative),
        ruledb=RuleDB(),
    ) if not sim.chance(1, 3) else None
    if css is None:
        # memory-saving database: the pack must be able to rebuild the rules
        sim.probe("forget")
        css = CombinatorialSpecificationSearcher(nodes[0], pack, ruledb=RuleDBForgetStrategy())
    for i in sim.shuffled(range(n)):
        css.classdb.get_label(nodes[i])
    ledger = Ledger(sim, css.start_label)
    # the start class may have been verified already when the searcher was made
    if startpack_ver and css.strategy_pack is pack:
        for st in startpack_ver:
            if 0 in st.ids:
                ledger.add(css.start_label, (), st(nodes[0]))
    spy = Spied(css, ledger)
    was = False
    for idx, (p, st) in enumerate(built):
        rule = st(nodes[p])
        lab = css.classdb.get_label
        css.ruledb.add(lab(nodes[p]), tuple(map(lab, rule.children)), rule)
        sim.log("add", p, [c.i for c in rule.children], rule.is_two_way())
        if sim.chance(1, 12):
            css = spy.restart(sim, css)
        if sim.chance(1, 6):
            continue
        ok = check_db(sim, css, ledger, iterative, deep=sim.chance(1, 3))
        sim.check(not (was and not ok), "detection-not-monotone", "")
        if ok and not was and idx:
            sim.nontrivial = True
            sim.probe("became_specified")
        was = ok
    check_db(sim, css, ledger, iterative, deep=True)


def search_history(sim):
    u = gen_universe(sim, max_nodes=8)
    db = mk_db(sim)
    css = CombinatorialSpecificationSearcher.__new__(CombinatorialSpecificationSearcher)
    start = 0
    ledger = Ledger(sim, start)
    # the database must be spied on before the searcher starts to use it
    cls = type(db)

    class Spy(cls):
        def add(self, start, ends, rule):
            ledger.add(start, ends, rule)
            return cls.add(self, start, ends, rule)

    Spy.__name__, Spy.__qualname__ = cls.__name__, cls.__qualname__
    db.__class__ = Spy
    css = CombinatorialSpecificationSearcher(u.start, u.pack, ruledb=db,
                                             expand_verified=sim.chance(1, 2))
    sim.probe("real_search")
    iterative = u.iterative
    was = False
    sim.draw_clock()
    for _ in range(sim.int(1, 6)):
        mode = sim.draw(3)
        try:
            if mode == 0:
                css.do_level()
            else:
                if was:
                    break
                # a search that is stopped by its time limit after few packets
                css.auto_search(max_expansion_time=sim.pick([0.0, 0.01, 5.0]),
                                smallest=(not iterative and sim.chance(1, 3)))
        except NoMoreClassesToExpandError:
            sim.log("exhausted")
            check_db(sim, css, ledger, iterative, deep=True)
            break
        except (ExceededMaxtimeError, SpecificationNotFound) as e:
            sim.log(type(e).__name__)
        ok = check_db(sim, css, ledger, iterative, deep=sim.chance(1, 2))
        sim.check(not (was and not ok), "detection-not-monotone", "")
        if ok and not was:
            sim.probe("became_specified")
            sim.nontrivial = True
        was = ok


def body(sim):
    sim.salt = sim.draw(1 << 16)
    for _ in range(1 + sim.draw(3)):
        dict_history(sim)
    for _ in range(sim.draw(3)):
        insert_history(sim)
    if sim.chance(1, 2):
        search_history(sim)
