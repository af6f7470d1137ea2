from mkbug import bug
H='/verif/tools/bugs/'
SMALL='''
import random
from fakedb import *

rng = random.Random(4)
done = 0
while done < 600:
    n = rng.randint(2, 6)
    rules = []
    for _ in range(rng.randint(n, 3 * n)):
        k = rng.choice((0, 1, 2, 2, 3))
        rules.append((rng.randrange(n), tuple(rng.randrange(n) for _ in range(k)), False))
    rules = [r for r in rules if r[1] != (r[0],)]
    rep, up = collapse(rules)
    alive = survivors(up)
    if rep.get(0) not in alive:
        continue
    done += 1
    want = sizes(alive, rep[0])
    for _ in range(3):
        random.seed(rng.random())
        got = len(make(0, rules)._get_smallest_node(0))
        assert got == want, (rules, got, want)
print("ok")
'''
bug('C05-dfs-budget','C05',[('tree_searcher.py','new_maximum = maximum - length if maximum is not None else None','new_maximum = maximum - length - 1 if maximum is not None else None')],
 'a rule with several children whose subtrees fill the size budget exactly','The depth first generator gives the later children one node too few, so trees of exactly the allowed size are missed and "smallest" is not the smallest.',SMALL,[H+'fakedb.py'])
bug('C05-iterative-root','C05',[('rule_db/base.py','rules_dict, root=self.equivdb[self.root_label]\n                )','rules_dict, root=self.root_label\n                )')],
 'an iterative pack and a root merged into a heavier equivalence component','The iterative pruning assumes the label of the root instead of the representative of its component, so specifications recursing to the root are missed once the root is not its own representative.','''
import random
from fakedb import *

rng = random.Random(4)
for case in range(6000):
    n = rng.randint(2, 6)
    rules = []
    for _ in range(rng.randint(2, 9)):
        k = rng.choice((0, 1, 1, 2, 2))
        rules.append((rng.randrange(n), tuple(rng.randrange(n) for _ in range(k)), rng.random() < 0.5))
    rules = [r for r in rules if r[1] != (r[0],)] + [(0, (0, 0), False)]
    rep, up = collapse(rules)
    db = make(0, rules, iterative=True)
    want = rep[0] in iterable(up, rep[0])
    assert db.has_specification() == want, (rules, want)
print("ok")
''',[H+'fakedb.py'])
bug('C05-stale-cache','C05',[('rule_db/base.py','''        self._pruned_dict = None
        ends = self._clean_labels(ends, rule)''','''        ends = self._clean_labels(ends, rule)
        if not self.contains(start, ends):
            self._pruned_dict = None''')],
 'a one-way rule is queried about, then added again as a two-way rule with the same key (the key is already known)','The cached pruned dictionary is kept when a known key is added again, although the rule may now be two-way and merge components.','''
import random
from fakedb import *

rng = random.Random(9)
for case in range(4000):
    n = rng.randint(2, 5)
    db, rules = make(0, []), []
    for _ in range(rng.randint(2, 14)):
        if rules and rng.random() < 0.3:
            s, e, _ = rng.choice(rules)
        else:
            k = rng.choice((0, 1, 1, 1, 2, 2))
            s, e = rng.randrange(n), tuple(sorted(rng.randrange(n) for _ in range(k)))
        if e == (s,):
            continue
        t = rng.random() < 0.5
        rules.append((s, e, t))
        db.add(s, e, Rule(e, t))
        rep, up = collapse(rules)
        alive = survivors(up)
        assert db.has_specification() == (rep.get(0) in alive), (rules,)
        for l in rep:
            assert db.is_verified(l) == (rep[l] in alive), (rules, l)
print("ok")
''',[H+'fakedb.py'])
bug('C14-one-way-strategy','C14',[('rule_db/forget.py','''                        if self.only_equiv and not rule.is_two_way():
                            continue
''','')],
 'two strategies giving the same rule key, the one-way one first in the pack and the two-way one later','The memory-saving store hands back a one-way strategy for a key of the equivalence store, unlike the default database.','''
from toy import *
S, T = R("[ab]*"), R("[ab]*", (), "t")
A, e = R("a"), R("")
TABLES["one"] = {S: (T,)}
TABLES["two"] = {S: (T,)}
TABLES["exp"] = {T: (e, R("a[ab]*"), R("b[ab]*"))}
TABLES["fac"] = {R("a[ab]*"): (A, S), R("b[ab]*"): (R("b"), S)}
pack = make_pack(initial=[OneWay("one"), P("fac")], expansion=[[U("two"), U("exp")]])
seen = {}
for db in ("plain", "forget"):
    css, spec = search(S, pack, db)
    check_spec(spec, S)
    seen[db] = {k: (str(v), v(css.classdb.get_class(k[0])).is_two_way()) for k, v in css.ruledb.eqv_rule_to_strategy.items()}
    assert seen[db] and all(two for _, two in seen[db].values()), seen
print("ok")
''',[H+'toy.py'])
bug('C11-find-by-labels','C11',[('rule_db/forest.py','''                if (
                    rule.forest_key(self.classdb.get_label, self.classdb.is_empty)
                    == rule_key
                ):
                    return rule
''','''                candidate = rule.forest_key(
                    self.classdb.get_label, self.classdb.is_empty
                )
                if candidate.key == rule_key.key:
                    return rule
''')],
 'two strategies of the pack giving rules with the same parent and children but different shifts (a union that loops and a productive product)','The recomputed rule is matched on its labels only, so the specification may contain a rule that is not the productive one that was selected.','''
from toy import *
from comb_spec_searcher.rule_db.forest import ForestRuleExtractor
# a* = a* + (empty union partner) is a loop; a* a product with the same children is not
S, A = R("a+"), R("a")
X = R("a*")
TABLES["uni"] = {S: (A, R("aa+")), X: (R(""), S)}
TABLES["loop"] = {R("aa+"): (A, S)}
TABLES["pro"] = {R("aa+"): (A, S)}


class Loop(U):
    """Claims to be a union, in the order of the product: same labels, other shifts."""


pack = make_pack(initial=[Loop("loop"), U("uni"), P("pro")], expansion=[])
css = CombinatorialSpecificationSearcher(X, pack, ruledb=RuleDBForest())
for _ in range(20):
    try:
        css.do_level()
    except Exception:
        break
ext = ForestRuleExtractor(css.start_label, css.ruledb, css.classdb, pack)
ext.check()
keys = set(ext.needed_rules)
rules = list(ext.rules(()))
got = {r.forest_key(css.classdb.get_label, css.classdb.is_empty) for r in rules}
assert got <= keys, (got, keys)
print("ok")
''',[H+'toy.py'])
bug('C04-foreign-start','C04',[('comb_spec_searcher.py','''            if rule.comb_class == comb_class:
                start_label = label
            else:
                start_label = self.classdb.get_label(rule.comb_class)
''','''            start_label = label
''')],
 'a strategy factory that yields a rule whose parent is not the class it was applied to','Every rule is recorded under the label of the class being expanded, even when a factory gives a rule for another class.','''
from toy import *
from comb_spec_searcher.strategies.strategy import StrategyFactory


class Foreign(StrategyFactory):
    def __call__(self, c):
        if c == S:
            yield U("exp")(T)

    @classmethod
    def from_dict(cls, d):
        return cls()

    def __repr__(self):
        return "Foreign()"

    __str__ = __repr__


S, T = R("[ab]*"), R("[ab]*", (), "t")
A, e = R("a"), R("")
TABLES["exp"] = {T: (e, R("a[ab]*"), R("b[ab]*"))}
TABLES["fac"] = {S: (T,)}
pack = make_pack(initial=[Foreign()], expansion=[])
for db in ("plain", "forget"):
    css = CombinatorialSpecificationSearcher(S, pack, ruledb=DBS[db]())
    try:
        css.do_level()
    except Exception:
        pass
    for start, ends in css.ruledb:
        if len(ends) == 3:
            assert css.classdb.get_class(start) == T, (start, ends)
            break
    else:
        raise AssertionError("rule missing")
print("ok")
''',[H+'toy.py'])
bug('C01-equiv-child-index','C01',[('strategies/rule.py','(original_constructor.extra_parameters[self.child_idx],),','(original_constructor.extra_parameters[0],),')],
 'a union with parameters in which only a later child is non-empty and the parameter maps of the children differ','The equivalence form of a union uses the parameter map of the first child whatever the non-empty child is.','''
from toy import *
S = R("[ab]*", (("k", "a"), ("l", "b")))
E = R("c(?!c)c", (("k", "a"),))
T = R("[ab]*", (("p", "a"), ("q", "b")), "t")
e = R("", (("p", "a"), ("q", "b")))
a, b = R("a", (("p", "a"), ("q", "b"))), R("b", (("p", "a"), ("q", "b")))
pa, pb = R("a[ab]*", (("p", "a"), ("q", "b"))), R("b[ab]*", (("p", "a"), ("q", "b")))
TABLES["eq"] = {S: (E, T)}
PARAMS[("eq", S)] = ({"k": "k"}, {"k": "p", "l": "q"})
TABLES["exp"] = {T: (e, pa, pb)}
TABLES["fac"] = {pa: (a, T), pb: (b, T)}


class AtomLike(Ver):
    pass


TABLES["at"] = {c: None for c in (e, a, b)}
pack = make_pack(initial=[U("eq"), P("fac"), U("exp")], expansion=[], ver=[Ver("at")])
for db in ("plain", "forget", "forest"):
    css, spec = search(S, pack, db)
    check_spec(spec, S)
print("ok")
''',[H+'toy.py'])
bug('C07-union-params','C07',[('strategies/constructor/disjoint.py','                yield (param_map(param), tuple(res))','                yield (param, tuple(res))')],
 'a union with parameters whose child has its parameters in another order or under fewer names','Objects of a union are filed under the parameters of the child instead of those of the parent.','''
from toy import *
S = R("[ab]*", (("k", "a"), ("l", "b")))
prm = (("q", "b"), ("p", "a"))
e, a, b, pa, pb = (R(x, prm) for x in ("", "a", "b", "a[ab]*", "b[ab]*"))
T = R("[ab]*", prm, "t")
TABLES["exp"] = {S: (e, pa, pb), T: (e, pa, pb)}
for i in (S,):
    PARAMS[("exp", i)] = ({"k": "p", "l": "q"},) * 3
TABLES["fac"] = {pa: (a, T), pb: (b, T)}
TABLES["at"] = {c: None for c in (e, a, b)}
pack = make_pack(initial=[P("fac"), U("exp")], expansion=[], ver=[Ver("at")])
css, spec = search(S, pack, "plain")
for n in range(5):
    objs = spec.get_objects(n)
    for k, v in true_terms(S, n).items():
        got = sorted(map(str, objs.get(k, [])))
        assert got == sorted(str(w) for w in S.words(n) if S.get_parameters(w) == k), (n, k, got)
        assert sorted(map(str, spec.generate_objects_of_size(n, **dict(zip(("k", "l"), k))))) == got
print("ok")
''',[H+'toy.py'])
SAMP='''
from toy import *
from comb_spec_searcher.strategies.constructor import cartesian, disjoint
from fractions import Fraction
import comb_spec_searcher.strategies.rule as rule_mod


class Enum:
    """A random source that walks through every sequence of answers."""

    def __init__(self, script):
        self.script, self.used, self.p = list(script), [], Fraction(1)

    def pick(self, n):
        i = self.script[len(self.used)] if len(self.used) < len(self.script) else 0
        self.used.append((i, n))
        self.p /= n
        return i

    def randint(self, a, b):
        return a + self.pick(b - a + 1)

    def choice(self, seq):
        return seq[self.pick(len(seq))]


def distribution(f):
    res, script = Counter(), []
    while True:
        src = Enum(script)
        random.randint, random.choice, disjoint.randint = src.randint, src.choice, src.randint
        res[str(f())] += src.p
        used = src.used
        while used and used[-1][0] + 1 == used[-1][1]:
            used.pop()
        if not used:
            return res
        script = [i for i, _ in used[:-1]] + [used[-1][0] + 1]


def uniform(spec, c, n):
    for k, v in true_terms(c, n).items():
        kw = dict(zip(c.extra_parameters, k))
        d = distribution(lambda: spec.random_sample_object_of_size(n, **kw))
        want = {str(w): Fraction(1, v) for w in c.words(n) if c.get_parameters(w) == k}
        assert d == want, (n, kw, d)


prm = (("k", "a"), ("l", "b"))
S = R("[ab]*", prm)
e, a, b, pa, pb = (R(x, prm) for x in ("", "a", "b", "a[ab]*", "b[ab]*"))
TABLES["exp"] = {S: (e, pa, pb)}
TABLES["fac"] = {pa: (a, S), pb: (b, S)}
TABLES["at"] = {c: None for c in (e, a, b)}
pack = make_pack(initial=[P("fac"), U("exp")], expansion=[], ver=[Ver("at")])
css, spec = search(S, pack, "plain")
for n in range(4):
    uniform(spec, S, n)
# some children do not have the parameters of the parent
only_b = R("[bc]+", (("l", "b"),))
has_a = R("[abc]*a[abc]*", prm)
W = R("[abc]+", prm, "w")
TABLES["exp2"] = {W: (only_b, has_a)}
TABLES["at2"] = {only_b: None, has_a: None}
css, spec = search(W, make_pack(initial=[U("exp2")], ver=[Ver("at2")]), "plain")
for n in range(1, 4):
    uniform(spec, W, n)
# a product with many compositions
V, mid = R("[ab]*c[ab]*", prm, "v"), R("c", prm)
TABLES["fac3"] = {V: (S, mid, S)}
TABLES["at3"] = {S: None, mid: None}
css, spec = search(V, make_pack(initial=[P("fac3")], ver=[Ver("at3")]), "plain")
for n in range(1, 4):
    uniform(spec, V, n)
print("ok")
'''
bug('C08-zeroes','C08',[('strategies/constructor/disjoint.py','''            if extra_params is None or any(
                val != 0 and k in self.zeroes[idx] for k, val in parameters.items()
            ):
                continue''','''            if extra_params is None:
                continue''')],
 'a union in which a child lacks one of the parameters of the parent, sampled at a non-zero value of that parameter','Children without the parameter take part in the draw although none of their objects has a non-zero value, so wrong objects are sampled.',SAMP,[H+'toy.py'])
bug('C08-threshold','C08',[('strategies/constructor/cartesian.py','random_choice = random.randint(1, parent_count)','random_choice = random.randint(0, parent_count)')],
 'sampling from a product: the additional outcome goes to the first composition','The threshold is drawn from one value too many, so the first composition is slightly favoured.',SAMP,[H+'toy.py'])
