from mkbug import bug
H='/verif/tools/bugs/'
BIJ='''
from toy import *
from comb_spec_searcher.isomorphism import Bijection

Z, X, Y = R("[ab]{3}"), R("[ab]"), R("[ab]{2}")


def spec(tag, order, eq=False):
    X_, Y_, Z_ = (R(c.rx, (), tag) for c in (X, Y, Z))
    cs = [(X_, Y_, Z_)[i] for i in order]
    S = R("[ab]{6}", (), tag)
    TABLES["top" + tag] = {S: cs}
    TABLES["mid" + tag] = {Y_: (X_, X_), Z_: (X_, X_, X_)}
    TABLES["bot" + tag] = {X_: (R("a"), R("b"))}
    pack = make_pack(initial=[P("top" + tag), P("mid" + tag), U("bot" + tag)])
    return S, search(S, pack, "plain")[1]


def check(S1, spec1, S2, spec2, n):
    bij = Bijection.construct(spec1, spec2)
    assert bij is not None
    for bij in (bij, Bijection.from_dict(__import__("json").loads(__import__("json").dumps(bij.to_jsonable())))):
        dom, cod = list(S1.words(n)), sorted(map(str, S2.words(n)))
        img = [bij.map(w) for w in dom]
        assert sorted(map(str, img)) == cod, "not a bijection"
        assert [str(bij.inverse_map(w)) for w in img] == [str(w) for w in dom], "not the inverse"


for i, order in enumerate([(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0)]):
    S1, s1 = spec("x", (0, 1, 2))
    S2, s2 = spec(f"y{i}", order)
    check(S1, s1, S2, s2, 6)
'''
bug('C12-inverse-order','C12',[('isomorphism.py','''        for i, v in enumerate(perm):
            inv[v] = i
''','''        for i, v in enumerate(perm):
            inv[i] = v
''')],
 'specifications whose rules have at least three children matched in a cyclic order','The inverse of the matching order is taken to be the order itself, which is right for transpositions only, so the inverse map is wrong for cyclic orders.',BIJ+'print("ok")\n',[H+'toy.py'])
bug('C12-empty-child','C12',[('isomorphism.py','''            for child, child_obj in zip(rule.children, children)
            if not child.is_empty()
        )''','''            for child, child_obj in zip(rule.children, children)
        )''')],
 'a rule with an empty child before its other children in one of the specifications','Empty children are kept while the matching order indexes the non-empty ones only, so objects are transported along the wrong children.',BIJ+'''
def spec2(tag, classes):
    S = R("[ab]{1,2}", (), tag)
    X_, Y_ = R("[ab]", (), tag), R("[ab]{2}", (), tag)
    TABLES["un" + tag] = {S: [{"X": X_, "Y": Y_, "E": R("c(?!c)c")}[c] for c in classes]}
    TABLES["mid" + tag] = {Y_: (X_, X_)}
    TABLES["bot" + tag] = {X_: (R("a"), R("b"))}
    pack = make_pack(initial=[U("un" + tag), P("mid" + tag), U("bot" + tag)])
    return S, search(S, pack, "plain")[1]


for i, (l, r) in enumerate([("EXY", "XY"), ("XEY", "YX"), ("XY", "EYX"), ("EYX", "XYE")]):
    S1, s1 = spec2(f"p{i}", l)
    S2, s2 = spec2(f"q{i}", r)
    for n in (1, 2):
        check(S1, s1, S2, s2, n)
print("ok")
''',[H+'toy.py'])
bug('C13-atom-size','C13',[('bijection.py','return sz1 == sz2 and terms1 == terms2','return terms1 == terms2')],
 'two universes of the same shape whose atoms have different sizes','Atoms of different sizes are matched, so the two returned specifications do not enumerate the same numbers.','''
from toy import *
from comb_spec_searcher.bijection import ParallelSpecFinder


def css(tag, one, two):
    X = R(f"{one}|{two}", (), tag)
    S = R(f"({one}|{two}){{2}}", (), tag)
    TABLES["t" + tag] = {S: (X, X)}
    TABLES["b" + tag] = {X: (R(one), R(two))}
    return CombinatorialSpecificationSearcher(S, make_pack(initial=[P("t" + tag), U("b" + tag)]))


for i, (l, r, same) in enumerate([(("a", "b"), ("b", "a"), True), (("a", "b"), ("aa", "bb"), False),
                                  (("a", "bb"), ("aa", "b"), True), (("a", "bb"), ("aa", "bb"), False)]):
    found = ParallelSpecFinder(css(f"x{i}", *l), css(f"y{i}", *r)).find()
    assert (found is not None) == same, (l, r, found)
    if same:
        for n in range(6):
            assert found[0].count_objects_of_size(n) == found[1].count_objects_of_size(n)
print("ok")
''',[H+'toy.py'])
bug('C17-staging-dropped','C17',[('class_queue.py','''    def can_do_expansion(''','''    def __getstate__(self) -> dict:
        state = self.__dict__.copy()
        # the staged packets are rebuilt from the other queues when needed
        state["staging"] = deque()
        return state

    def can_do_expansion(''')],
 'pickling the searcher between two packets staged together for one class','Work already staged is dropped by pickling, so strategies are never applied to the class being worked on and the resumed search misses rules.','''
import pickle
from toy import *
S = R("[ab]*")
TABLES["no"] = {}
TABLES["exp"] = {S: (R(""), R("a[ab]*"), R("b[ab]*"))}
TABLES["fac"] = {R("a[ab]*"): (R("a"), S), R("b[ab]*"): (R("b"), S)}
pack = make_pack(initial=[P("fac"), U("exp"), U("no")], expansion=[])


def drain(css, stop=None):
    n = 0
    for label, strats, inferral in css.classqueue:
        css._expand(css.classdb.get_class(label), label, strats, inferral)
        n += 1
        if n == stop:
            return css
    return css


want = set(drain(CombinatorialSpecificationSearcher(S, pack)).ruledb)
for k in range(1, 12):
    css = drain(CombinatorialSpecificationSearcher(S, pack), k)
    got = set(drain(pickle.loads(pickle.dumps(css))).ruledb)
    assert got == want, (k, got, want)
print("ok")
''',[H+'toy.py'])
bug('C18-workable','C18',[('strategies/strategy.py','            "workable": self._workable,\n        }\n\n    @classmethod\n    @abc.abstractmethod\n    def from_dict(cls, d: dict) -> CSSstrategy:','            "workable": self._inferrable,\n        }\n\n    @classmethod\n    @abc.abstractmethod\n    def from_dict(cls, d: dict) -> CSSstrategy:')],
 'a strategy whose inferrable and workable settings differ','The saved form of a strategy has the inferrable setting in place of the workable one.','''
import itertools
import json
from toy import *
from comb_spec_searcher.strategies.strategy import AbstractStrategy
for flags in itertools.product((False, True), repeat=4):
    kw = dict(zip(("ignore_parent", "inferrable", "possibly_empty", "workable"), flags))
    s = U("exp", **kw)
    t = AbstractStrategy.from_dict(json.loads(json.dumps(s.to_jsonable())))
    assert s == t, kw
    for k in kw:
        assert getattr(s, k) == getattr(t, k), (kw, k)
print("ok")
''',[H+'toy.py'])
bug('C18-pack-sets','C18',[('strategies/strategy_pack.py','''            [Strategy.from_dict(strat_dict) for strat_dict in strat_list]
            for strat_list in d["expansion_strats"]
        ]''','''            [Strategy.from_dict(strat_dict) for strat_dict in strat_list]
            for strat_list in d["expansion_strats"]
            if strat_list
        ]''')],
 'a pack with an empty set of expansion strategies','Empty expansion sets are dropped when a pack is loaded, so the loaded pack differs from the saved one.','''
import json
from toy import *
for sets in ([], [[]], [[U("x")]], [[], [U("x")]], [[U("x")], [], [P("y")]]):
    for it in (False, True):
        pack = make_pack(initial=[P("f")], expansion=sets, iterative=it)
        got = StrategyPack.from_dict(json.loads(json.dumps(pack.to_jsonable())))
        assert got == pack, (sets, it)
print("ok")
''',[H+'toy.py'])
EXP='''
from toy import *
S, A, B = R("[ab]*"), R("a[ab]*"), R("b[ab]*")
AA, AB = R("aa[ab]*"), R("ab[ab]*")
TABLES["exp"] = {S: (R(""), A, B)}
TABLES["facb"] = {B: (R("b"), S)}
TABLES["v"] = {A: "one"}
TABLES["exp2"] = {A: (R("a"), AA, AB)}
TABLES["w"] = {AA: "two", AB: "two"}
TABLES["fac2"] = {AA: (R("a"), A), AB: (R("a"), B)}
Ver.PACKS["one"] = make_pack(initial=[U("exp2")], ver=[Ver("w")], name="one")
Ver.PACKS["two"] = make_pack(initial=[P("fac2")], name="two")
for db in DBS:
    css, spec = search(S, make_pack(initial=[P("facb"), U("exp")], ver=[Ver("v")]), db)
    check_spec(spec, S)
    new = spec.expand_verified()
    check_spec(new, S)
    left = [c for c, r in new.rules_dict.items() if isinstance(r.strategy, Ver)]
    assert not left, ("still expandable", left)
print("ok")
'''
bug('C19-first-unexpandable','C19',[('specification.py','''                except InvalidOperationError:
                    continue
                yield comb_class''','''                except InvalidOperationError:
                    return
                yield comb_class''')],
 'a verified class that cannot be expanded coming before one that can','The listing of expandable classes ends at the first verified class without a pack, so later ones are never expanded.',EXP,[H+'toy.py'])
bug('C19-snapshot','C19',[('specification.py','''        new_spec = self
        while True:
            try:
                class_to_expand = next(new_spec.unexpanded_verified_classes())
            except StopIteration:
                return new_spec
            rule''','''        new_spec = self
        for class_to_expand in list(self.unexpanded_verified_classes()):
            if class_to_expand not in new_spec.rules_dict:
                continue
            rule'''),('specification.py','''                    reverse=True,
                    continue_expanding_verified=True,
                )

    def unexp''','''                    reverse=True,
                    continue_expanding_verified=True,
                )
        return new_spec

    def unexp''')],
 'a pack whose expansion brings in new verified classes that have packs of their own','Only the classes verified at the start are expanded, not those that the expansions bring in.',EXP,[H+'toy.py'])
bug('C02-reverse-shifts','C02',[('strategies/rule.py','            s + pshift\n            for s in','            s\n            for s in')],
 'the reverse of a product with at least two children whose minimum sizes are not all zero','The shifts of the siblings in a reverse rule are not relative to the child being counted, so the forest database accepts specifications that need terms which are not available yet.','''
from toy import *


class RP(P):
    def is_reversible(self, c):
        return True


words = {"": 0, "a": 1, "aa": 2, "b*": 0, "bb*": 1, "ccc*": 2}
rng = random.Random(3)
for case in range(300):
    cs = [R(rng.choice(sorted(words)), (), str(i)) for i in range(rng.randint(2, 4))]
    T = R("".join(c.rx for c in cs), (), f"T{case}")
    TABLES["prod"] = {T: cs}
    rule = RP("prod")(T)
    mins = [words[c.rx] for c in cs]
    for idx in range(len(cs)):
        rev = rule.to_reverse_rule(idx)
        # terms of the others that a term of size n of child idx can depend on
        total = sum(mins)
        want = [-(total - mins[idx])] + [mins[idx] - mins[j] for j in range(len(cs)) if j != idx]
        want = [want[0]] + [(total - mins[j]) - (total - mins[idx]) for j in range(len(cs)) if j != idx]
        assert list(rev.shifts()) == want, (cs, idx, rev.shifts(), want)
print("ok")
''',[H+'toy.py'])
