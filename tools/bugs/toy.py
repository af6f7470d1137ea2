"""A tiny universe: words described by a regular expression, rules given by tables."""
import logging
import logzero
logzero.loglevel(logging.CRITICAL)
import itertools
import random
import re
import sys
from collections import Counter

from comb_spec_searcher import (
    AtomStrategy,
    CartesianProductStrategy,
    CombinatorialClass,
    CombinatorialObject,
    CombinatorialSpecificationSearcher,
    DisjointUnionStrategy,
    StrategyPack,
)
from comb_spec_searcher.exception import InvalidOperationError, SpecificationNotFound
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy
from comb_spec_searcher.strategies.strategy import VerificationStrategy


TABLES = {}   # strategy name -> {class name: tuple of child names}
PARAMS = {}   # (strategy name, class name) -> tuple of {parent parameter: child parameter}
LIM = 9


class Wd(CombinatorialObject, str):
    def size(self):
        return str.__len__(self)

    __len__ = size


class R(CombinatorialClass):
    """Words over abc matching the regular expression; parameters count letters.

    The tag makes copies of a class that are different but have the same words."""

    def __init__(self, rx, params=(), tag=""):
        self.rx, self.params, self.tag = rx, tuple(tuple(p) for p in params), tag

    @property
    def name(self):
        return self.rx + self.tag

    def words(self, n):
        for t in itertools.product("abc", repeat=n):
            w = "".join(t)
            if re.fullmatch(self.rx, w):
                yield Wd(w)

    def has(self, w):
        return re.fullmatch(self.rx, w) is not None

    def is_empty(self):
        return not any(True for n in range(7) for _ in self.words(n))

    def is_atom(self):
        return re.fullmatch("[abc]*", self.rx) is not None

    def minimum_size_of_object(self):
        return next(n for n in range(9) if any(True for _ in self.words(n)))

    def objects_of_size(self, n, **kw):
        for w in self.words(n):
            if all(self.value(w, k) == v for k, v in kw.items()):
                yield w

    @property
    def extra_parameters(self):
        return tuple(k for k, _ in self.params)

    def value(self, w, k):
        return w.count(dict(self.params)[k])

    def get_parameters(self, w):
        return tuple(self.value(w, k) for k in self.extra_parameters)

    def get_minimum_value(self, k):
        return min(self.value(w, k) for n in range(5) for w in self.words(n))

    def possible_parameters(self, n):
        for vals in itertools.product(range(n + 1), repeat=len(self.params)):
            yield dict(zip(self.extra_parameters, vals))

    def _key(self):
        return (self.rx, self.params, self.tag)

    def __eq__(self, o):
        return isinstance(o, R) and self._key() == o._key()

    def __hash__(self):
        return hash(self._key())

    def __repr__(self):
        return f"R({self.rx!r}, {self.params!r}, {self.tag!r})"

    __str__ = __repr__

    def to_jsonable(self):
        return {**super().to_jsonable(), "rx": self.rx, "params": self.params, "tag": self.tag}

    @classmethod
    def from_dict(cls, d):
        return cls(d["rx"], d["params"], d["tag"])


class _Table:
    def __init__(self, name, **kw):
        self.name = name
        super().__init__(**kw)

    def decomposition_function(self, c):
        children = TABLES[self.name].get(c)
        return None if children is None else tuple(children)

    def extra_parameters(self, c, children=None):
        children = children or self.decomposition_function(c)
        if (self.name, c) in PARAMS:
            return PARAMS[(self.name, c)]
        return tuple(
            {k: k for k in c.extra_parameters if k in d.extra_parameters} for d in children
        )

    def formal_step(self):
        return self.name

    def to_jsonable(self):
        return {**super().to_jsonable(), "name": self.name}

    @classmethod
    def from_dict(cls, d):
        return cls(d.pop("name"), **{k: v for k, v in d.items()
                                     if k in ("ignore_parent", "inferrable", "possibly_empty", "workable")})

    def __repr__(self):
        return f"{type(self).__name__}({self.name})"

    __str__ = __repr__


class U(_Table, DisjointUnionStrategy):
    def forward_map(self, c, w, children=None):
        children = children or self.decomposition_function(c)
        i = next(i for i, d in enumerate(children) if d.has(w))
        return tuple(w if j == i else None for j in range(len(children)))


class OneWay(U):
    def is_two_way(self, c):
        return False

    def is_reversible(self, c):
        return False


class P(_Table, CartesianProductStrategy):
    def is_reversible(self, c):
        return False

    def is_two_way(self, c):
        return False

    def forward_map(self, c, w, children=None):
        children = children or self.decomposition_function(c)

        def split(w, cs):
            if not cs:
                return () if not w else None
            for i in range(len(w) + 1):
                if cs[0].has(w[:i]):
                    rest = split(w[i:], cs[1:])
                    if rest is not None:
                        return (Wd(w[:i]),) + rest
            return None

        return split(w, children)

    def backward_map(self, c, objs, children=None):
        yield Wd("".join(objs))


class Ver(VerificationStrategy):
    """Verifies the classes of its table; pack names a pack to expand them with, if any."""

    PACKS = {}

    def __init__(self, name, **kw):
        self.name = name
        super().__init__(**kw)

    def verified(self, c):
        return c in TABLES[self.name]

    def pack(self, c):
        p = TABLES[self.name][c]
        if not p:
            raise InvalidOperationError("no pack")
        return self.PACKS[p]

    def get_terms(self, c, n):
        return Counter(map(c.get_parameters, c.words(n)))

    def get_objects(self, c, n):
        res = {}
        for w in c.words(n):
            res.setdefault(c.get_parameters(w), []).append(w)
        return res

    def random_sample_object_of_size(self, c, n, **kw):
        return random.choice(list(c.objects_of_size(n, **kw)))

    def formal_step(self):
        return self.name

    def to_jsonable(self):
        return {**super().to_jsonable(), "name": self.name}

    @classmethod
    def from_dict(cls, d):
        return cls(d["name"])

    def __repr__(self):
        return f"Ver({self.name})"

    __str__ = __repr__


def make_pack(initial=(), inferral=(), expansion=(), ver=(), sym=(), iterative=False, name="p"):
    return StrategyPack(initial_strats=list(initial), inferral_strats=list(inferral),
                        expansion_strats=[list(x) for x in expansion],
                        ver_strats=list(ver) + [AtomStrategy()],
                        symmetries=list(sym), iterative=iterative, name=name)


def true_terms(c, n):
    return Counter(map(c.get_parameters, c.words(n)))


def check_spec(spec, start, upto=5):
    for n in range(upto + 1):
        got = Counter({k: v for k, v in spec.get_terms(n).items() if v})
        assert got == true_terms(start, n), ("count", start, n, got, true_terms(start, n))
    seen = {start}
    for rule in spec.rules_dict.values():
        for ch in rule.children:
            assert ch in spec.rules_dict or ch.is_empty(), ("no rule", ch)


DBS = {"plain": RuleDB, "forget": RuleDBForgetStrategy, "forest": RuleDBForest}


def search(start, pack, db="plain", **kw):
    random.seed(1)
    css = CombinatorialSpecificationSearcher(start, pack, ruledb=DBS[db](), **kw)
    return css, css.auto_search()
