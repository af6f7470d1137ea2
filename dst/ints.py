"""
The integer universe: classes are numbered nodes of a generated rule
hypergraph.  Used where only labels, emptiness, shifts and flags matter and no
counting takes place.
"""

import json

from comb_spec_searcher import (
    CombinatorialClass,
    Strategy,
    StrategyFactory,
    VerificationStrategy,
)
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies.constructor import DisjointUnion, Constructor
from comb_spec_searcher.strategies.rule import Rule

from .core import CUR


def _mix(*xs):
    """A stable integer hash (not Python's), so order is the simulator's."""
    h = 1469598103934665603
    for x in xs:
        for b in repr(x).encode():
            h = ((h ^ b) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return h


def salt():
    return CUR[0].salt if CUR[0] is not None else 0


class Node(CombinatorialClass):
    """Class number `i`.  `empty` is a fact about the class."""

    def __init__(self, i, empty=False):
        self.i = i
        self.empty = bool(empty)

    def is_empty(self):
        sim = CUR[0]
        if sim is not None:
            sim.probe("is_empty_calls")
            sim.callback("is_empty", self.i)
        return self.empty

    def is_atom(self):
        return False

    def minimum_size_of_object(self):
        return 0

    def to_bytes(self):
        if CUR[0] is not None and CUR[0].plain:
            raise NotImplementedError
        return json.dumps([self.i, self.empty]).encode()

    @classmethod
    def from_bytes(cls, b):
        i, e = json.loads(b.decode())
        return cls(i, e)

    def to_jsonable(self):
        d = super().to_jsonable()
        d["i"] = self.i
        d["empty"] = self.empty
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["i"], d["empty"])

    def __eq__(self, other):
        if not isinstance(other, Node):
            return NotImplemented
        return self.i == other.i and self.empty == other.empty

    def __hash__(self):
        return _mix(salt(), self.i) >> 3

    def __repr__(self):
        return f"N{self.i}{'e' if self.empty else ''}"

    __str__ = __repr__


class NoCount(Constructor):
    """A constructor for rules that are never counted with."""

    def __init__(self, eqv=True):
        self.eqv = eqv

    def can_be_equivalent(self):
        return self.eqv

    def get_equation(self, lhs_func, rhs_funcs):
        raise NotImplementedError

    def reliance_profile(self, n, **parameters):
        raise NotImplementedError

    def get_terms(self, parent_terms, subterms, n):
        raise NotImplementedError

    def get_sub_objects(self, subobjs, n):
        raise NotImplementedError

    def random_sample_sub_objects(self, parent_count, subsamplers, subrecs, n, **kw):
        raise NotImplementedError

    def equiv(self, other, data=None):
        return False, None


class Step(Strategy):
    """
    One table row turned into a strategy: applies to the classes listed in
    `rows` ({class id: (children, shifts)}), with the given flags.
    """

    def __init__(
        self,
        name,
        rows,
        *,
        two_way=True,
        reversible=True,
        eqv=True,
        possibly_empty=True,
        inferrable=True,
        workable=True,
        ignore_parent=False,
        lazy=False,
    ):
        super().__init__(
            ignore_parent=ignore_parent,
            inferrable=inferrable,
            possibly_empty=possibly_empty,
            workable=workable,
        )
        self.name = name
        self.rows = {
            int(k): (tuple(Node(*c) for c in cs), tuple(ss))
            for k, (cs, ss) in rows.items()
        }
        self.two_way = two_way
        self.reversible = reversible
        self.eqv = eqv

    def can_be_equivalent(self):
        return self.eqv

    def is_two_way(self, comb_class):
        return self.two_way

    def is_reversible(self, comb_class):
        return self.reversible

    def decomposition_function(self, comb_class):
        if comb_class.i not in self.rows:
            return None
        if CUR[0] is not None:
            CUR[0].callback("apply", self.name, comb_class.i)
        return tuple(Node(c.i, c.empty) for c in self.rows[comb_class.i][0])

    def shifts(self, comb_class, children=None):
        if comb_class.i not in self.rows:
            raise StrategyDoesNotApply
        return self.rows[comb_class.i][1]

    def constructor(self, comb_class, children=None):
        return NoCount(self.eqv)

    def reverse_constructor(self, idx, comb_class, children=None):
        return NoCount(self.eqv)

    def backward_map(self, comb_class, objs, children=None):
        raise NotImplementedError

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    def formal_step(self):
        return f"step {self.name}"

    def __repr__(self):
        return f"Step({self.name})"

    def to_jsonable(self):
        d = super().to_jsonable()
        d["name"] = self.name
        d["rows"] = {
            str(k): [[[c.i, c.empty] for c in cs], list(ss)]
            for k, (cs, ss) in self.rows.items()
        }
        d["two_way"] = self.two_way
        d["reversible"] = self.reversible
        d["eqv"] = self.eqv
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d.pop("name"), d.pop("rows"), **d)


class StepFactory(StrategyFactory):
    """
    Yields, for each class, a list of strategies or ready rules.  `plan` maps a
    class id to a list of items: ("s", k) the k-th strategy itself, ("r", k) the
    ready rule of the k-th strategy for this class, ("f", k, parent) the ready
    rule of the k-th strategy for another parent, ("l", k) a lazily built rule
    that may turn out not to apply.
    """

    def __init__(self, name, strats, plan):
        self.name = name
        self.strats = list(strats)
        self.plan = {int(k): [tuple(x) for x in v] for k, v in plan.items()}

    def __call__(self, comb_class):
        if CUR[0] is not None:
            CUR[0].callback("factory", self.name, comb_class.i)
        for item in self.plan.get(comb_class.i, ()):
            strat = self.strats[item[1]]
            if item[0] == "s":
                yield strat
            elif item[0] == "r":
                try:
                    yield strat(comb_class)
                except StrategyDoesNotApply:
                    continue
            elif item[0] == "f":
                try:
                    yield strat(Node(*item[2]))
                except StrategyDoesNotApply:
                    continue
            elif item[0] == "l":
                yield Rule(strat, comb_class)

    def __str__(self):
        return f"factory {self.name}"

    def __repr__(self):
        return f"StepFactory({self.name})"

    def to_jsonable(self):
        d = super().to_jsonable()
        d["name"] = self.name
        d["strats"] = [s.to_jsonable() for s in self.strats]
        d["plan"] = {str(k): [list(x) for x in v] for k, v in self.plan.items()}
        return d

    @classmethod
    def from_dict(cls, d):
        from comb_spec_searcher.strategies.strategy import AbstractStrategy

        return cls(
            d["name"], [AbstractStrategy.from_dict(s) for s in d["strats"]], d["plan"]
        )


class Known(VerificationStrategy):
    """Verifies the listed classes."""

    def __init__(self, name, ids, ignore_parent=False):
        super().__init__(ignore_parent=ignore_parent)
        self.name = name
        self.ids = tuple(sorted(ids))

    def verified(self, comb_class):
        if CUR[0] is not None:
            CUR[0].callback("verified", self.name, comb_class.i)
        return comb_class.i in self.ids

    def formal_step(self):
        return f"known {self.name}"

    def __repr__(self):
        return f"Known({self.name})"

    def to_jsonable(self):
        d = super().to_jsonable()
        d["name"] = self.name
        d["ids"] = list(self.ids)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["name"], d["ids"], d["ignore_parent"])
