"""
The tree universe: a class is a symbol of a small generated grammar, its objects are
the derivation trees of the symbol.  Any shape of specification occurs (repeated and
empty children, chains of renamings, symbols that differ in name only), which the word
universe cannot give.  Counts, objects, sizes and emptiness come from the grammar.

Definitions: ("A", k) one object of size k; ("E",) nothing; ("U", s, ...) a disjoint
union; ("P", s, ...) a product; ("Q", s) a renaming; ("M", m, s) m copies.
"""

import json
from collections import Counter
from itertools import permutations

from comb_spec_searcher import (
    AtomStrategy,
    CombinatorialClass,
    CombinatorialObject,
    Strategy,
    StrategyPack,
    SymmetryStrategy,
)
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies.constructor import Constructor
from comb_spec_searcher.strategies.rule import NonBijectiveRule

from . import words as W_
from .core import CUR
from .ints import _mix, salt
from .oracles import lfp_terms
from .words import _callback, _Common, _Product, _split_flags, _Union

_GRAM = {}
BIG = 10**9


def reset():
    _GRAM.clear()
    _LANGS.clear()


class T(CombinatorialObject):
    """A derivation tree: nested tuples (symbol, ...)."""

    def __init__(self, t, n):
        self.t, self.n = t, n

    def size(self):
        return self.n

    def __len__(self):
        return self.n

    def __eq__(self, other):
        return isinstance(other, T) and self.t == other.t

    def __hash__(self):
        return hash(self.t)

    def __lt__(self, other):
        return repr(self.t) < repr(other.t)

    def __repr__(self):
        return repr(self.t).replace(" ", "")


class Gram:
    """What follows from the definitions."""

    def __init__(self, defs):
        self.defs = defs
        k = len(defs)
        self.min = [BIG] * k
        while True:
            old = list(self.min)
            for i, d in enumerate(defs):
                m = [self.min[c] for c in kids(d)]
                if d[0] == "A":
                    self.min[i] = d[1]
                elif d[0] in "UQM" and m:
                    self.min[i] = min(m)
                elif d[0] == "P":
                    self.min[i] = min(BIG, sum(m))
            if old == self.min:
                break
        self.empty = [m >= BIG for m in self.min]
        self._counts, self._objs = {}, {}
        self._blocks = None

    def block(self, sym):
        """
        The symbols that have as many trees of every size as this one for the reason that
        their definitions agree (up to the order of children, empty children, renamings
        and symbols of which the same holds).
        """
        if self._blocks is None:
            k = len(self.defs)
            real = []
            for i in range(k):
                while not self.empty[i] and (self.defs[i][0] == "Q" or self.defs[i][:2] == ("M", 1)):
                    i = self.defs[i][-1]
                real.append(i)
            ids = [-1 if e else 0 for e in self.empty]
            while True:
                sigs = []
                for i in range(k):
                    d = self.defs[real[i]]
                    sigs.append((ids[i], d[0], d[1] if d[0] in "AM" else 0, tuple(sorted(
                        ids[c] for c in kids(d) if not self.empty[c]))))
                names = {x: j for j, x in enumerate(sorted(set(sigs)))}
                new = [-1 if e else names[x] for e, x in zip(self.empty, sigs)]
                if len(set(new)) == len(set(ids)):
                    break
                ids = new
            self._blocks = [[j for j in range(k) if ids[j] == ids[i]] for i in range(k)]
        return self._blocks[sym]

    def unproductive(self):
        """Symbols that the definitions do not determine."""
        keys = []
        for i, d in enumerate(self.defs):
            if self.empty[i]:
                keys.append((i, (), ()))
                continue
            ch = [c for c in kids(d) if not self.empty[c]]
            if d[0] == "P":
                tot = sum(self.min[c] for c in ch)
                sh = tuple(tot - self.min[c] for c in ch)
            else:
                sh = tuple(0 for _ in ch)
            keys.append((i, tuple(ch), sh))
        f = lfp_terms(keys)
        return [i for i in range(len(self.defs)) if f[i] is not None]

    def count(self, i, n):
        if n < self.min[i] or self.empty[i]:
            return 0
        key = (i, n)
        if key not in self._counts:
            d = self.defs[i]
            if d[0] == "A":
                r = int(n == d[1])
            elif d[0] in "UQ":
                r = sum(self.count(c, n) for c in d[1:])
            elif d[0] == "M":
                r = d[1] * self.count(d[2], n)
            else:
                r = 0
                for ns in self._splits(d[1:], n):
                    x = 1
                    for c, m in zip(d[1:], ns):
                        x *= self.count(c, m)
                        if not x:
                            break
                    r += x
            self._counts[key] = r
        return self._counts[key]

    def _splits(self, cs, n):
        if len(cs) == 1:
            yield (n,)
            return
        rest = sum(self.min[c] for c in cs[1:])
        for m in range(self.min[cs[0]], n - rest + 1):
            for tail in self._splits(cs[1:], n - m):
                yield (m, *tail)

    def objects(self, i, n):
        """The trees of size n, as tuples."""
        if n < self.min[i] or self.empty[i]:
            return []
        key = (i, n)
        if key not in self._objs:
            d = self.defs[i]
            if d[0] == "A":
                r = [(i,)] if n == d[1] else []
            elif d[0] in "UQ":
                r = [(i, j, o) for j, c in enumerate(d[1:]) for o in self.objects(c, n)]
            elif d[0] == "M":
                r = [(i, j, o) for j in range(d[1]) for o in self.objects(d[2], n)]
            else:
                r = []
                for ns in self._splits(d[1:], n):
                    part = [(i,)]
                    for c, m in zip(d[1:], ns):
                        part = [x + (o,) for x in part for o in self.objects(c, m)]
                        if not part:
                            break
                    r.extend(part)
            self._objs[key] = r
        return self._objs[key]

    def some(self, i, n):
        """The same, one by one."""
        if not self.count(i, n):
            return
        d = self.defs[i]
        if d[0] == "A":
            yield (i,)
        elif d[0] in "UQM":
            for j, c in enumerate(d[1:] if d[0] != "M" else [d[2]] * d[1]):
                for o in self.some(c, n):
                    yield (i, j, o)
        else:
            for ns in self._splits(d[1:], n):
                yield from self._some(d[1:], ns, (i,))

    def _some(self, cs, ns, head):
        if not cs:
            yield head
        elif all(self.count(c, m) for c, m in zip(cs, ns)):
            for o in self.some(cs[0], ns[0]):
                yield from self._some(cs[1:], ns[1:], head + (o,))

    def size(self, t):
        """The size of a tree; None if it is no tree of its symbol."""
        if not isinstance(t, tuple) or not t or not 0 <= t[0] < len(self.defs):
            return None
        d = self.defs[t[0]]
        if d[0] == "A":
            return d[1] if len(t) == 1 else None
        if d[0] == "E":
            return None
        if d[0] == "P":
            if len(t) != len(d) or any(o[0] != c for o, c in zip(t[1:], d[1:])):
                return None
            sizes = [self.size(o) for o in t[1:]]
            return None if None in sizes else sum(sizes)
        if len(t) != 3:
            return None
        want = d[2] if d[0] == "M" else d[1 + t[1]] if t[1] < len(d) - 1 else None
        if t[2][0] != want or (d[0] == "M" and t[1] >= d[1]):
            return None
        return self.size(t[2])


def kids(d):
    return d[1:] if d[0] in "UPQ" else d[2:] if d[0] == "M" else ()


_LANGS = {}


class GLang:
    """The facts about one symbol, named as for words."""

    def __init__(self, gram, sym):
        self.gram, self.sym = gram, sym
        self.empty = gram.empty[sym]
        self.min = 0 if self.empty else gram.min[sym]
        self.atom = self._atom(sym, ())

    def _atom(self, i, above):
        d = self.gram.defs[i]
        if self.gram.empty[i] or i in above:
            return False
        if d[0] == "A":
            return True
        if d[0] == "M":
            return d[1] == 1 and self._atom(d[2], above + (i,))
        ch = [c for c in kids(d) if not self.gram.empty[c]]
        if d[0] == "P":
            return all(self._atom(c, above + (i,)) for c in ch)
        return len(ch) == 1 and self._atom(ch[0], above + (i,))

    def words(self, n):
        many = self.gram.count(self.sym, n) > 5000
        for t in (self.gram.some if many else self.gram.objects)(self.sym, n):
            yield T(t, n)


class G(CombinatorialClass):
    """A symbol of a grammar."""

    def __init__(self, defs, sym):
        self.defs = tuple(tuple(d) for d in defs)
        self.sym = sym

    @property
    def gram(self):
        g = _GRAM.get(self.defs)
        if g is None:
            g = _GRAM[self.defs] = Gram(self.defs)
        return g

    @property
    def lang(self):
        res = self.__dict__.get("_lang")
        if res is None:
            k = (self.defs, self.sym)
            if k not in _LANGS:
                _LANGS[k] = GLang(self.gram, self.sym)
            res = self._lang = _LANGS[k]
        return res

    @property
    def own(self):
        return self.defs[self.sym]

    def at(self, sym):
        return G(self.defs, sym)

    def key(self):
        k = self.__dict__.get("_key")
        if k is None:
            k = self._key = (self.sym, self.defs)
        return k

    def truth(self, n):
        c = self.gram.count(self.sym, n)
        return Counter({(): c}) if c else Counter()

    def value(self, w):
        return ()

    def contains(self, w):
        return isinstance(w, T) and w.t[0] == self.sym and self.gram.size(w.t) == w.n

    # -- what the library asks ----------------------------------------------
    def is_empty(self):
        _callback("is_empty", repr(self))
        return self.lang.empty

    def is_atom(self):
        return self.lang.atom

    def minimum_size_of_object(self):
        return self.lang.min

    def get_minimum_value(self, parameter):
        raise AssertionError("no parameters")

    def objects_of_size(self, n, **parameters):
        _callback("objects", repr(self), n)
        yield from self.lang.words(n)

    def to_bytes(self):
        if CUR[0] is not None and CUR[0].plain:
            raise NotImplementedError
        return json.dumps([self.defs, self.sym]).encode()

    @classmethod
    def from_bytes(cls, b):
        return cls(*json.loads(b.decode()))

    def to_jsonable(self):
        d = super().to_jsonable()
        d["defs"] = [list(x) for x in self.defs]
        d["sym"] = self.sym
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["defs"], d["sym"])

    def __eq__(self, other):
        if not isinstance(other, G):
            return NotImplemented
        return self.sym == other.sym and self.defs == other.defs

    def __hash__(self):
        s = salt()
        h = self.__dict__.get("_hash")
        if h is None or h[0] != s:
            h = self._hash = (s, _mix(s, self.key()) >> 3)
        return h[1]

    def __getstate__(self):
        return {"defs": self.defs, "sym": self.sym}

    def __lt__(self, other):
        return self.key() < other.key()

    def __repr__(self):
        r = self.__dict__.get("_repr")
        if r is None:
            r = self._repr = self._name()
        return r

    def _name(self):
        return f"<{self.sym}={self.own[0]}{','.join(map(str, self.own[1:]))} of " \
               f"{_mix(0, self.defs) % 10000:04d}>"

    __str__ = __repr__


# ---------------------------------------------------------------------------
# strategies
# ---------------------------------------------------------------------------
class _GCommon(_Common):
    KIND = ""

    def _children(self, c):
        if not isinstance(c, G) or c.own[0] != self.KIND or not self.open(c):
            return None
        parts = self.parts(c)
        return None if parts is None else [(x, {}) for x in parts]

    def _order(self, c, k):
        """The order in which the children of the class are listed."""
        order = getattr(self, "order", 0)
        if not order:
            return tuple(range(k))
        perms = list(permutations(range(k)))
        return perms[_mix(order, c.key()) % len(perms)]


class _GUnion(_GCommon, _Union):
    def spots(self, c):
        """[(path of indices into the object, symbol)] before ordering"""
        raise NotImplementedError

    def ordered(self, c):
        s = self.spots(c)
        return [s[i] for i in self._order(c, len(s))]

    def parts(self, c):
        return [c.at(s) for _, s in self.ordered(c)]

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        res = []
        for path, _ in self.ordered(comb_class):
            t = obj.t
            for j in path:
                if len(t) != 3 or t[1] != j:
                    t = None
                    break
                t = t[2]
            res.append(None if t is None else T(t, obj.n))
        return tuple(res)

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        (i,) = [i for i, o in enumerate(objs) if o is not None]
        path, _ = self.ordered(comb_class)[i]
        syms = [comb_class.sym]
        for j in path[:-1]:
            syms.append(comb_class.defs[syms[-1]][1 + j])
        t = objs[i].t
        for s, j in reversed(list(zip(syms, path))):
            t = (s, j, t)
        yield T(t, objs[i].n)


class GU(_GUnion):
    KIND, ARGS = "U", ("order",)

    def spots(self, c):
        return [((j,), s) for j, s in enumerate(c.own[1:])]


class GFlatU(_GUnion):
    """A union whose union children are replaced by their children."""

    KIND, ARGS = "U", ("order",)

    def spots(self, c):
        res = []
        for j, s in enumerate(c.own[1:]):
            if c.defs[s][0] == "U":
                res.extend(((j, i), x) for i, x in enumerate(c.defs[s][1:]))
            else:
                res.append(((j,), s))
        return res

    @staticmethod
    def flattens(c):
        ch = [c.defs[s] for s in c.own[1:]]
        return any(d[0] == "U" for d in ch) and sum(
            len(d) - 1 if d[0] == "U" else 1 for d in ch) <= 5

    def parts(self, c):
        return super().parts(c) if self.flattens(c) else None


class GQ(_GUnion):
    KIND = "Q"

    def spots(self, c):
        return [((0,), c.own[1])]


class GQSym(_GCommon, SymmetryStrategy):
    KIND = "Q"

    def __init__(self, **args):
        super().__init__(**_split_flags(args))
        self._setup(**args)

    def parts(self, c):
        return [c.at(c.own[1])]

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        return (T(obj.t[2], obj.n),)

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        yield T((comb_class.sym, 0, objs[0].t), objs[0].n)


class GRank(_GUnion):
    """
    To another symbol that has the same number of trees of each size: the trees correspond
    in the order in which they are listed.
    """

    ARGS = ("step",)

    def _children(self, c):
        if not isinstance(c, G) or c.lang.empty or not self.open(c):
            return None
        t = self.target(c)
        return None if t == c.sym else [(c.at(t), {})]

    def target(self, c):
        b = c.gram.block(c.sym)
        return b[(b.index(c.sym) + self.step) % len(b)]

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        g = comb_class.gram
        i = g.objects(comb_class.sym, obj.n).index(obj.t)
        return (T(g.objects(self.target(comb_class), obj.n)[i], obj.n),)

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        g, (o,) = comb_class.gram, objs
        i = g.objects(self.target(comb_class), o.n).index(o.t)
        yield T(g.objects(comb_class.sym, o.n)[i], o.n)


class GP(_GCommon, _Product):
    KIND, ARGS = "P", ("order",)

    def parts(self, c):
        ch = c.own[1:]
        return [c.at(ch[i]) for i in self._order(c, len(ch))]

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        size = comb_class.gram.size
        return tuple(T(obj.t[1 + i], size(obj.t[1 + i]))
                     for i in self._order(comb_class, len(comb_class.own) - 1))

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        order = self._order(comb_class, len(comb_class.own) - 1)
        parts = [None] * len(order)
        for o, i in zip(objs, order):
            parts[i] = o.t
        yield T((comb_class.sym, *parts), sum(o.n for o in objs))


class GShyP(GP):
    """Leaves some of the products that can be flattened alone."""

    ARGS = ("order", "shy")

    def parts(self, c):
        if GFlatP.flattens(c) and _mix(self.shy, c.key()) % 4 == 0:
            return None
        return super().parts(c)


class GFlatP(_GCommon, _Product):
    """A product whose last product child is replaced by its children."""

    KIND, ARGS = "P", ("order",)

    @staticmethod
    def flattens(c):
        j = GFlatP._spot(c)
        return j is not None and len(c.own) + len(c.defs[c.own[1 + j]]) <= 8

    @staticmethod
    def _spot(c):
        for j in range(len(c.own) - 2, -1, -1):
            if c.defs[c.own[1 + j]][0] == "P":
                return j
        return None

    def parts(self, c):
        if not self.flattens(c):
            return None
        j = self._spot(c)
        ch = list(c.own[1:])
        ch[j:j + 1] = c.defs[ch[j]][1:]
        return [c.at(ch[i]) for i in self._order(c, len(ch))]

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        j = self._spot(comb_class)
        flat = list(obj.t[1:])
        flat[j:j + 1] = flat[j][1:]
        size = comb_class.gram.size
        return tuple(T(flat[i], size(flat[i])) for i in self._order(comb_class, len(flat)))

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        j = self._spot(comb_class)
        order = self._order(comb_class, len(objs))
        flat = [None] * len(order)
        for o, i in zip(objs, order):
            flat[i] = o.t
        inner = comb_class.own[1 + j]
        k = len(comb_class.defs[inner]) - 1
        flat[j:j + k] = [(inner, *flat[j:j + k])]
        yield T((comb_class.sym, *flat), sum(o.n for o in objs))


class MulCon(Constructor):
    """Every object of the child has m preimages."""

    def __init__(self, m, flip):
        self.m, self.flip = m, flip

    def can_be_equivalent(self):
        return False

    def get_equation(self, lhs_func, rhs_funcs):
        from sympy import Eq

        return Eq(lhs_func, self.m * rhs_funcs[0])

    def reliance_profile(self, n, **parameters):
        raise NotImplementedError

    def get_terms(self, parent_terms, subterms, n):
        return Counter({p: self.m * v for p, v in subterms[0](n).items()})

    def get_sub_objects(self, subobjs, n):
        for params, objs in subobjs[0](n).items():
            yield params, (objs,)

    def random_sample_sub_objects(self, parent_count, subsamplers, subrecs, n, **parameters):
        return (subsamplers[0](n=n, **parameters),)

    def equiv(self, other, data=None):
        if type(other) is not MulCon or self.m != other.m:
            return False, None
        # the copies are listed in opposite orders
        return True, (["flip", self.m] if self.flip != other.flip else None)


class DivCon(MulCon):
    """The reverse: the parent has m copies in the child."""

    def get_equation(self, lhs_func, rhs_funcs):
        from sympy import Eq

        return Eq(lhs_func, rhs_funcs[0] / self.m)

    def get_terms(self, parent_terms, subterms, n):
        res = Counter()
        for p, v in subterms[0](n).items():
            assert v % self.m == 0
            res[p] = v // self.m
        return res

    def get_sub_objects(self, subobjs, n):
        raise NotImplementedError

    def random_sample_sub_objects(self, parent_count, subsamplers, subrecs, n, **parameters):
        raise NotImplementedError

    def equiv(self, other, data=None):
        return isinstance(other, DivCon) and self.m == other.m, None


class MulRule(NonBijectiveRule):
    def _forward_order(self, obj, image, data=None):
        j, m = obj.t[1], self.comb_class.own[1]
        return m - 1 - j if self.strategy.flip else j

    def _backward_order_item(self, idx, objs, data=None):
        m = self.comb_class.own[1]
        if data is not None:
            assert list(data) == ["flip", m], data
            idx = m - 1 - idx
        j = m - 1 - idx if self.strategy.flip else idx
        return T((self.comb_class.sym, j, objs[0].t), objs[0].n)


class GM(_GCommon, Strategy):
    """
    Copies.  When `share` is set the rule is two-way, so that the database takes the
    class and its child for equivalent although their counts differ.
    """

    KIND, ARGS = "M", ("flip", "share")

    def __init__(self, **args):
        super().__init__(**_split_flags(args))
        self._setup(**args)

    def __call__(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
            if children is None:
                raise StrategyDoesNotApply("Strategy does not apply")
        return MulRule(self, comb_class, children=children)

    def can_be_equivalent(self):
        return False

    def is_two_way(self, comb_class):
        return self.share

    def is_reversible(self, comb_class):
        return self.share

    def shifts(self, comb_class, children=None):
        return (0,)

    def parts(self, c):
        return [c.at(c.own[2])]

    def constructor(self, comb_class, children=None):
        return MulCon(comb_class.own[1], self.flip)

    def reverse_constructor(self, idx, comb_class, children=None):
        return DivCon(comb_class.own[1], self.flip)

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        return (T(obj.t[2], obj.n),)

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        for j in range(comb_class.own[1]):
            yield T((comb_class.sym, j, objs[0].t), objs[0].n)


# ---------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------
def gen_grammar(sim, maxsyms=7, zero=True, copies=1):
    """Definitions; symbol 0 is the start."""
    k = sim.int(2, maxsyms)
    defs = []
    for i in range(k):
        t = sim.weighted([("U", 6), ("P", 5), ("A", 4), ("Q", 2), ("M", copies), ("E", 1)])
        pick = lambda: sim.draw(k)  # noqa: E731
        if i == 0 and t in "AEM":
            t = "U"
        if i == k - 1 and ("A", 1) not in defs:
            defs.append(("A", 1))
            continue
        if t == "A":
            defs.append(("A", sim.weighted([(1, 6), (2, 2), (0, 1 if zero else 0)])))
        elif t == "E":
            defs.append(("E",))
        elif t == "Q":
            defs.append(("Q", pick()))
        elif t == "M":
            defs.append(("M", sim.int(2, 3), pick()))
        else:
            n = sim.weighted([(2, 6), (3, 2)] + ([(1, 1)] if t == "U" else []))
            defs.append((t, *(pick() for _ in range(n))))
    if k > 2 and sim.chance(3, 5):
        # many objects: the start is a union of an atom and a product with itself
        atom = defs.index(("A", 1)) if ("A", 1) in defs[1:] else 1
        defs[atom] = ("A", 1)
        i = sim.pick([j for j in range(1, k) if j != atom])
        more = [sim.draw(k)] if sim.chance(1, 3) else []
        defs[0] = ("U", *sim.shuffled([atom, i] + more))
        defs[i] = ("P", *sim.shuffled([0, sim.pick([0, atom, sim.draw(k)])]))
    return repair(sim, defs)


def repair(sim, defs):
    """Change definitions until every symbol is determined and the start is not empty."""
    defs = [tuple(d) for d in defs]
    for step in range(60):
        g = Gram(tuple(defs))
        bad = g.unproductive()
        if not bad and not g.empty[0]:
            return tuple(defs)
        todo = bad or [i for i, e in enumerate(g.empty) if e]
        i = todo[sim.draw(len(todo))]
        d = defs[i]
        atoms = [j for j, x in enumerate(defs) if x == ("A", 1)]
        if not atoms or step > 25:
            defs[i] = ("A", 1)
        elif d[0] in "UPQM":
            ch = list(kids(d))
            a = atoms[sim.draw(len(atoms))]
            if d[0] == "Q" or d[0] == "M" or (len(ch) < 3 and sim.chance(1, 2)):
                ch.append(a)
                if len(ch) < 3 and d[0] != "U":
                    defs[i] = ("P", *ch)
                else:
                    defs[i] = (d[0], *ch)
            else:
                ch[sim.draw(len(ch))] = a
                defs[i] = (d[0] if len(ch) > 1 or d[0] == "U" else "U", *ch)
        else:
            defs[i] = ("A", 1)
    return tuple(("A", 1) for _ in defs)


def variant(sim, defs, exact=False):
    """
    A grammar whose trees correspond to those of `defs` one to one (`exact`), or that
    was perhaps changed in one place.  Returns the definitions and whether changed.
    """
    defs = [tuple(d) for d in defs]
    changed = False
    ops = [("perm", 5), ("alias", 3), ("copy", 4), ("unalias", 2), ("empty", 2), ("rename", 3)]
    if not exact:
        ops.append(("mutate", 3))
    for _ in range(sim.int(0, 5)):
        op = sim.weighted(ops)
        if op == "perm":
            i = sim.draw(len(defs))
            if defs[i][0] in "UP":
                defs[i] = (defs[i][0], *sim.shuffled(defs[i][1:]))
        elif op == "alias" and len(defs) < 12:
            _redirect(sim, defs, sim.draw(len(defs)), new=None)
        elif op == "copy" and len(defs) < 12:
            i = sim.draw(len(defs))
            _redirect(sim, defs, i, new=defs[i])
        elif op == "unalias":
            qs = [i for i, d in enumerate(defs) if d[0] == "Q"]
            if qs:
                q = sim.pick(qs)
                for i, d in enumerate(defs):
                    if i != q:
                        defs[i] = _map(d, lambda c: defs[q][1] if c == q else c)
        elif op == "empty":
            us = [i for i, d in enumerate(defs) if d[0] == "U" and len(d) < 4]
            es = [i for i, d in enumerate(defs) if d[0] == "E"]
            if us:
                if not es:
                    defs.append(("E",))
                    es = [len(defs) - 1]
                i = sim.pick(us)
                ch = list(defs[i][1:])
                ch.insert(sim.draw(len(ch) + 1), sim.pick(es))
                defs[i] = ("U", *ch)
        elif op == "rename":
            perm = [0] + sim.shuffled(range(1, len(defs)))
            inv = {p: i for i, p in enumerate(perm)}
            defs = [_map(defs[p], inv.__getitem__) for p in perm]
        elif op == "mutate":
            changed = True
            i = sim.draw(len(defs))
            d = defs[i]
            if d[0] == "A":
                defs[i] = ("A", sim.int(1, 2))
            elif d[0] in "UPQ":
                ch = list(d[1:])
                ch[sim.draw(len(ch))] = sim.draw(len(defs))
                t = "UP"[sim.draw(2)] if len(ch) > 1 and sim.chance(1, 4) else d[0]
                defs[i] = (t, *ch)
            elif d[0] == "M":
                defs[i] = ("M", 5 - d[1], d[2])
            defs = list(repair(sim, defs))
    return tuple(defs), changed


def nested(sim):
    """Products of products, recursive."""
    k = sim.int(1, 2)
    atom = 3 * k
    top = lambda: 3 * sim.draw(k)  # noqa: E731
    ref = lambda: atom + sim.draw(2) if sim.chance(1, 4) else top()  # noqa: E731
    defs = []
    for i in range(k):
        parts = [3 * i + 1, atom] + [sim.pick([atom + 1, top(), 3 * i + 2])] * sim.draw(2)
        defs.append(("U", *sim.shuffled(parts)))
        defs.append(("P", *sim.shuffled([3 * i + 2] + [ref() for _ in range(sim.int(1, 2))])))
        defs.append(("P", top(), ref()))
    defs.append(("A", 1))
    defs.append(("A", sim.int(1, 2)))
    return repair(sim, defs)


def double(sim, defs, copies=2):
    """
    Each symbol that often, with the children in another order, referring to any of the
    copies of what it referred to.
    """
    k = len(defs)
    res = []
    for _ in range(copies):
        for d in defs:
            d = _map(d, lambda c: c + k * sim.draw(copies))
            if d[0] in "UP" and sim.chance(1, 3):
                d = (d[0], *sim.shuffled(d[1:]))
            res.append(d)
    return tuple(res)


def with_copies(sim, defs, single=False):
    """
    Here and there a symbol is replaced by copies of it; by a single copy: then nothing but
    the kind of the rule tells.
    """
    defs = [tuple(d) for d in defs]
    for _ in range(sim.int(2, 5) if single else sim.int(1, 3)):
        i = sim.draw(len(defs))
        if defs[i][0] not in "UPQ":
            continue
        j = 1 + sim.draw(len(defs[i]) - 1)
        if defs[i][0] == "Q" or defs[i][j] >= len(defs):
            continue
        defs.append(("M", 1 if single else sim.int(2, 3), defs[i][j]))
        defs[i] = (*defs[i][:j], len(defs) - 1, *defs[i][j + 1:])
    return repair(sim, defs)


def other_copies(sim, defs):
    """The copies are of another number, or none, in some places."""
    return tuple(
        d if d[0] != "M" or sim.chance(2, 3) else sim.pick([("M", 5 - d[1], d[2]), ("Q", d[2])])
        for d in defs)


def twins(sim, count=2):
    """
    Grammars over the same symbols, in which nearly every symbol has a twin that
    differs from it in one place or none, and which refer to the one or the other.
    """
    k = sim.int(2, 4)
    base = []
    for i in range(k):
        t = sim.pick("UP")
        n = sim.weighted([(2, 5), (3, 2)])
        base.append((t, [sim.draw(k + 1) for _ in range(n)]))
    if sim.chance(1, 2):
        base[0] = ("U", [k, 1] + [sim.draw(k + 1)] * sim.draw(2))
        base[1] = ("P", sim.shuffled([0, sim.pick([0, k, sim.draw(k + 1)])]))
    two = sim.chance(3, 4)

    def make():
        # symbol 2 * i + 1 + b is the twin b of i; the atoms come last
        defs = [None] * (2 * k + 3)
        ref = lambda c: 1 + 2 * c + sim.draw(2)  # noqa: E731
        for i, (t, ch) in enumerate(base):
            for b in range(2):
                x = [ref(c) for c in ch]
                if sim.chance(1, 4):
                    x = sim.shuffled(x)
                defs[1 + 2 * i + b] = (t, *x)
        defs[1 + 2 * k], defs[2 + 2 * k] = ("A", 1), ("A", 2 if two else 1)
        top = [ref(sim.draw(2)) for _ in range(2)] + [ref(sim.draw(k + 1))] * sim.draw(2)
        defs[0] = (sim.pick("UP") if sim.chance(1, 3) else "P", *top)
        return defs

    res = [repair(sim, make())]
    while len(res) < count:
        b = list(res[0])
        for i, d in enumerate(b):
            if d[0] not in "UP":
                continue
            ch = list(d[1:])
            if sim.chance(1, 3):
                ch = sim.shuffled(ch)
            if sim.chance(1, 3):
                j = sim.draw(len(ch))
                if ch[j]:
                    ch[j] = (ch[j] - 1 ^ 1) + 1
            b[i] = (d[0], *ch)
        res.append(repair(sim, b))
    return res


def _map(d, f):
    if d[0] in "UPQ":
        return (d[0], *map(f, d[1:]))
    if d[0] == "M":
        return ("M", d[1], f(d[2]))
    return d


def _redirect(sim, defs, i, new):
    """A new symbol, a copy of i or a renaming of it, used in place of i here and there."""
    j = len(defs)
    for s, d in enumerate(defs):
        defs[s] = _map(d, lambda c: j if c == i and sim.chance(1, 2) else c)
    defs.append(("Q", i) if new is None else defs[i])


def gen_pack(sim, *, gates=True, flat=True, one_way=True, brute=False, iterative=None, share=False,
             rank=False, shy=0):
    from .wordgen import draw_flags, draw_gate

    gate = lambda den: draw_gate(sim, 1, den) if gates else None  # noqa: E731
    rev = lambda: not (one_way and sim.chance(1, 8))  # noqa: E731
    order = lambda: sim.draw(4) if sim.chance(1, 2) else 0  # noqa: E731
    flags = lambda: {k: v for k, v in draw_flags(sim).items()  # noqa: E731
                     if not shy or k == "inferrable"}
    dod = {"shy": sim.draw(1 << 16)} if shy else {}
    strats = [
        GU(order=order(), gate=None if shy else gate(10), reversible=rev(), **flags()),
        (GShyP if shy == 2 else GP)(order=order(), gate=None if shy else gate(10), reversible=rev(),
                               **(dod if shy == 2 else {}), **flags()),
        GM(flip=sim.chance(1, 2), share=share),
    ]
    if shy or sim.chance(1, 2):
        strats.append(GQ(two_way=not (one_way and sim.chance(1, 6)), reversible=rev()))
    else:
        strats.append(GQSym(reversible=rev()))
    if flat and (shy or sim.chance(1, 3)):
        strats.append(GFlatU(order=order(), gate=gate(2 if shy else 4)))
    if flat and (shy or sim.chance(1, 3)):
        strats.append(GFlatP(order=order(), gate=(dod["shy"], 4, 3) if shy == 2 else None if shy else gate(4)))
    if sim.chance(1, 6):
        strats.append(GU(order=sim.draw(9)))
    if rank:
        for _ in range(sim.weighted([(0, 3), (1, 2), (2, 1)])):
            strats.append(GRank(step=sim.int(1, 3),
                                gate=gates and (sim.draw(1 << 16), 6, sim.int(1, 5)) or None,
                                two_way=not (one_way and sim.chance(1, 6)), reversible=rev(),
                                **flags()))
    slots = {"initial": [], "infer": [], "e1": [], "e2": []}
    for s in strats:
        if isinstance(s, GQ) and sim.chance(1, 3):
            slots["infer"].append(s)
        elif isinstance(s, GQSym) and sim.chance(1, 3):
            slots.setdefault("sym", []).append(s)
        else:
            slots[sim.weighted([("initial", 3), ("e1", 3), ("e2", 1)])].append(s)
    ver = [AtomStrategy()]
    if brute:
        ver.append(W_.BruteV(gate=(sim.draw(1 << 16), sim.pick([3, 5]), 1)))
    return StrategyPack(
        initial_strats=sim.shuffled(slots["initial"]),
        inferral_strats=slots["infer"],
        expansion_strats=[sim.shuffled(x) for x in (slots["e1"], slots["e2"]) if x],
        ver_strats=ver,
        symmetries=slots.get("sym", []),
        name="trees",
        iterative=sim.chance(1, 10) if iterative is None else iterative,
    )


def direct_rules(sim, start, order=0, sym=None):
    """The rules of the definitions that are reached from the start."""
    strats = [GU(order=order), GP(order=order), GM(flip=sim.chance(1, 2), share=False),
              GQ() if sim.chance(1, 2) else GQSym(), AtomStrategy()]
    todo, seen, rules = [start], {start}, []
    while todo:
        c = todo.pop()
        s = {"U": strats[0], "P": strats[1], "M": strats[2], "Q": strats[3], "A": strats[4]}[
            c.own[0]]
        r = s(c)
        if c.own[0] == "U" and r.is_equivalence() and len(r.children) > 1:
            r = r.to_equivalence_rule()
        rules.append(r)
        for x in r.children:
            if x not in seen and not x.lang.empty:
                seen.add(x)
                todo.append(x)
    return rules
