"""
The word universe: classes with objects and statistics, so that counting,
generation, sampling, bijections and expansion can be judged against an oracle
that shares no code with the library.

A class is a language (words over an alphabet with a prefix, avoiding factors
and perhaps containing a letter; single words; Dyck words of bounded or
unbounded height) with an ordered tuple of statistics, each the number of
letters of a word that lie in a set of letters.  Every language is given by a
small automaton; true counts, minimum sizes, emptiness and atoms are computed
from the automaton, never from a rule.
"""

import copy
import heapq
import json
import random
from collections import Counter, defaultdict
from itertools import permutations

from comb_spec_searcher import (
    AtomStrategy,
    CartesianProductStrategy,
    CombinatorialClass,
    CombinatorialObject,
    DisjointUnionStrategy,
    Strategy,
    StrategyFactory,
    StrategyPack,
    SymmetryStrategy,
    VerificationStrategy,
)
from comb_spec_searcher.exception import InvalidOperationError, StrategyDoesNotApply
from comb_spec_searcher.strategies.constructor import Constructor, DisjointUnion
from comb_spec_searcher.strategies.rule import NonBijectiveRule, Rule
from comb_spec_searcher.strategies.strategy import AbstractStrategy

from .core import CUR, Discard
from .ints import _mix, salt

MAX_APPLIED = 1200
_LANG = {}  # facts about languages, by key; emptied for each run


def reset():
    _LANG.clear()


def _callback(name, *what):
    sim = CUR[0]
    if sim is not None:
        sim.callback(name, *what)
        if name == "apply":
            sim.applied = getattr(sim, "applied", 0) + 1
            if sim.applied > getattr(sim, "max_applied", MAX_APPLIED):
                raise Discard("large universe")


class Word(str, CombinatorialObject):
    def size(self):
        return str.__len__(self)


class Lang:
    """The automaton of a language and what follows from it."""

    def __init__(self, kind, al, p, av, must, just, h):
        self.kind, self.al, self.p, self.av = kind, al, p, av
        self.must, self.just, self.h = must, just, h
        self.ml = max([len(q) for q in av], default=1) - 1
        self.start = self._start()
        self._can = {}
        self._rows = {}
        self._facts()

    def _start(self):
        if self.kind != "F":
            return (0, False)
        if any(c not in self.al for c in self.p) or any(q in self.p for q in self.av):
            return None
        return (self.p[max(0, len(self.p) - self.ml):] if self.ml else "",
                not self.must or self.must in self.p)

    def step(self, s, c):
        if self.kind == "F":
            if self.just:
                return None
            w = s[0] + c
            for q in self.av:
                if w.endswith(q):
                    return None
            return (w[len(w) - self.ml:] if len(w) > self.ml else w) if self.ml else "", (
                s[1] or c == self.must)
        k = s[0] + (1 if c == "a" else -1)
        if k < 0 or 0 <= self.h < k:
            return None
        return (k, True)

    def accept(self, s):
        if self.kind == "F":
            return s[1]
        return s[0] == 0 and (self.kind == "D" or s[1])

    def _facts(self):
        """empty, minimum size, letters that occur, atom."""
        if self.kind != "F":
            self.empty = self.kind == "P" and self.h == 0
            self.min = 0 if self.kind == "D" else 2
            self.atom = self.kind == "D" and self.h == 0
            self.occ = frozenset() if self.h == 0 else frozenset("ab")
            return
        self.empty, self.min, self.atom, self.occ = True, 0, False, frozenset()
        if self.start is None:
            return
        seen, todo, edges = {self.start}, [self.start], []
        while todo:
            s = todo.pop()
            for c in self.al:
                t = self.step(s, c)
                if t is not None:
                    edges.append((s, c, t))
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
        live = {s for s in seen if self.accept(s)}
        while True:
            new = {s for s, _, t in edges if t in live} - live
            if not new:
                break
            live |= new
        if self.start not in live:
            return
        self.empty = False
        edges = [(s, c, t) for s, c, t in edges if s in live and t in live]
        self.occ = frozenset(self.p) | {c for _, c, _ in edges}
        dist, todo = {self.start: 0}, [self.start]
        for s in todo:
            for a, _, t in edges:
                if a == s and t not in dist:
                    dist[t] = dist[s] + 1
                    todo.append(t)
        self.min = len(self.p) + min(d for s, d in dist.items() if self.accept(s))
        tot = 0
        for n in range(self.min, self.min + len(live) + 2):
            tot += sum(self.counts((), n).values())
            if tot > 1:
                break
        self.atom = tot == 1

    def min_value(self, letters):
        """The least number of letters in `letters` in a word."""
        if self.empty:
            return 0
        if self.kind == "D":
            return 0
        if self.kind == "P":
            return sum(c in letters for c in "ab")
        base = sum(c in letters for c in self.p)
        heap, done = [(0, repr(self.start), self.start)], set()
        while heap:
            d, _, s = heapq.heappop(heap)
            if s in done:
                continue
            done.add(s)
            if self.accept(s):
                return base + d
            for c in self.al:
                t = self.step(s, c)
                if t is not None and t not in done:
                    heapq.heappush(heap, (d + (c in letters), repr(t), t))
        raise AssertionError

    def counts(self, sets, n):
        """The number of words of size n by the vector of letter counts in `sets`."""
        if self.start is None or n < len(self.p):
            return Counter()
        rows = self._rows.setdefault(sets, [])
        if not rows:
            v0 = tuple(sum(c in s for c in self.p) for s in sets)
            rows.append({self.start: Counter({v0: 1})})
        while len(rows) <= n - len(self.p):
            new = {}
            for s, vecs in rows[-1].items():
                for c in self.al:
                    t = self.step(s, c)
                    if t is None:
                        continue
                    inc = tuple(int(c in x) for x in sets)
                    tgt = new.setdefault(t, Counter())
                    for v, k in vecs.items():
                        tgt[tuple(map(int.__add__, v, inc))] += k
            rows.append(new)
        res = Counter()
        for s, vecs in rows[n - len(self.p)].items():
            if self.accept(s):
                res.update(vecs)
        return res

    def can(self, s, r):
        """An accepted word of r more letters exists from state s."""
        key = (s, r)
        if key not in self._can:
            if r == 0:
                self._can[key] = self.accept(s)
            else:
                self._can[key] = any(
                    t is not None and self.can(t, r - 1)
                    for t in (self.step(s, c) for c in self.al)
                )
        return self._can[key]

    def words(self, n):
        if self.start is None or n < len(self.p):
            return

        def rec(s, r, w):
            if not self.can(s, r):
                return
            if r == 0:
                yield Word(w)
                return
            for c in self.al:
                t = self.step(s, c)
                if t is not None:
                    yield from rec(t, r - 1, w + c)

        yield from rec(self.start, n - len(self.p), self.p)

    def contains(self, w):
        if self.start is None or not w.startswith(self.p):
            return False
        s = self.start
        for c in w[len(self.p):]:
            if c not in self.al:
                return False
            s = self.step(s, c)
            if s is None:
                return False
        return self.accept(s)


class W(CombinatorialClass):
    """A language with statistics."""

    def __init__(self, kind="F", al="", p="", av=(), must="", just=False, h=-1, stats=()):
        self.kind, self.p, self.must, self.h = kind, p, must, h
        self.al = "".join(sorted(al))
        self.av = tuple(sorted(set(av)))
        self.just = bool(just)
        self.stats = tuple((k, "".join(sorted(s))) for k, s in stats)

    # -- facts -------------------------------------------------------------
    def lkey(self):
        return (self.kind, self.al, self.p, self.av, self.must, self.just, self.h)

    def key(self):
        k = self.__dict__.get("_key")
        if k is None:
            k = self._key = self.lkey() + (self.stats,)
        return k

    @property
    def lang(self):
        res = self.__dict__.get("_lang")
        if res is None:
            k = self.lkey()
            if k not in _LANG:
                _LANG[k] = Lang(*k)
            res = self._lang = _LANG[k]
        return res

    def bare(self):
        return W(*self.lkey())

    def truth(self, n):
        """The true terms of size n."""
        return self.lang.counts(tuple(s for _, s in self.stats), n)

    def value(self, w):
        return tuple(sum(c in s for c in w) for _, s in self.stats)

    def contains(self, w):
        return self.lang.contains(w)

    # -- what the library asks ----------------------------------------------
    def is_empty(self):
        sim = CUR[0]
        if sim is not None:
            sim.probe("is_empty_calls")
            sim.callback("is_empty", repr(self))
        return self.lang.empty

    def is_atom(self):
        return self.lang.atom

    def _lazy(self):
        return CUR[0] is not None and getattr(CUR[0], "lazy_min", False)

    def minimum_size_of_object(self):
        m = self.lang.min
        return min(1, m) if self._lazy() and not self.lang.atom else m

    def get_minimum_value(self, parameter):
        if self._lazy() and not self.lang.atom:
            return 0
        return self.lang.min_value(dict(self.stats)[parameter])

    @property
    def extra_parameters(self):
        return tuple(k for k, _ in self.stats)

    def possible_parameters(self, n):
        for v in sorted(self.truth(n)):
            yield dict(zip(self.extra_parameters, v))

    def get_parameters(self, obj):
        return self.value(obj)

    def objects_of_size(self, n, **parameters):
        _callback("objects", repr(self), n)
        hide = getattr(CUR[0], "hide", None)
        if hide is not None and not self.lang.atom and _mix(hide, self.key()) % 2:
            # nobody has to implement this method
            raise NotImplementedError
        want = tuple(parameters[k] for k in self.extra_parameters) if parameters else None
        for w in self.lang.words(n):
            if want is None or self.value(w) == want:
                yield w

    # -- representation ------------------------------------------------------
    def to_bytes(self):
        if CUR[0] is not None and CUR[0].plain:
            raise NotImplementedError
        return json.dumps(self.key()).encode()

    @classmethod
    def from_bytes(cls, b):
        kind, al, p, av, must, just, h, stats = json.loads(b.decode())
        return cls(kind, al, p, av, must, just, h, stats)

    def to_jsonable(self):
        d = super().to_jsonable()
        d["key"] = list(self.key())
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(*d["key"])

    def __eq__(self, other):
        if not isinstance(other, W):
            return NotImplemented
        return self.key() == other.key()

    def __hash__(self):
        s = salt()
        h = self.__dict__.get("_hash")
        if h is None or h[0] != s:
            h = self._hash = (s, _mix(s, self.key()) >> 3)
        return h[1]

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k not in ("_hash", "_key", "_lang")}

    def __lt__(self, other):
        return self.key() < other.key()

    def __repr__(self):
        if self.kind == "F":
            s = f"'{self.p}'" if self.just else f"{self.al}:{self.p}*"
            if self.av:
                s += " av " + ",".join(self.av)
            if self.must:
                s += " with " + self.must
        else:
            s = f"{self.kind}{'' if self.h < 0 else self.h}"
        if self.stats:
            s += " [" + " ".join(f"{k}={x}" for k, x in self.stats) + "]"
        return "<" + s + ">"

    __str__ = __repr__


def atom(word):
    return W("F", "".join(sorted(set(word))), word, (), "", True)


# ---------------------------------------------------------------------------
# statistics of children
# ---------------------------------------------------------------------------
DROP, MERGE, RENAME, REORDER, ALT, ADD = 1, 2, 4, 8, 16, 32
_SWAP = {"k0": "k1", "k1": "k0"}


def restat(stats, child, pol, idx=0):
    """
    The child with statistics coming from the parent's, and the map from parent
    names to child names.  A statistic that is zero on the child may be dropped
    (DROP), two that agree on it may be merged (MERGE), names and order may change,
    and one that is zero may appear out of nowhere (ADD).
    """
    if pol & ALT and idx % 2 == 0:
        pol &= ~(DROP | MERGE | RENAME | REORDER)
    occ = child.lang.occ
    res, mapping, byset = [], {}, {}
    for name, letters in stats:
        eff = "".join(c for c in letters if c in occ)
        if pol & DROP and not eff:
            continue
        if pol & MERGE and eff in byset:
            mapping[name] = byset[eff]
            continue
        new = _SWAP.get(name, name) if pol & RENAME else name
        mapping[name] = new
        byset.setdefault(eff, new)
        res.append((new, letters))
    if pol & ADD and len(occ) < 3 and all(k != "z" for k, _ in res):
        res.insert(idx % 2, ("z", next(c for c in "abc" if c not in occ)))
    if pol & REORDER:
        res.reverse()
    return W(*child.lkey(), tuple(res)), mapping


class _Common:
    """Settings shared by the word strategies; subclasses give `parts`."""

    ARGS = ()

    def _setup(self, pol=0, gate=None, two_way=True, reversible=True, **args):
        self.pol = pol
        self.gate = tuple(gate) if gate is not None else None
        self.two_way = two_way
        self.reversible = reversible
        for k in self.ARGS:
            setattr(self, k, args.pop(k))
        assert not args, args

    def open(self, c):
        if self.gate is None:
            return True
        s, mod, keep = self.gate
        return _mix(s, c.key()) % mod < keep

    def is_two_way(self, comb_class):
        return self.two_way and self.reversible

    def is_reversible(self, comb_class):
        return self.reversible

    def parts(self, c):
        """[(language, letter map or None)] or None"""
        raise NotImplementedError

    def _children(self, c):
        parts = self.parts(c) if isinstance(c, W) and self.open(c) else None
        if parts is None:
            return None
        res = []
        for i, part in enumerate(parts):
            lang, tr = part if isinstance(part, tuple) else (part, None)
            stats = c.stats
            if tr is not None:
                stats = tuple((k, "".join(tr.get(x, x) for x in s)) for k, s in stats)
            pol = self.pol if isinstance(self, DisjointUnionStrategy) else self.pol & ~ADD
            res.append(restat(stats, lang, pol, i))
        return res

    def constructor(self, comb_class, children=None):
        if isinstance(self, DisjointUnionStrategy) and self.pol & ADD:
            parts = self._children(comb_class)
            if parts is None:
                raise StrategyDoesNotApply
            fixed = tuple({k: 0 for k in c.extra_parameters if k not in m.values()}
                          for c, m in parts)
            if any(fixed):
                if CUR[0] is not None:
                    CUR[0].probe("added_statistic")
                return DisjointUnion(comb_class, tuple(c for c, _ in parts),
                                     tuple(m for _, m in parts), fixed)
        return super().constructor(comb_class, children)

    def decomposition_function(self, comb_class):
        _callback("apply", self.formal_step(), repr(comb_class))
        res = self._children(comb_class)
        return None if res is None else tuple(x for x, _ in res)

    def extra_parameters(self, comb_class, children=None):
        res = self._children(comb_class)
        if res is None:
            raise StrategyDoesNotApply("Strategy does not apply")
        return tuple(m for _, m in res)

    def formal_step(self):
        extra = "".join(f" {k}={getattr(self, k)}" for k in self.ARGS)
        return f"{type(self).__name__}{extra} pol={self.pol} gate={self.gate}"

    def __repr__(self):
        return (f"{self.formal_step()} 2way={self.two_way} rev={self.reversible} "
                f"{self._ignore_parent:d}{self._inferrable:d}{self._possibly_empty:d}"
                f"{self._workable:d}")

    def to_jsonable(self):
        d = super().to_jsonable()
        d["pol"] = self.pol
        d["gate"] = list(self.gate) if self.gate is not None else None
        d["two_way"] = self.two_way
        d["reversible"] = self.reversible
        for k in self.ARGS:
            d[k] = getattr(self, k)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


_FLAGS = ("ignore_parent", "inferrable", "possibly_empty", "workable")


def _split_flags(args):
    return {k: args.pop(k) for k in _FLAGS if k in args}


def _in_place(strategy, comb_class, objs, children):
    """A map may rely on every part being handed over in the place of its child."""
    if children is None:
        children = strategy.decomposition_function(comb_class)
    assert len(objs) == len(children), "parts out of place"
    for ch, w in zip(children, objs):
        assert w is None or ch.contains(w), "parts out of place"


class _Union(_Common, DisjointUnionStrategy):
    def __init__(self, **args):
        super().__init__(**_split_flags(args))
        self._setup(**args)

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        if children is None:
            children = self.decomposition_function(comb_class)
        img = self.image(comb_class, obj)
        return tuple(img if ch.contains(img) else None for ch in children)

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        idx = DisjointUnionStrategy.backward_map_index(objs)
        _in_place(self, comb_class, objs, children)
        yield self.preimage(comb_class, objs[idx])

    def image(self, c, w):
        return w

    def preimage(self, c, w):
        return w


class _Product(_Common, CartesianProductStrategy):
    def __init__(self, **args):
        super().__init__(**_split_flags(args))
        self._setup(**args)

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        _in_place(self, comb_class, objs, children)
        yield self.join(comb_class, objs)

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        return tuple(map(Word, self.cut(comb_class, obj)))

    def join(self, c, objs):
        return Word("".join(objs))

    def cut(self, c, w):
        raise NotImplementedError


class Expand(_Union):
    """Words with prefix p: p itself, or p followed by one of the letters."""

    ARGS = ("order",)

    def parts(self, c):
        if c.kind != "F" or c.just:
            return None
        bound = max([len(q) for q in c.av], default=1)
        if len(c.p) > bound:
            return None
        res = [W("F", c.al, c.p, c.av, c.must, True)]
        if not c.must and not any(q in c.p for q in c.av):
            res = [atom(c.p)]
        res += [W("F", c.al, c.p + x, c.av, c.must) for x in c.al]
        k = self.order % len(res)
        return res[k:] + res[:k]


class Front(_Product):
    """Remove a part of the prefix that no forbidden factor can use."""

    ARGS = ("style",)

    def _k(self, c):
        if c.kind != "F" or c.just or c.lang.empty:
            return 0
        k = 0
        while k < len(c.p) and not any(
            len(q) > len(c.p) - k and q.startswith(c.p[k:]) for q in c.av
        ):
            k += 1
        return min(k, 1) if self.style & 1 else k

    def parts(self, c):
        k = self._k(c)
        if not k:
            return None
        head, tail = c.p[:k], c.p[k:]
        rest = W("F", c.al, tail, c.av, "" if c.must in head else c.must)
        atoms = [atom(x) for x in head] if self.style & 2 else [atom(head)]
        return [rest] + atoms if self.style & 4 else atoms + [rest]

    def cut(self, c, w):
        k = self._k(c)
        atoms = list(w[:k]) if self.style & 2 else [w[:k]]
        return [w[k:]] + atoms if self.style & 4 else atoms + [w[k:]]

    def join(self, c, objs):
        if self.style & 4:
            objs = objs[1:] + objs[:1]
        return Word("".join(objs))


def _without(c, x, p):
    return W("F", c.al.replace(x, ""), p, tuple(q for q in c.av if x not in q))


class SplitLetter(_Union):
    """Words without the letter, words with it."""

    ARGS = ("letter",)

    def parts(self, c):
        x = self.letter
        if c.kind != "F" or c.just or c.must or x not in c.al or x in c.p:
            return None
        return [_without(c, x, c.p), W("F", c.al, c.p, c.av, x)]


class FirstLetter(_Product):
    """A word with the letter, cut at its first (or last) occurrence."""

    ARGS = ("style",)

    def parts(self, c):
        x = c.must
        if c.kind != "F" or c.just or not x or x in c.p or c.lang.empty:
            return None
        if any(x in q for q in c.av):
            return None
        if self.style & 1:
            return [W("F", c.al, c.p, c.av), atom(x), _without(c, x, "")]
        return [_without(c, x, c.p), atom(x), W("F", c.al, "", c.av)]

    def cut(self, c, w):
        i = w.rindex(c.must) if self.style & 1 else w.index(c.must)
        return [w[:i], c.must, w[i + 1:]]


class DyckSplit(_Union):
    def parts(self, c):
        if c.kind != "D" or c.h == 0:
            return None
        res = [W("D", "ab", h=0), W("P", "ab", h=c.h)]
        return res


class DyckCut(_Product):
    ARGS = ("style",)

    def parts(self, c):
        if c.kind != "P" or c.h == 0:
            return None
        low = W("D", "ab", h=max(-1, c.h - 1))
        same = W("D", "ab", h=c.h)
        if self.style & 1:
            return [same, atom("a"), low, atom("b")]
        return [atom("a"), low, atom("b"), same]

    def cut(self, c, w):
        k, rets = 0, []
        for i, x in enumerate(w):
            k += 1 if x == "a" else -1
            if k == 0:
                rets.append(i)
        if self.style & 1:
            i = rets[-2] + 1 if len(rets) > 1 else 0
            return [w[:i], "a", w[i + 1:-1], "b"]
        i = rets[0]
        return ["a", w[1:i], "b", w[i + 1:]]


class Reduce(_Union):
    """The same language, described without redundancy."""

    def parts(self, c):
        if c.kind != "F" or c.just or c.lang.empty:
            return None
        if c.lang.atom:
            return [atom(str(next(c.lang.words(c.lang.min))))]
        al = "".join(x for x in c.al if x not in c.av)
        av = [q for q in c.av if all(x in al for x in q)
              and not any(r != q and r in q for r in c.av)]
        new = W("F", al, c.p, av, "" if c.must in c.p else c.must)
        return [new] if new != c.bare() else None


class StatNorm(_Union):
    """The same language with other statistics."""

    def _children(self, c):
        if not isinstance(c, W) or not c.stats or not self.open(c):
            return None
        res = restat(c.stats, c, self.pol)
        return [res] if res[0] != c else None


class Permute(_Common, SymmetryStrategy):
    """Rename the letters; `perm` is a string of pairs."""

    ARGS = ("perm",)

    def __init__(self, **args):
        super().__init__(**_split_flags(args))
        self._setup(**args)

    def _tr(self):
        return {self.perm[i]: self.perm[i + 1] for i in range(0, len(self.perm), 2)}

    def parts(self, c):
        if c.kind != "F":
            return None
        tr = self._tr()

        def m(s):
            return "".join(tr.get(x, x) for x in s)

        return [(W("F", m(c.al), m(c.p), map(m, c.av), m(c.must), c.just), tr)]

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        tr = self._tr()
        return (Word("".join(tr.get(x, x) for x in obj)),)

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        tr = {v: k for k, v in self._tr().items()}
        yield Word("".join(tr.get(x, x) for x in objs[0]))


class Mirror(_Common, SymmetryStrategy):
    """Read the words from right to left."""

    def __init__(self, **args):
        super().__init__(**_split_flags(args))
        self._setup(**args)

    def parts(self, c):
        if c.kind == "F" and c.just:
            return [atom(c.p[::-1])] if not c.must and not c.av else None
        if c.kind == "F" and not c.p:
            return [W("F", c.al, "", [q[::-1] for q in c.av], c.must)]
        return None

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        return (Word(obj[::-1]),)

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        yield Word(objs[0][::-1])


# ---------------------------------------------------------------------------
# a rule whose map is not injective
# ---------------------------------------------------------------------------
class BlowCon(Constructor):
    """An object of the child with z marked letters has 2**z preimages."""

    def __init__(self, parent, child, mapping, z):
        self.mapping, self.z = dict(mapping), z
        self.pnames, self.cnames = parent.extra_parameters, child.extra_parameters

    def can_be_equivalent(self):
        return False

    def get_equation(self, lhs_func, rhs_funcs):
        raise NotImplementedError

    def reliance_profile(self, n, **parameters):
        raise NotImplementedError

    def _up(self, params):
        d = dict(zip(self.cnames, params))
        return tuple(d[self.mapping[k]] for k in self.pnames), d[self.z]

    def get_terms(self, parent_terms, subterms, n):
        res = Counter()
        for params, value in subterms[0](n).items():
            up, z = self._up(params)
            res[up] += value * 2**z
        return res

    def get_sub_objects(self, subobjs, n):
        for params, objs in subobjs[0](n).items():
            yield self._up(params)[0], (objs,)

    def random_sample_sub_objects(self, parent_count, subsamplers, subrecs, n, **parameters):
        r = random.randint(1, parent_count)
        for z in range(n + 1):
            down = {self.mapping[k]: v for k, v in parameters.items()}
            down[self.z] = z
            r -= subrecs[0](n=n, **down) * 2**z
            if r <= 0:
                return (subsamplers[0](n=n, **down),)
        raise RuntimeError("no object found")

    def equiv(self, other, data=None):
        return (
            isinstance(other, BlowCon)
            and len(self.mapping) == len(other.mapping) == 0,
            None,
        )


class BlowRule(NonBijectiveRule):
    def _forward_order(self, obj, image, data=None):
        return sum(1 << i for i, (x, y) in enumerate(zip(
            [c for c in obj if c in self.strategy.pair],
            [c for c in image[0] if c in self.strategy.pair])) if x != y)

    def _backward_order_item(self, idx, objs, data=None):
        for obj in self.backward_map(objs):
            if self._forward_order(obj, objs) == idx:
                return obj
        raise AssertionError("no such preimage")


class Blow(_Common, Strategy):
    """Identify two letters that the description does not tell apart."""

    ARGS = ("pair",)

    def __init__(self, **args):
        super().__init__(**_split_flags(args))
        self._setup(**args)

    def __call__(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
            if children is None:
                raise StrategyDoesNotApply("Strategy does not apply")
        return BlowRule(self, comb_class, children=children)

    def can_be_equivalent(self):
        return False

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False

    def shifts(self, comb_class, children=None):
        return (0,)

    def _z(self, c):
        return next(z for z in ("z0", "z1", "z2", "z3") if z not in c.extra_parameters)

    def _children(self, c):
        if not isinstance(c, W) or not self.open(c):
            return None
        x, y = self.pair
        if c.kind != "F" or c.just or c.lang.empty or x not in c.al or y not in c.al:
            return None
        if any(z in s for z in self.pair for s in (c.p, c.must, *c.av)):
            return None
        if any((x in s) != (y in s) for _, s in c.stats) or len(c.stats) > 3:
            return None
        stats = tuple((k, s.replace(y, "")) for k, s in c.stats) + ((self._z(c), x),)
        child = W("F", c.al.replace(y, ""), c.p, c.av, c.must, stats=stats)
        return [(child, {k: k for k, _ in c.stats})]

    def constructor(self, comb_class, children=None):
        ((child, mapping),) = self._children(comb_class)
        return BlowCon(comb_class, child, mapping, self._z(comb_class))

    def reverse_constructor(self, idx, comb_class, children=None):
        raise NotImplementedError

    def forward_map(self, comb_class, obj, children=None):
        _callback("forward", self.formal_step())
        return (Word(obj.replace(self.pair[1], self.pair[0])),)

    def backward_map(self, comb_class, objs, children=None):
        _callback("backward", self.formal_step())
        x, y = self.pair
        spots = [i for i, c in enumerate(objs[0]) if c == x]
        for m in range(1 << len(spots)):
            w = list(objs[0])
            for j, i in enumerate(spots):
                if m >> j & 1:
                    w[i] = y
            yield Word("".join(w))


# ---------------------------------------------------------------------------
# verification
# ---------------------------------------------------------------------------
class _Ver(VerificationStrategy):
    ARGS = ()

    def __init__(self, gate=None, ignore_parent=False, **args):
        super().__init__(ignore_parent=ignore_parent)
        self.gate = tuple(gate) if gate is not None else None
        for k in self.ARGS:
            setattr(self, k, args.pop(k))
        assert not args, args

    def open(self, c):
        if self.gate is None:
            return True
        s, mod, keep = self.gate
        return _mix(s, c.key()) % mod < keep

    def get_terms(self, comb_class, n):
        _callback("terms", repr(comb_class), n)
        return comb_class.truth(n)

    def get_objects(self, comb_class, n):
        _callback("objs", repr(comb_class), n)
        res = defaultdict(list)
        for w in comb_class.lang.words(n):
            res[comb_class.value(w)].append(w)
        return res

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        want = tuple(parameters[k] for k in comb_class.extra_parameters)
        objs = [w for w in comb_class.lang.words(n) if comb_class.value(w) == want]
        return random.choice(objs)

    def get_genf(self, comb_class, funcs=None):
        raise NotImplementedError

    def pack(self, comb_class):
        raise InvalidOperationError(f"no pack for {self}")

    def formal_step(self):
        return f"{type(self).__name__} gate={self.gate}"

    def __repr__(self):
        return self.formal_step() + f" {self.ignore_parent:d}"

    def to_jsonable(self):
        d = super().to_jsonable()
        d["gate"] = list(self.gate) if self.gate is not None else None
        for k in self.ARGS:
            d[k] = getattr(self, k)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class AtomV(_Ver):
    """Atoms with statistics."""

    def verified(self, comb_class):
        _callback("verified", repr(comb_class))
        return comb_class.is_atom() and self.open(comb_class)


class BruteV(_Ver):
    """Classes that are known, with no pack to expand them."""

    def verified(self, comb_class):
        _callback("verified", repr(comb_class))
        return not comb_class.lang.empty and self.open(comb_class)


class ElseV(_Ver):
    """All classes are known except one."""

    ARGS = ("but",)

    def verified(self, comb_class):
        _callback("verified", repr(comb_class))
        return not comb_class.lang.empty and json.dumps(comb_class.key()) != self.but


def only_backward(c):
    """The rule of the class with a shorter prefix leads to this one."""
    if c.kind != "F" or c.just or len(c.p) < 2 or c.lang.empty or c.lang.atom:
        return False
    e = Expand(order=0)
    for k in 1, 2:
        parts = e._children(shorter(c, k))
        if parts is None or shorter(c, k - 1) not in [x for x, _ in parts]:
            return False
    return True


class PackV(_Ver):
    """
    Classes known through a pack that enumerates them.  A pack with the name
    "backward" takes everything but the class for known.
    """

    ARGS = ("spec", "direct")

    def verified(self, comb_class):
        _callback("verified", repr(comb_class))
        if comb_class.lang.empty or comb_class.lang.atom and self.gate[0] % 4:
            return False
        if self.spec["name"] == "backward" and not only_backward(comb_class):
            return False
        return self.open(comb_class)

    def pack(self, comb_class):
        spec = self.spec
        if spec["name"] == "backward":
            spec = copy.deepcopy(spec)
            for s in spec["ver"]:
                if "but" in s:
                    s["but"] = json.dumps(comb_class.key())
        return make_pack(spec)

    def get_terms(self, comb_class, n):
        if self.direct:
            return super().get_terms(comb_class, n)
        return VerificationStrategy.get_terms(self, comb_class, n)

    def get_objects(self, comb_class, n):
        if self.direct:
            return super().get_objects(comb_class, n)
        return VerificationStrategy.get_objects(self, comb_class, n)

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        if self.direct:
            return super().random_sample_object_of_size(comb_class, n, **parameters)
        return VerificationStrategy.random_sample_object_of_size(
            self, comb_class, n, **parameters)

    def formal_step(self):
        return f"PackV gate={self.gate} {self.spec['name']}"


# ---------------------------------------------------------------------------
# factories
# ---------------------------------------------------------------------------
def shorter(c, k):
    return W("F", c.al, c.p[:max(0, len(c.p) - k)], c.av, c.must, stats=c.stats)


class WFactory(StrategyFactory):
    """
    Yields, for each class, the strategies of `strats` in one of several ways:
    "s" the strategy, "r" its rule if it applies, "l" a rule that may turn out not
    to apply, "p" the ready rule for the class with a shorter prefix, "q" with a prefix
    shorter by two, "t" the same for the class with no prefix at all.
    """

    def __init__(self, name, strats, modes):
        self.name = name
        self.strats = list(strats)
        self.modes = modes

    def __call__(self, comb_class):
        _callback("factory", self.name, repr(comb_class))
        for strat, mode in zip(self.strats, self.modes):
            if mode == "s":
                yield strat
            elif mode in "rptq":
                c = comb_class
                if mode != "r":
                    if c.kind != "F" or c.just or not c.p:
                        continue
                    c = shorter(c, {"p": 1, "q": 2, "t": len(c.p)}[mode])
                    if c.lang.empty:
                        continue
                try:
                    yield strat(c)
                except StrategyDoesNotApply:
                    continue
            elif mode == "l":
                yield (BlowRule if isinstance(strat, Blow) else Rule)(strat, comb_class)

    def __str__(self):
        return f"factory {self.name}"

    def __repr__(self):
        return f"WFactory({self.name}, {self.modes}, {self.strats})"

    def to_jsonable(self):
        d = super().to_jsonable()
        d["name"] = self.name
        d["modes"] = self.modes
        d["strats"] = [s.to_jsonable() for s in self.strats]
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["name"], [AbstractStrategy.from_dict(s) for s in d["strats"]],
                   d["modes"])


class PermuteFactory(StrategyFactory):
    """All renamings of the letters of a class."""

    def __init__(self, letters):
        self.letters = letters

    def __call__(self, comb_class):
        _callback("factory", "perm", repr(comb_class))
        for perm in permutations(self.letters):
            s = "".join(x + y for x, y in zip(self.letters, perm) if x != y)
            if s:
                yield Permute(perm=s)

    def __str__(self):
        return "letter renamings"

    def __repr__(self):
        return f"PermuteFactory({self.letters})"

    def to_jsonable(self):
        d = super().to_jsonable()
        d["letters"] = self.letters
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["letters"])


def make_pack(spec):
    """A pack from its description: {kind of slot: [strategy jsons]}."""
    from comb_spec_searcher.strategies.strategy import strategy_from_dict

    d = copy.deepcopy(spec)
    f = strategy_from_dict
    return StrategyPack(
        initial_strats=[f(s) for s in d["initial"]],
        inferral_strats=[f(s) for s in d["inferral"]],
        expansion_strats=[[f(s) for s in x] for x in d["expansion"]],
        ver_strats=[f(s) for s in d["ver"]],
        symmetries=[f(s) for s in d.get("sym", [])],
        name=d["name"],
        iterative=d.get("iterative", False),
    )


def describe(name, initial=(), inferral=(), expansion=(), ver=(), sym=(), iterative=False):
    j = lambda xs: [s.to_jsonable() for s in xs]  # noqa: E731
    return {"name": name, "initial": j(initial), "inferral": j(inferral),
            "expansion": [j(x) for x in expansion], "ver": j(ver), "sym": j(sym),
            "iterative": iterative}


PLAIN_ATOM = AtomStrategy
