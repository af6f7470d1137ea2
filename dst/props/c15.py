"""C15: the class database is a stable bijection between classes and dense labels."""

import pickle
import zlib

from comb_spec_searcher import CombinatorialClass
from comb_spec_searcher.class_db import ClassDB

from .. import specs, trees, words
from ..core import CUR, InjectedFault
from ..wordgen import gen_any, make_searcher

RUNS = {"quick": 25000, "thorough": 200000}
RULE = (
    "One run = several histories of label lookups, class lookups, membership tests (classes,"
    " labels, negative and unseen labels, foreign values), emptiness queries, exceptions"
    " injected into the user's is_empty/to_bytes/from_bytes and pickle restarts, on classes"
    " with and without byte compression and with colliding hashes; every answer is compared"
    " with a list-and-equality reference model. One run in 50 is instead a real search over"
    " a generated word or tree universe (interrupted in some runs), after which the database"
    " of the searcher must number distinct classes densely, find each of them again and give"
    " the true emptiness of each. Non-trivial: a class was looked up again"
    " through an equal but distinct object after other classes were added."
)
STATES = "distinct (stored classes in label order, known emptiness) states"
REAL = ["ClassDB", "LabelToInfo", "ClassToInfo", "CombinatorialClass",
        "CombinatorialSpecificationSearcher and rule databases (searches)"]
STUB = ["combinatorial class: a coloured integer; word and tree classes and their strategies",
        "clock", "random"]
ASSUME = ["at most 40 classes and 90 operations per history",
          "to_bytes/from_bytes of the test class are mutually inverse and canonical",
          "membership of bool and of floats equal to an integer is not judged (they equal labels)"]
MUST_HIT = ["relookup", "unknown_label", "negative_label", "foreign_key", "fault_is_empty",
            "fault_to_bytes", "fault_from_bytes", "restart", "compressed", "uncompressed",
            "unknown_class", "empty_true", "empty_false", "partly", "subclass", "searched",
            "searched_empty"]

FAIL = [None, False]  # name of the callback that raises, has it fired


def _maybe_fail(name):
    if FAIL[0] == name:
        FAIL[0] = None
        FAIL[1] = True
        raise InjectedFault(name)


class Plain(CombinatorialClass):
    """No byte compression.  Equality by (i, tag)."""

    buckets = 1 << 30

    def __init__(self, i, tag="", empty=False):
        self.i = i
        self.tag = tag
        self.empty = empty

    def is_empty(self):
        _maybe_fail("is_empty")
        sim = CUR[0]
        if sim is not None:
            sim.notes.setdefault("asked", {}).setdefault((self.i, self.tag), 0)
            sim.notes["asked"][(self.i, self.tag)] += 1
        return self.empty

    def is_atom(self):
        return False

    def minimum_size_of_object(self):
        return 0

    @classmethod
    def from_dict(cls, d):
        return cls(d["i"], d["tag"], d["empty"])

    def __eq__(self, other):
        if other.__class__ is not self.__class__:
            return NotImplemented
        return self.i == other.i and self.tag == other.tag

    def __hash__(self):
        sim = CUR[0]
        return hash((self.i * 7919 + (sim.salt if sim else 0)) % self.buckets)

    def __repr__(self):
        return f"{self.__class__.__name__}{self.i}{self.tag}"

    __str__ = __repr__


class Collide(Plain):
    """No byte compression, few hash values."""

    buckets = 3


class Packed(Plain):
    """Stored through to_bytes/from_bytes."""

    def to_bytes(self):
        _maybe_fail("to_bytes")
        return f"{self.i}|{self.tag}|{int(self.empty)}".encode()

    @classmethod
    def from_bytes(cls, b):
        _maybe_fail("from_bytes")
        i, tag, e = b.decode().split("|")
        return cls(int(i), tag, bool(int(e)))


class Raw(Packed):
    """The bytes are the whole class: none at all, zeroes, long ones, or what itself
    looks like compressed bytes."""

    def to_bytes(self):
        _maybe_fail("to_bytes")
        return self._bytes(self.i, self.tag) + (b"E" if self.empty else b"")

    @staticmethod
    def _bytes(i, tag):
        b = b"\0" * (i // 3) if i % 3 == 0 else bytes([255, i]) * (40 * i)
        for c in tag:
            b = zlib.compress(b, 9) if c == "a" else b + b"E"
        return b

    @classmethod
    def from_bytes(cls, b):
        _maybe_fail("from_bytes")
        return cls(*CUR[0].notes["raw"][b])


class Partly(Packed):
    """Only some of the classes have a byte form."""

    def to_bytes(self):
        if self.i % 2:
            _maybe_fail("to_bytes")
            raise NotImplementedError
        return super().to_bytes()


class Other(CombinatorialClass):
    """A class of another type."""

    def __init__(self, i):
        self.i = i

    def is_empty(self):
        return False

    def is_atom(self):
        return False

    def minimum_size_of_object(self):
        return 0

    @classmethod
    def from_dict(cls, d):
        return cls(d["i"])

    def __eq__(self, other):
        return isinstance(other, Other) and self.i == other.i

    def __hash__(self):
        return hash(self.i)

    def __repr__(self):
        return f"Other{self.i}"

    __str__ = __repr__


def history(sim):
    cls = sim.pick([Plain, Packed, Collide, Packed, Raw, Partly])
    sim.probe("compressed" if cls in (Packed, Raw) else "partly" if cls is Partly else "uncompressed")
    big = sim.chance(1, 80)
    big = big and cls is not Raw
    n = sim.int(200, 700) if big else sim.int(1, sim.pick([3, 8, 20, 40]))
    pool = [(i // 2, "ab"[i % 2] * sim.draw(3), bool(sim.draw(3) == 2)) for i in range(n)]
    # one truth about emptiness for each (i, tag)
    truth, uniq = {}, []
    for i, tag, e in pool:
        if (i, tag) not in truth:
            truth[(i, tag)] = e
            uniq.append((i, tag))
    if cls is Raw:
        raw, uniq = sim.notes.setdefault("raw", {}), []
        raw.clear()
        for i, tag in list(truth):
            b = Raw._bytes(i, tag) + (b"E" if truth[i, tag] else b"")
            if b not in raw:
                raw[b] = (i, tag, truth[i, tag])
                uniq.append((i, tag))
    # equal only to their own kind, but of the type the database was made for
    mixed = cls is Plain and sim.chance(1, 3)
    if mixed:
        sim.probe("subclass")

    def mk(k):
        kind = Collide if mixed and (k[0] + len(k[1])) % 2 else cls
        return kind(k[0], k[1], truth[k])

    db = ClassDB(cls)
    order = []  # reference model: label -> key
    lab = {}
    known_empty = set()

    def ensure(k):
        if k not in lab:
            lab[k] = len(order)
            order.append(k)

    def chk_class(obj, k, how):
        sim.check(type(obj) is type(mk(k)) and obj == mk(k) and obj.empty == truth[k], "class-differs",
                  lambda: f"{how}: got {obj!r}, stored {k}; order {order}")

    def contains(x):
        try:
            return x in db
        except InjectedFault:
            raise
        except Exception as e:  # membership must be total
            sim.fail("membership-raises", f"{x!r} in db raised {type(e).__name__}: {e}")

    if big:
        for k in uniq:
            if len(order) < 600 and sim.chance(7, 8):
                sim.check(db.get_label(mk(k)) == lab.get(k, len(order)), "label",
                          lambda: f"{k} after {len(order)} classes")
                ensure(k)
        if len(order) > 256:
            sim.probe("many_classes")
    ops = sim.int(2, sim.pick([10, 30, 90]))
    for _ in range(ops):
        op = sim.weighted([
            ("label", 8), ("class_by_label", 4), ("class_by_class", 2), ("in_class", 4),
            ("in_label", 3), ("in_other", 2), ("empty", 4), ("empty_l", 3), ("add", 2),
            ("iter", 1), ("fault", 3), ("restart", 1), ("badlabel", 1), ("set", 1), ("status", 1),
        ])
        k = sim.pick(uniq)
        if op == "label":
            was = k in lab
            got = db.get_label(mk(k))
            ensure(k)
            if was:
                sim.probe("relookup")
                if lab[k] != len(order) - 1:
                    sim.nontrivial = True
            sim.check(type(got) is int and got == lab[k], "label-differs",
                      lambda: f"{k}: label {got!r}, expected {lab[k]}; order {order}")
        elif op == "add":
            db.add(mk(k))
            ensure(k)
        elif op == "class_by_label":
            if order:
                l = sim.draw(len(order))
                chk_class(db.get_class(l), order[l], f"get_class({l})")
        elif op == "class_by_class":
            got = db.get_class(mk(k))
            ensure(k)
            chk_class(got, k, f"get_class({k})")
        elif op == "in_class":
            if k not in lab:
                sim.probe("unknown_class")
            got = contains(mk(k))
            sim.check(got is (k in lab), "membership-class",
                      lambda: f"{k} in db: {got!r}, expected {k in lab}")
        elif op == "in_label":
            l = sim.pick([0, len(order) - 1, len(order), len(order) + 1, 1 << 40, -1,
                          -len(order), -len(order) - 1, sim.draw(len(order) + 1)])
            if l < 0:
                sim.probe("negative_label")
            if l >= len(order):
                sim.probe("unknown_label")
            got = contains(l)
            sim.check(got is (0 <= l < len(order)), "membership-label",
                      lambda: f"{l} in db: {got!r} with {len(order)} classes stored")
        elif op == "in_other":
            x = sim.pick([None, "a", 0.5, (0,), [0], {}, Other(k[0]), b"0||0", cls, object])
            sim.probe("foreign_key")
            got = contains(x)
            sim.check(got is False, "membership-foreign", lambda: f"{x!r} in db: {got!r}")
        elif op == "badlabel":
            l = sim.pick([len(order), len(order) + 5, -1])
            try:
                got = db.get_class(l)
            except (KeyError, IndexError, ValueError):
                pass
            else:
                sim.fail("class-of-unknown-label", f"get_class({l}) gave {got!r}, order {order}")
        elif op in ("empty", "empty_l"):
            if k not in lab and sim.chance(1, 3):
                # it may be refused for a class that is not stored, but not answered wrongly
                try:
                    got = db.is_empty(mk(k))
                except InjectedFault:
                    raise
                except Exception:  # pylint: disable=broad-except
                    sim.probe("empty_unknown")
                    got = truth[k]
                if contains(mk(k)):
                    ensure(k)
            elif op == "empty":
                db.get_label(mk(k))
                ensure(k)
                got = db.is_empty(mk(k))
            else:
                got = db.is_empty(mk(k), db.get_label(mk(k)))
                ensure(k)
            if k in lab:
                known_empty.add(k)
            sim.probe("empty_true" if truth[k] else "empty_false")
            sim.check(got is truth[k], "emptiness-differs",
                      lambda: f"{k}: is_empty {got!r}, class says {truth[k]}")
        elif op == "set":
            db.get_label(mk(k))
            ensure(k)
            db.set_empty(mk(k) if sim.draw(2) else lab[k], truth[k])
            known_empty.add(k)
        elif op == "status":
            db.status()
        elif op == "iter":
            got = list(db)
            sim.check(sorted(got) == list(range(len(order))), "iteration-differs",
                      lambda: f"labels {got}, expected {len(order)} dense labels")
        elif op == "fault":
            what = sim.pick(["is_empty", "to_bytes", "from_bytes"])
            FAIL[0], FAIL[1] = what, False
            act = sim.draw(4)
            was = k in lab
            try:
                if act == 0 and was:
                    db.is_empty(mk(k))
                    known_empty.add(k)
                elif act == 1:
                    db.get_label(mk(k))
                    ensure(k)
                elif act == 2 and order:
                    l = sim.draw(len(order))
                    chk_class(db.get_class(l), order[l], "get_class under fault")
                else:
                    contains(mk(k))
            except InjectedFault:
                sim.fault("callback_exception:" + what)
                sim.probe("fault_" + what)
            FAIL[0] = None
            # whatever was interrupted, the database must still be in step:
            # either the class was added or it was not
            if act == 1 and k not in lab and contains(mk(k)):
                ensure(k)
        elif op == "restart":
            new = pickle.loads(pickle.dumps(db))
            sim.check(new == db, "restored-differs", "pickle round trip not equal")
            db = new
            sim.fault("restart")
        sim.log(op, k)
        sim.state((cls.__name__, tuple(order), tuple(sorted(known_empty))))
    # the final sweep: everything at once
    for l, k in enumerate(order):
        chk_class(db.get_class(l), k, f"final get_class({l})")
        sim.check(db.get_label(mk(k)) == l, "label-differs", lambda: f"final {k}")
        sim.check(contains(l) and contains(mk(k)), "membership-lost", lambda: f"{l} {k}")
        sim.check(db.is_empty(mk(k)) is truth[k], "emptiness-differs", lambda: f"final {k}")
        sim.check(db.is_empty(db.get_class(l), l) is truth[k], "emptiness-differs", lambda: f"final {k}")
    sim.check(sorted(db) == list(range(len(order))), "iteration-differs", "final")


def searched(sim):
    """The database that a real search has filled."""
    words.reset()
    trees.reset()
    u = gen_any(sim)
    sim.draw_clock()
    css, which = make_searcher(sim, u)
    if sim.chance(1, 3):
        sim.arm_interrupt(60)
    try:
        for _ in specs.search(sim, css, want=sim.int(1, 2), restarts=False):
            pass
    except InjectedFault:
        sim.probe("interrupted")
    finally:
        sim.interrupt_at = None
    db = css.classdb
    sim.probe("searched")
    k = 0
    seen = {}
    while k in db:
        c = db.get_class(k)
        sim.check(c not in seen, "same-class-two-labels", lambda: f"{c}: {seen[c]} and {k}")
        seen[c] = k
        k += 1
    sim.check(sorted(db) == list(range(k)), "labels-not-dense", lambda: f"{sorted(db)}")
    for c, label in seen.items():
        ask = sim.draw(3)
        sim.check(db.get_label(c) == label, "label-changed", lambda: f"{c}: {label}")
        got = db.is_empty(c, label) if ask == 0 else db.is_empty(c) if ask == 1 else \
            db.is_empty(db.get_class(label), label)
        sim.check(got == c.lang.empty, "emptiness-wrong",
                  lambda: f"after a search with {which}: {c} is said to be"
                  f" {'empty' if got else 'not empty'}\npack {u.pack!r}")
        if got:
            sim.probe("searched_empty")


def body(sim):
    sim.salt = sim.draw(1 << 16)
    if sim.chance(1, 50):
        searched(sim)
        return
    for _ in range(1 + sim.draw(5)):
        FAIL[0] = None
        history(sim)
