from mkbug import bug
FOREST='''
import random
from comb_spec_searcher.rule_db.forest import TableMethod
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

BOUND = 400

def reference(rules):
    """Terms computable per class: naive iteration, far beyond the window means all."""
    val = {}
    labels = {l for p, cs, ss in rules for l in (p,) + cs}
    inf = set()
    val = {l: 0 for l in labels}
    changed = True
    while changed:
        changed = False
        for p, cs, ss in rules:
            new = min((val[c] + s for c, s in zip(cs, ss)), default=BOUND)
            new = min(new, BOUND)
            if new > val[p]:
                val[p] = new
                changed = True
    return {l: (None if v > BOUND // 2 else v) for l, v in val.items() if v}

def table(rules):
    t = TableMethod()
    for p, cs, ss in rules:
        t.add_rule_key(ForestRuleKey(p, cs, ss, RuleBucket.NORMAL))
    return t.function

rng = random.Random(5)
for case in range(4000):
    labels = rng.randint(2, 6)
    rules = []
    for _ in range(rng.randint(1, 9)):
        k = rng.choice((0, 1, 1, 2, 2, 3))
        rules.append((rng.randrange(labels),
                      tuple(rng.randrange(labels) for _ in range(k)),
                      tuple(rng.choice((-3, -2, -1, 0, 0, 1, 1, 2, 4)) for _ in range(k))))
    expected = reference(rules)
    assert table(rules) == expected, (rules, table(rules), expected)
print("ok")
'''
bug('C03-gap-abs','C03',[('rule_db/forest.py','max_gap = max((abs(s) for s in rule_key.shifts), default=0)','max_gap = max(rule_key.shifts, default=0)')],
 'rules with negative shifts (reverse rules) whose magnitude exceeds every positive shift','The gap is sized from the largest shift instead of the largest absolute shift, so finite classes separated by a negative shift are declared pumping.',FOREST)
bug('C03-dup-child','C03',[('rule_db/forest.py','for rule_idx, class_idx in self._rules_using_class[comb_class]:\n            shifts = self._shifts[rule_idx]\n            shifts[class_idx] = None','for rule_idx, class_idx in dict(self._rules_using_class[comb_class]).items():\n            shifts = self._shifts[rule_idx]\n            shifts[class_idx] = None')],
 'a rule in which the same class occurs twice as a child, waiting while that class becomes infinite','Only one of the occurrences of the class is updated to infinite, so the rule keeps waiting for terms it already has and pumping classes are missed.',FOREST)
bug('C03-gap-stale','C03',[('rule_db/forest.py','            self._gap_size = max_gap\n            self._correct_gap()\n','            self._gap_size = max_gap\n')],
 'a rule with a larger shift inserted after others, the start of the gap being the same for both sizes','The window is not recomputed when the gap size grows, so values are frozen inside the old narrow gap and wrongly declared infinite; the answer depends on insertion order.',FOREST)
EQ='''
import random
from comb_spec_searcher.equiv_db import EquivalenceDB

def reach(edges, n):
    r = [{i} for i in range(n)]
    for i in range(n):
        todo = [i]
        while todo:
            a = todo.pop()
            for x, y in edges:
                if x == a and y not in r[i]:
                    r[i].add(y)
                    todo.append(y)
    return r

rng = random.Random(3)
for case in range(3000):
    n = rng.randint(2, 8)
    db, edges, marked = EquivalenceDB(), set(), set()
    for step in range(rng.randint(1, 14)):
        k, a, b = rng.random(), rng.randrange(n), rng.randrange(n)
        if k < 0.55:
            if a != b:
                db.add_one_way_edge(a, b)
                edges.add((a, b))
        elif k < 0.75:
            if a != b:
                db.add_two_way_edge(a, b)
                edges |= {(a, b), (b, a)}
        elif k < 0.9:
            db.set_verified(a)
            marked.add(a)
        else:
            db.connect_cycles()
    db.connect_cycles()
    r = reach(edges, n)
    for a in range(n):
        scc = {b for b in r[a] if a in r[b]}
        assert db.is_verified(a) == bool(scc & marked), ("verified", a, edges, marked)
        for b in range(n):
            assert db.equivalent(a, b) == (b in scc), ("equivalent", a, b, edges)
            if b in scc:
                p = db.find_path(a, b)
                assert p[0] == a and p[-1] == b
                assert all(e in edges for e in zip(p, p[1:])), (p, edges)
print("ok")
'''
bug('C06-cycle-merged','C06',[('equiv_db.py','                    if self.equivalent(vertex, new_end):\n                        # we','                    if vertex == new_end:\n                        # we')],
 'two directed cycles that share labels, the second closing through a label merged while the first was found','Cycle detection compares labels instead of components, so a cycle that closes through an already merged component is missed and labels that reach each other are not equivalent.',EQ)
bug('C06-edges-overwritten','C06',[('equiv_db.py','''            for end in ends:
                end = self[end]
                if start != end:
                    res[start].add(end)
''','''            outgoing = {self[end] for end in ends}
            outgoing.discard(start)
            if outgoing:
                res[start] = outgoing
''')],
 'two labels that each have one-way edges get merged, and a later cycle goes through the edges of the first','The one-way edges of a component are overwritten by those of the last of its labels, so later cycles are not found.',EQ)
bug('C06-verified-before-merge','C06',[('equiv_db.py','''        verified = self.is_verified(label) or self.is_verified(other_label)
        roots''','''        if self.is_verified(label) or self.is_verified(other_label):
            self.set_verified(label)
        roots'''),('equiv_db.py','''                self.parents[r] = heaviest
        if verified:
            self.set_verified(label)
''','''                self.parents[r] = heaviest
''')],
 'a verified label in a lighter component merging with a heavier unverified one','The verified mark is stored on the root before the merge and is lost when the other root survives.',EQ)
CDB='''
import random
from comb_spec_searcher.class_db import ClassDB
from comb_spec_searcher.combinatorial_class import CombinatorialClass

class K(CombinatorialClass):
    def __init__(self, w):
        self.w = w
    def to_bytes(self):
        return self.w.encode()
    @classmethod
    def from_bytes(cls, b):
        return cls(b.decode())
    def is_empty(self):
        return len(self.w) % 2 == 1
    def __eq__(self, o):
        return isinstance(o, K) and o.w == self.w
    def __hash__(self):
        return hash(self.w)
    def __repr__(self):
        return f"K({self.w!r})"
    def __str__(self):
        return self.w
    @classmethod
    def from_dict(cls, d):
        return cls(d["w"])
    def is_atom(self):
        return False
    def minimum_size_of_object(self):
        return 0
    def objects_of_size(self, n, **p):
        return iter(())

class U(K):
    def to_bytes(self):
        raise NotImplementedError

rng = random.Random(1)
for T in (K, U):
    for case in range(200):
        db, order = ClassDB(T), []
        for step in range(40):
            w = "".join(rng.choice("ab") for _ in range(rng.randint(0, 3)))
            k = rng.random()
            if k < 0.5:
                lab = db.get_label(T(w))
                if w not in order:
                    order.append(w)
                assert lab == order.index(w), (w, lab, order)
            elif k < 0.7:
                assert (T(w) in db) == (w in order), (w, order)
                i = rng.randrange(-3, 12)
                assert (i in db) == (0 <= i < len(order)), (i, order)
            elif order:
                i = rng.randrange(len(order))
                assert db.get_class(i) == T(order[i])
                if rng.random() < 0.5:
                    assert db.is_empty(T(order[i])) == (len(order[i]) % 2 == 1), order[i]
                else:
                    assert db.is_empty(T(order[i]), i) == (len(order[i]) % 2 == 1), order[i]
            for i, x in enumerate(order):
                assert db.get_class(i) == T(x)
print("ok")
'''
bug('C15-compress-memo','C15',[('class_db.py','''        self._empty_time = 0.0
        self._empty_num_application = 0

    def __iter__''','''        self._empty_time = 0.0
        self._empty_num_application = 0
        self._last_compressed: Tuple[int, bytes] = (0, b"")

    def __iter__'''),('class_db.py','''            return zlib.compress(key.to_bytes(), 9)
''','''            if self._last_compressed[0] != id(key):
                self._last_compressed = (id(key), zlib.compress(key.to_bytes(), 9))
            return self._last_compressed[1]
'''),('class_db.py','from typing import (','from typing import (\n    Tuple,')],
 'compressible classes; a temporary class is asked about, freed, and the next class is allocated at the same address','The last compressed form is remembered by object identity, which Python reuses, so a different class gets the label of a freed one.',CDB)
bug('C15-empty-default','C15',[('class_db.py','''        empty = self.empty_list[label]
        if empty is None:
            if not''','''        empty = self.empty_list[label]
        if empty is None or label + 1 == len(self.empty_list):
            if not'''),('class_db.py','''            empty = self._is_empty(comb_class)
            self.set_empty(label, empty)
''','''            empty = self._is_empty(comb_class)
            self.set_empty(comb_class, empty)
''')] if 0 else [('class_db.py','''        if compressed_class not in self.class_to_info:
            label = len(self.class_to_info)
            self.comb_class_list.append(compressed_class)
            self.label_dict[compressed_class] = label
            self.empty_list.append(None)''','''        if compressed_class not in self.class_to_info:
            label = len(self.class_to_info)
            self.comb_class_list.append(compressed_class)
            self.empty_list.append(None)
        else:
            label = self.label_dict[compressed_class]
            self.empty_list[label] = bool(self.empty_list[label])
        self.label_dict[compressed_class] = label''')],
 'a class that is empty is added a second time with add() before its emptiness was ever asked','Adding a known class again settles its unknown emptiness as non-empty, so the cached emptiness is wrong.',CDB.replace('            elif k < 0.7:','            elif k < 0.6:\n                db.add(T(w))\n                if w not in order:\n                    order.append(w)\n            elif k < 0.75:'))
Q='''
import random
from collections import defaultdict
from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import NoMoreClassesToExpandError
from comb_spec_searcher.strategies.strategy_pack import StrategyPack

class S:
    def __init__(self, n):
        self.n = n
    def __repr__(self):
        return self.n

def check(case):
    rng = random.Random(case)
    inf = [S(f"inf{i}") for i in range(rng.randint(0, 2))]
    ini = [S(f"ini{i}") for i in range(rng.randint(0, 2))]
    exp = [[S(f"e{j}{i}") for i in range(rng.randint(1, 2))] for j in range(rng.randint(0, 2))]
    q = DefaultQueue(StrategyPack(initial_strats=ini, inferral_strats=inf, expansion_strats=exp,
                                  ver_strats=[], name="p"))
    added, stopped, notinf, got = set(), set(), set(), defaultdict(list)
    def take(wp):
        assert wp.label not in stopped, ("stopped label handed out", case, wp)
        for s in wp.strategies:
            assert s not in got[wp.label], ("twice", case, wp)
            got[wp.label].append(s)
    for step in range(30):
        k, l = rng.random(), rng.randrange(6)
        if k < 0.4:
            q.add(l)
            added.add(l)
        elif k < 0.5:
            (q.set_stop_yielding if rng.random() < 0.5 else q.set_verified)(l)
            stopped.add(l)
        elif k < 0.55:
            if not got[l]:
                q.set_not_inferrable(l)
                notinf.add(l)
        elif k < 0.9:
            try:
                take(next(q))
            except StopIteration:
                pass
        else:
            level = q.levels_completed
            try:
                for wp in q.do_level():
                    take(wp)
                assert q.levels_completed > level, ("level finished early", case)
            except NoMoreClassesToExpandError:
                pass
    while True:
        try:
            take(next(q))
        except StopIteration:
            break
    for _ in range(2):
        try:
            next(q)
            assert False, "not exhausted"
        except StopIteration:
            pass
    for l in added - stopped:
        want = [] if l in notinf else list(inf)
        want += ini + [s for e in exp for s in e]
        assert [s for s in got[l] if not (l in notinf and s in inf)] == want, (case, l, got[l], want)

for case in range(4000):
    check(case)
print("ok")
'''
bug('C16-inferral-stopped','C16',[('class_queue.py','                if wp.label not in self.ignore:\n                    return wp','                if wp.inferral or wp.label not in self.ignore:\n                    return wp')],
 'a label stopped between being added and its inferral work being handed out','Inferral packets skip the hand-out check, so work is handed out for a label told to stop.',Q)
bug('C16-stage-time-check','C16',[('class_queue.py','                if wp.label not in self.ignore:\n                    return wp\n','                return wp\n'),
 ('class_queue.py','''        while not self.staging and self.working:
            self.staging.extend(self._iter_helper_working())''','''        while not self.staging and self.working:
            if self.working[0] in self.ignore:
                self.working.popleft()
                continue
            self.staging.extend(self._iter_helper_working())'''),
 ('class_queue.py','''        if idx == len(self.expansion_strats):
            self.set''','''        if label in self.ignore:
            return
        if idx == len(self.expansion_strats):
            self.set''')],
 'a label stopped after its packets were staged, between two of its strategies','The stop mark is consulted when work is staged rather than when it is handed out, so already staged packets of a stopped label still come out.',Q)
bug('C16-level-dry','C16',[('class_queue.py','''                if curr_level == self.levels_completed:
                    raise NoMore''','''                if curr_level == self.levels_completed and not handed_out:
                    raise NoMore'''),('class_queue.py','''            try:
                yield next(self)
            except''','''            try:
                work = next(self)
                handed_out = True
                yield work
            except'''),('class_queue.py','''        curr_level = self.levels_completed
        while''','''        curr_level = self.levels_completed
        handed_out = False
        while''')],
 'a level that hands out some work and then runs dry before the level counter advances','Level iteration ends silently instead of raising the documented error when the queue runs dry after handing out work.',Q.replace('                for wp in q.do_level():\n                    take(wp)\n','                for wp in q.do_level():\n                    take(wp)\n'))
